----------------------------- MODULE TypeModel -----------------------------
(***************************************************************************)
(* The objects the generator describes declarations with: types, members,   *)
(* parameters, results and functions, built from each other, changed, moved *)
(* and put into each other.  The heap is a sequence of nodes; an object's   *)
(* description is what can be reached from it (Term).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CTypes == {"char", "unsigned char", "signed char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long",
           "unsigned long long", "float", "double", "long double", "__int128", "unsigned __int128", "_Bool", "void"}
Composables == {"struct", "union", "class"}
Types == {"ctype", "ptr", "ref", "const", "typedef", "enum", "inc", "fn"} \union Composables
Declarators == {"field", "bits", "param", "ret"}
Functions == {"func", "decl"}
\* objects of the same category are compared with each other
Category(k) == IF k \in Types THEN "type" ELSE k

\* k: kind; n: name; t: what it is made of; m: member functions; v: length of an array or width of a bit-field; s: declaration string;
\* e: enumerators; f: flags; a: attributes; x: access of a function, keyword of an incomplete type; ns: namespaces; p: the class of a method;
\* o: "free", in which object it has been put, or "gone"
Blank == [k |-> "", n |-> "", t |-> <<>>, m |-> <<>>, v |-> -1, s |-> "", e |-> <<>>, f |-> {}, a |-> <<>>, x |-> "na", ns |-> <<>>,
          p |-> 0, o |-> 0, live |-> TRUE]

\* ------------------------------------------------------------------ descriptions
RECURSIVE Raw(_, _), ContainsTypedef(_, _), Prefix(_, _), PostOf(_, _), Postfix(_, _), Term(_, _), HTerm(_, _), Reach(_, _)
Named(kw, n) == IF n = "" THEN kw ELSE kw \o " " \o n
Raw(h, i) == IF h[i].k \in {"ptr", "ref", "const", "typedef"} THEN Raw(h, h[i].t[1]) ELSE i
ContainsTypedef(h, i) ==
  CASE h[i].k = "typedef" -> TRUE [] h[i].k \in {"ptr", "ref", "const"} -> ContainsTypedef(h, h[i].t[1]) [] OTHER -> FALSE
DeclString(h, i) == IF h[i].s # "" THEN h[i].s ELSE Prefix(h, h[i].t[1])
Prefix(h, i) ==
  LET c == h[i] IN
  CASE c.k \in {"ctype", "typedef"} -> c.n
    [] c.k = "ptr" -> Prefix(h, c.t[1]) \o "*"
    [] c.k = "ref" -> Prefix(h, c.t[1]) \o "&"
    [] c.k = "const" -> Prefix(h, c.t[1]) \o " const"
    [] c.k \in Composables \union {"enum"} -> Named(c.k, c.n)
    [] c.k = "inc" -> Named(c.x, c.n)
    [] c.k = "fn" -> Prefix(h, h[c.t[1]].t[1]) \o "("
PostOf(h, i) == IF ContainsTypedef(h, i) \/ h[Raw(h, i)].k # "fn" THEN "" ELSE Postfix(h, Raw(h, i))
RECURSIVE JoinParams(_, _, _)
JoinParams(h, ps, named) ==
  IF ps = <<>> THEN "" ELSE
  DeclString(h, Head(ps)) \o (IF named THEN " " \o h[Head(ps)].n ELSE PostOf(h, h[Head(ps)].t[1]))
  \o (IF Len(ps) > 1 THEN ", " ELSE "") \o JoinParams(h, Tail(ps), named)
Dots(c) == IF "variadic" \notin c.f THEN "" ELSE IF Len(c.t) = 1 THEN "..." ELSE ", ..."
Postfix(h, i) == ")(" \o JoinParams(h, Tail(h[i].t), FALSE) \o Dots(h[i]) \o ")" \o PostOf(h, h[h[i].t[1]].t[1])
Full(h, i) == Prefix(h, i)        \* of what isn't a function type
RECURSIVE JoinStr(_, _), Attrs(_)
JoinStr(ss, sep) == IF ss = <<>> THEN "" ELSE Head(ss) \o (IF Len(ss) > 1 THEN sep ELSE "") \o JoinStr(Tail(ss), sep)
Attrs(as) == IF as = <<>> THEN "" ELSE
  "__attribute__((" \o Head(as).n \o (IF Head(as).p = <<>> THEN "" ELSE "(" \o JoinStr(Head(as).p, ",") \o ")") \o ")) " \o Attrs(Tail(as))
RECURSIVE Scope(_)
Scope(ns) == IF ns = <<>> THEN "" ELSE Head(ns) \o "::" \o Scope(Tail(ns))
Proto(h, i) ==
  LET c == h[i] IN
  (IF "static" \in c.f THEN "static " ELSE "") \o (IF "inline" \in c.f THEN "inline " ELSE "") \o Attrs(c.a)
  \o DeclString(h, c.t[1]) \o " " \o Scope(c.ns) \o (IF c.p = 0 THEN "" ELSE h[c.p].n \o "::") \o c.n
  \o "(" \o JoinParams(h, Tail(c.t), TRUE) \o Dots(c) \o ")" \o (IF "cconst" \in c.f THEN " const" ELSE "")

\* Names of parameters don't count; whether a char was once written without sign is remembered, but is no part of the description.
Described == {"emb", "fwd", "implicit", "variadic", "inline", "static", "cconst", "body"}
HTerm(h, i) ==
  LET c == h[i] IN
  [k |-> c.k, n |-> IF c.k = "param" THEN "" ELSE c.n, v |-> c.v, s |-> c.s, e |-> c.e, f |-> c.f \intersect Described, a |-> c.a, x |-> c.x, ns |-> c.ns,
   t |-> [j \in 1..Len(c.t) |-> HTerm(h, c.t[j])], m |-> [j \in 1..Len(c.m) |-> Proto(h, c.m[j])]]
\* a method is another one than that of another class
Term(h, i) == [h |-> HTerm(h, i), p |-> IF h[i].p = 0 THEN <<>> ELSE <<HTerm(h, h[i].p)>>]
Equal(h, i, j) == Term(h, i) = Term(h, j)
Reach(h, i) == {i} \union UNION {Reach(h, h[i].t[j]) : j \in 1..Len(h[i].t)}

\* ------------------------------------------------------------------ what an object says about itself
SetStr(b, s) == IF b THEN {s} ELSE {}
Kinds(h, i) ==
  LET c == h[i] IN
  SetStr(c.k \in {"struct", "class"}, "struct") \union SetStr(c.k = "union", "union") \union SetStr(c.k = "ctype", "ctype")
  \union SetStr(c.k = "typedef", "typedef") \union SetStr(ContainsTypedef(h, i), "containstypedef") \union SetStr(c.k \in Composables, "composable")
  \union SetStr(c.k = "ptr", "ptr") \union SetStr(c.k = "ref", "ref") \union SetStr(c.k = "fn", "fn") \union SetStr(c.k = "enum", "enum")
  \union SetStr(c.k = "inc", "inc") \union SetStr(c.k = "const", "const") \union SetStr(c.k = "const", "qualified")
  \union SetStr("implicit" \in c.f /\ c.k # "inc", "implicit")
  \union SetStr(c.k \in Composables \union {"enum"} /\ c.n = "", "anonymous")
RECURSIVE Unqualify(_, _), MostPointed(_, _), MostDefined(_, _)
Unqualify(h, i) == IF h[i].k = "const" THEN Unqualify(h, h[i].t[1]) ELSE i
MostPointed(h, i) == IF h[h[i].t[1]].k = "ptr" THEN MostPointed(h, h[i].t[1]) ELSE h[i].t[1]
MostDefined(h, i) == IF h[h[i].t[1]].k = "typedef" THEN MostDefined(h, h[i].t[1]) ELSE h[i].t[1]

\* ------------------------------------------------------------------ operations; each gives the heap after it
New(h, c) == Append(h, c)
Top(h) == Len(h)
Free(h, i) == h[i].live /\ h[i].o = 0
Signed2U == [c \in {"char", "signed char", "short", "int", "long", "long long", "__int128"} |->
  CASE c \in {"char", "signed char"} -> "unsigned char" [] c = "__int128" -> "unsigned __int128" [] OTHER -> "unsigned " \o c]
U2Signed == [c \in {"unsigned char", "unsigned short", "unsigned int", "unsigned long", "unsigned long long", "unsigned __int128"} |->
  CASE c = "unsigned char" -> "signed char" [] c = "unsigned short" -> "short" [] c = "unsigned int" -> "int" [] c = "unsigned long" -> "long"
    [] c = "unsigned long long" -> "long long" [] OTHER -> "__int128"]
SetUnsigned(c, b) ==
  LET r == IF b THEN IF c.n \in DOMAIN Signed2U THEN Signed2U[c.n] ELSE "" ELSE IF c.n \in DOMAIN U2Signed THEN U2Signed[c.n] ELSE "" IN
  CASE r = "" -> c [] r = "signed char" /\ "naked" \in c.f -> [c EXCEPT !.n = "char"] [] OTHER -> [c EXCEPT !.n = r]
CanSetUnsigned(c, b) == IF b THEN c.n \in DOMAIN Signed2U ELSE c.n \in DOMAIN U2Signed

Put(h, i, c) == [h EXCEPT ![i] = c]
Own(h, js, o) == [x \in 1..Len(h) |-> IF \E y \in 1..Len(js) : js[y] = x THEN [h[x] EXCEPT !.o = o] ELSE h[x]]
\* the copy of an object, made anew from copies of what it is made of; the copies of the parts come first
RECURSIVE CopyAll(_, _, _), Copy(_, _)
CopyAll(h, js, done) == IF js = <<>> THEN [h |-> h, js |-> done] ELSE LET r == Copy(h, Head(js)) IN CopyAll(r, Tail(js), Append(done, Len(r)))
Owns(k) == k \in Composables \union {"fn"} \union Functions
Copy(h, i) ==
  LET r == CopyAll(h, h[i].t, <<>>)
      \* whether a copied char was once written without sign is not known any more
      g == New(r.h, [h[i] EXCEPT !.t = r.js, !.o = 0, !.f = IF h[i].k # "ctype" THEN @ ELSE (@ \ {"naked"}) \union SetStr(h[i].n = "char", "naked")])
  IN IF Owns(h[i].k) THEN Own(g, r.js, Len(g)) ELSE g
\* of a copy, one thing may be different
Edit(c, o) ==
  CASE o.n = "n" -> [c EXCEPT !.n = o.s] [] o.n = "emb" -> [c EXCEPT !.f = IF "emb" \in c.f THEN c.f \ {"emb"} ELSE c.f \union {"emb"}]
    [] o.n = "v" -> [c EXCEPT !.v = o.v] [] o.n = "k" -> [c EXCEPT !.k = o.s] [] o.n = "x" -> [c EXCEPT !.x = o.s] [] o.n = "ns" -> [c EXCEPT !.ns = o.w]
    [] o.n = "es" -> [c EXCEPT !.e[o.v].s = o.s] [] o.n = "ev" -> [c EXCEPT !.e[o.j].v = o.v]
    [] o.n = "less" -> [c EXCEPT !.e = [x \in 1..Len(@) - 1 |-> @[IF x < o.v THEN x ELSE x + 1]]]
    [] o.n = "rev" /\ c.k = "enum" -> [c EXCEPT !.e = [x \in 1..Len(@) |-> @[Len(@) + 1 - x]]]
    [] o.n = "rev" /\ c.k \in Composables -> [c EXCEPT !.t = [x \in 1..Len(@) |-> @[Len(@) + 1 - x]]]
    [] o.n = "rev" -> [c EXCEPT !.t = [x \in 1..Len(@) |-> @[IF x = 1 THEN 1 ELSE Len(@) + 2 - x]]]
    [] OTHER -> c
SetFlag(c, f, b) == [c EXCEPT !.f = IF b THEN c.f \union {f} ELSE c.f \ {f}]

\* o: [op, i, j, n, s, v, b, l, w]
Do(h, o) ==
  CASE o.op = "ctype" -> New(h, [Blank EXCEPT !.k = "ctype", !.n = o.n, !.f = IF o.n = "char" THEN {"naked"} ELSE {}])
    [] o.op = "enum" -> New(h, [Blank EXCEPT !.k = "enum", !.n = o.n])
    [] o.op = "rec" -> New(h, [Blank EXCEPT !.k = o.s, !.n = o.n, !.f = IF o.b THEN {"emb"} ELSE {}])
    [] o.op = "inc" -> New(h, [Blank EXCEPT !.k = "inc", !.n = h[o.i].n, !.x = o.s, !.f = h[o.i].f \intersect {"implicit"}])
    [] o.op \in {"ptr", "ref", "const"} -> New(h, [Blank EXCEPT !.k = o.op, !.t = <<o.i>>])
    [] o.op = "typedef" -> New(h, [Blank EXCEPT !.k = "typedef", !.n = o.n, !.t = <<o.i>>])
    [] o.op \in {"field", "bits", "param", "ret"} -> New(h, [Blank EXCEPT !.k = o.op, !.n = o.n, !.v = o.v, !.t = <<o.i>>, !.s = Prefix(h, o.i)])
    [] o.op = "fn" -> Own(New(h, [Blank EXCEPT !.k = "fn", !.t = o.l]), o.l, Len(h) + 1)
    [] o.op \in Functions -> Own(New(h, [Blank EXCEPT !.k = o.op, !.n = o.n, !.t = o.l, !.ns = o.w, !.p = o.j]), o.l, Len(h) + 1)
    [] o.op = "addfield" -> Own(Put(h, o.i, [h[o.i] EXCEPT !.t = Append(@, o.j)]), <<o.j>>, o.i)
    [] o.op = "addmethod" -> Own(Put(h, o.i, [h[o.i] EXCEPT !.m = Append(@, o.j)]), <<o.j>>, o.i)
    [] o.op = "addvalue" -> Put(h, o.i, [h[o.i] EXCEPT !.e = Append(@, [v |-> o.v, s |-> o.s])])
    [] o.op = "unsigned" -> Put(h, o.i, SetUnsigned(h[o.i], o.b))
    [] o.op = "array" -> Put(h, o.i, [h[o.i] EXCEPT !.v = o.v])
    [] o.op = "declstring" -> Put(h, o.i, [h[o.i] EXCEPT !.s = IF o.s # "" THEN o.s ELSE Full(h, h[o.i].t[1])])
    [] o.op = "flag" -> Put(h, o.i, SetFlag(h[o.i], o.n, o.b))
    [] o.op = "access" -> Put(h, o.i, [h[o.i] EXCEPT !.x = o.s])
    [] o.op = "attr" -> Put(h, o.i, [h[o.i] EXCEPT !.a = Append(@, [n |-> o.n, p |-> o.w])])
    [] o.op = "repoint" -> Put(h, o.i, [h[o.i] EXCEPT !.t = <<o.j>>])
    [] o.op = "clone" -> LET g == Copy(h, o.i) IN Put(g, Len(g), Edit(g[Len(g)], o))
    \* a new object takes the contents of another one
    [] o.op = "move" -> LET g == New(h, [h[o.i] EXCEPT !.o = 0]) IN
                        Own(Put(g, o.i, [h[o.i] EXCEPT !.live = FALSE]), IF Owns(h[o.i].k) THEN h[o.i].t ELSE <<>>, Len(g))
    \* an object takes the contents of another one of its class, in place of its own
    [] o.op = "assign" -> LET g == IF Owns(h[o.i].k) THEN [x \in 1..Len(h) |-> IF \E y \in 1..Len(h[o.i].t) : h[o.i].t[y] = x
                                                           THEN [h[x] EXCEPT !.live = FALSE] ELSE h[x]] ELSE h IN
                          Own(Put(Put(g, o.i, [h[o.j] EXCEPT !.o = h[o.i].o]), o.j, [h[o.j] EXCEPT !.live = FALSE]),
                              IF Owns(h[o.j].k) THEN h[o.j].t ELSE <<>>, o.i)
    [] OTHER -> h

\* ------------------------------------------------------------------ when an operation can be used
\* r: who refers to it
Referrers(h, i) == {x \in 1..Len(h) : h[x].live /\ ((\E y \in 1..Len(h[x].t) : h[x].t[y] = i) \/ h[x].p = i)}
Movable(h, i) == Free(h, i) /\ h[i].k # "inc" /\ Referrers(h, i) = {} /\ h[i].m = <<>>
FunctionLike == Functions \union {"fn"}
\* members are replaced by moving them into others
CanDo(h, o) ==
  LET ty(i) == i \in 1..Len(h) /\ h[i].live /\ h[i].k \in Types
      is(i, ks) == i \in 1..Len(h) /\ h[i].live /\ h[i].k \in ks
  IN
  CASE o.op \in {"ctype", "enum", "rec"} -> TRUE
    [] o.op = "inc" -> is(o.i, Composables) /\ (h[o.i].k = "union" <=> o.s = "union")
    [] o.op \in {"ptr", "typedef"} -> ty(o.i) /\ h[o.i].k # "ref"
    [] o.op = "ref" -> ty(o.i) /\ h[o.i].k \notin {"ref", "fn"}
    [] o.op = "const" -> ty(o.i) /\ h[o.i].k \notin {"ref", "const", "fn"}
    [] o.op \in {"field", "param", "ret"} -> ty(o.i) /\ h[o.i].k # "fn"
    [] o.op = "bits" -> ty(o.i) /\ h[Raw(h, o.i)].k \in {"ctype", "enum"} /\ h[o.i].k # "ref"
    [] o.op \in FunctionLike -> /\ \A x \in 1..Len(o.l) : is(o.l[x], IF x = 1 THEN {"ret"} ELSE {"param"}) /\ Free(h, o.l[x])
                                /\ Cardinality({o.l[x] : x \in 1..Len(o.l)}) = Len(o.l)
                                /\ o.j # 0 => is(o.j, {"class", "struct"}) /\ Free(h, o.j)
    \* no object is part of itself
    [] o.op = "addfield" -> is(o.i, Composables) /\ is(o.j, {"field", "bits"}) /\ Free(h, o.j) /\ o.i \notin Reach(h, o.j)
    [] o.op = "addmethod" -> is(o.i, Composables) /\ is(o.j, {"decl"}) /\ h[o.j].p = o.i /\ Free(h, o.j)
    [] o.op = "addvalue" -> is(o.i, {"enum"})
    [] o.op = "unsigned" -> is(o.i, {"ctype"})
    [] o.op = "array" -> is(o.i, {"field"})
    [] o.op = "declstring" -> is(o.i, Declarators) /\ (o.s = "" => h[h[o.i].t[1]].k # "fn")
    [] o.op = "flag" -> (CASE o.n = "fwd" -> is(o.i, Composables) [] o.n = "implicit" -> ty(o.i)
                           [] o.n = "body" -> is(o.i, {"decl"}) [] OTHER -> is(o.i, FunctionLike))
    [] o.op \in {"access", "attr"} -> is(o.i, FunctionLike)
    [] o.op = "repoint" -> is(o.i, {"ptr", "const"}) /\ ty(o.j) /\ o.i \notin Reach(h, o.j) /\ h[o.j].k \notin {"ref"}
                           /\ (h[o.i].k = "const" => h[o.j].k \notin {"const", "fn"})
                           /\ Referrers(h, o.i) = {}
    [] o.op = "clone" -> /\ is(o.i, Types \union Declarators \union Functions) /\ \A x \in Reach(h, o.i) : h[x].m = <<>>
                         /\ (CASE o.n = "" -> TRUE
                              [] o.n = "n" -> h[o.i].k \in {"enum", "typedef", "field", "bits", "param"} \union Composables \union Functions
                              [] o.n = "emb" -> h[o.i].k \in Composables
                              [] o.n = "v" -> h[o.i].k = "bits" \/ h[o.i].k = "field"
                              [] o.n = "k" -> h[o.i].k \in Composables /\ o.s # h[o.i].k
                              [] o.n = "x" -> h[o.i].k = "inc" /\ h[o.i].x # "union" /\ o.s # h[o.i].x
                              [] o.n = "ns" -> h[o.i].k = "decl"
                              [] o.n \in {"es", "less"} -> h[o.i].k = "enum" /\ o.v \in 1..Len(h[o.i].e)
                              [] o.n = "ev" -> h[o.i].k = "enum" /\ o.j \in 1..Len(h[o.i].e)
                              [] o.n = "rev" -> h[o.i].k = "enum" \/ Owns(h[o.i].k))
    [] o.op = "move" -> is(o.i, Types \union Declarators \union Functions) /\ Movable(h, o.i)
    [] o.op = "assign" -> /\ o.i # o.j /\ is(o.i, Types \union Declarators \union Functions) /\ is(o.j, {h[o.i].k}) /\ Movable(h, o.j)
                          /\ o.i \notin Reach(h, o.j) /\ h[o.i].m = <<>> /\ h[o.i].p = h[o.j].p
                          \* what it is part of keeps the parts it has
                          /\ \A x \in 1..Len(h[o.i].t) : Referrers(h, h[o.i].t[x]) = {o.i} \/ ~Owns(h[o.i].k)
    [] o.op \in {"cache", "look"} -> o.i \in 1..Len(h) /\ h[o.i].live
    [] OTHER -> FALSE
=============================================================================
