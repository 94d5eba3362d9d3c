---------------------------- MODULE MCTypeModel ----------------------------
(***************************************************************************)
(* Programs over the type model.  Twins: from a heap with an object of      *)
(* every sort, every object is copied and every single change is made to    *)
(* every part of the copy.  Walks: long random programs.                    *)
(***************************************************************************)
EXTENDS TypeModel, TypeModelBase, Json
CONSTANTS Depth, Walk
VARIABLES heap, hist
vars == <<heap, hist>>

\* ------------------------------------------------------------------ every single change of an object
Changes(h, i) ==
  {[Op("addvalue") EXCEPT !.i = i, !.v = 7, !.s = "V7"], [Op("addvalue") EXCEPT !.i = i, !.v = 2, !.s = "TWO"]}
  \union {[Op("unsigned") EXCEPT !.i = i, !.b = b] : b \in BOOLEAN}
  \union {[Op("array") EXCEPT !.i = i, !.v = v] : v \in {0, 1, 3, 4, 259}}
  \union {[Op("declstring") EXCEPT !.i = i, !.s = s] : s \in {"", "zz", "int"}}
  \union {[Op("flag") EXCEPT !.i = i, !.n = f, !.b = b] : f \in {"fwd", "implicit", "variadic", "inline", "static", "cconst", "body"}, b \in BOOLEAN}
  \union {[Op("access") EXCEPT !.i = i, !.s = s] : s \in {"na", "public", "protected", "private"}}
  \union {[Op("attr") EXCEPT !.i = i, !.n = a.n, !.w = a.w] : a \in {[n |-> "cold", w |-> <<>>], [n |-> "format", w |-> <<"1", "2">>], [n |-> "format", w |-> <<"2", "1">>]}}
Edits(h, i) ==
  {[Op("clone") EXCEPT !.i = i]}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "n", !.s = s] : s \in {"", "a", "b", "S"}}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "emb"]}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "rev"]}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "es", !.v = v, !.s = s] : v \in 1..3, s \in {"ONE", "V7"}}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "ev", !.j = j, !.v = v] : j \in 1..3, v \in {2, 7}}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "less", !.v = v] : v \in 1..3}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "v", !.v = v] : v \in {0, 1, 3, 9}}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "k", !.s = s] : s \in Composables}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "x", !.s = s] : s \in {"struct", "class"}}
  \union {[Op("clone") EXCEPT !.i = i, !.n = "ns", !.w = w] : w \in {<<>>, <<"A">>, <<"B">>, <<"A", "B">>, <<"B", "A">>}}
Structural(h, i) ==
  {[Op("repoint") EXCEPT !.i = i, !.j = j] : j \in 1..Len(h)}
  \union {[Op("addfield") EXCEPT !.i = i, !.j = j] : j \in 1..Len(h)}
  \union {[Op("assign") EXCEPT !.i = i, !.j = j] : j \in 1..Len(h)}
Wraps(h, i) ==
  {[Op(k) EXCEPT !.i = i] : k \in {"ptr", "ref", "const", "ret", "move"}}
  \union {[Op(k) EXCEPT !.i = i, !.n = n] : k \in {"typedef", "param"}, n \in {"a", "b"}}
  \union {[Op("field") EXCEPT !.i = i, !.n = n, !.v = v] : n \in {"", "a"}, v \in {-1, 0, 2}}
  \union {[Op("bits") EXCEPT !.i = i, !.n = n, !.v = v] : n \in {"", "a"}, v \in {1, 3}}
  \union {[Op("inc") EXCEPT !.i = i, !.s = s] : s \in Composables}
Ok(h, os) == {o \in os : CanDo(h, o)}

\* ------------------------------------------------------------------ twins
\* with how many objects there are afterwards
Step(o) == heap' = Do(heap, o) /\ hist' = Append(hist, o @@ [top |-> Len(heap')])
TwinNext ==
  \/ Len(hist) = 0 /\ \E i \in 1..Len(heap) : \E o \in Ok(heap, Edits(heap, i) \union Wraps(heap, i)) : Step(o)
  \/ /\ Len(hist) = 1 /\ Depth > 1
     /\ \E i \in Reach(heap, Len(heap)) : i > Len(BaseHeap)
           /\ \E o \in Ok(heap, Changes(heap, i) \union Structural(heap, i)) : Step(o)
  \* the next change is of what the first change changed, or of the whole
  \/ /\ Len(hist) = 2 /\ Depth > 2
     /\ \E i \in {hist[2].i, Len(heap)} : \E o \in Ok(heap, Changes(heap, i)) : Step(o)

\* ------------------------------------------------------------------ walks
Kinds1 == <<"ctype", "ctype", "enum", "rec", "rec", "inc", "wrap", "wrap", "wrap", "wrap", "part", "part", "part", "function", "function",
            "clone", "clone", "clone", "change", "change", "change", "change", "struct", "struct", "move", "assign", "cache", "cache">>
OpsOf(h, k) ==
  LET all == 1..Len(h)
      free(ks) == {i \in all : Free(h, i) /\ h[i].k \in ks}
      seqs == {<<r>> \o ps : r \in free({"ret"}), ps \in UNION {[1..n -> free({"param"})] : n \in 0..2}}
  IN
  CASE k = "ctype" -> {[Op("ctype") EXCEPT !.n = n] : n \in CTypes}
    [] k = "enum" -> {[Op("enum") EXCEPT !.n = n] : n \in {"a", "b", ""}}
    [] k = "rec" -> {[Op("rec") EXCEPT !.s = s, !.n = n, !.b = b] : s \in Composables, n \in {"a", "b", ""}, b \in BOOLEAN}
    [] k = "inc" -> {[Op("inc") EXCEPT !.i = i, !.s = s] : i \in all, s \in Composables}
    [] k = "wrap" -> {[Op(w) EXCEPT !.i = i, !.n = "a"] : w \in {"ptr", "ref", "const", "typedef"}, i \in all}
    [] k = "part" -> {[Op(w) EXCEPT !.i = i, !.n = n, !.v = IF w = "bits" THEN 3 ELSE -1] : w \in Declarators \ {"ret"}, i \in all, n \in {"a", "b"}}
                     \union {[Op("ret") EXCEPT !.i = i] : i \in all}
    [] k = "function" -> {[Op(w) EXCEPT !.l = l, !.n = IF w = "fn" THEN "" ELSE "f"] : w \in FunctionLike, l \in seqs}
                         \union {[Op("decl") EXCEPT !.l = l, !.n = "f", !.j = j] : l \in seqs, j \in free({"class"})}
    [] k = "clone" -> UNION {Edits(h, i) : i \in all}
    [] k = "change" -> UNION {Changes(h, i) : i \in all}
    [] k = "struct" -> {[Op(w) EXCEPT !.i = i, !.j = j] : w \in {"addfield", "repoint", "addmethod"}, i \in all, j \in all}
    [] k = "move" -> {[Op("move") EXCEPT !.i = i] : i \in all}
    [] k = "assign" -> {[Op("assign") EXCEPT !.i = i, !.j = j] : i \in all, j \in all}
    [] k = "cache" -> {[Op("cache") EXCEPT !.i = i] : i \in all}
Pick(h) ==
  LET k == Kinds1[RandomElement(1..Len(Kinds1))]
      c == Ok(h, OpsOf(h, k))
  IN IF c = {} \/ Len(h) > 60 THEN [Op("ctype") EXCEPT !.n = "int"] ELSE RandomElement(c)
WalkNext == Len(hist) < Depth /\ \E o \in {Pick(heap)} : Step(o)

Init == hist = <<>> /\ heap = IF Walk THEN <<>> ELSE BaseHeap
Next == IF Walk THEN WalkNext ELSE TwinNext
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ what holds in the model itself
Live == {i \in 1..Len(heap) : heap[i].live}
Say(p) == PrintT("PROG " \o ToJson([ops |-> p, live |-> Live]))
Emit == IF Walk THEN (Len(hist) = Depth => Say(hist)) ELSE (Len(hist) > 0 => Say(hist))
EmitBase == PrintT("BASE " \o ToJson(BaseOps))
ASSUME EmitBase
\* a copy describes the same thing, a moved object does as well
CopyIsEqual ==
  Len(hist) = 1 /\ hist[1].op = "clone" /\ hist[1].n = "" => Equal(heap, hist[1].i, Len(heap))
MoveKeeps == Len(hist) = 1 /\ hist[1].op = "move" => Term(heap, Len(heap)) = Term(BaseHeap, hist[1].i)
\* what is part of something is there
Closed == \A i \in Live : \A j \in Reach(heap, i) : heap[j].live
OneOwner == \A i \in Live : Owns(heap[i].k) => \A x, y \in 1..Len(heap[i].t) : heap[heap[i].t[x]].o = i /\ (heap[i].t[x] = heap[i].t[y] => x = y)
\* adding a qualifier, a pointer or a name, and taking it away again, gives the object back
Stripping == \A i \in Live :
  /\ (heap[i].k \in Types => Raw(heap, i) \in Reach(heap, i) /\ heap[Raw(heap, i)].k \notin {"ptr", "ref", "const", "typedef"})
  /\ (heap[i].k \in Types => heap[Unqualify(heap, i)].k # "const")
=============================================================================
