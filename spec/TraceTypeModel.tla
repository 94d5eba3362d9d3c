--------------------------- MODULE TraceTypeModel ---------------------------
(***************************************************************************)
(* Judges recorded programs over the type model: what the objects say about *)
(* themselves, which ones are equal, and their hashes, from first to last.  *)
(***************************************************************************)
EXTENDS TraceLines, TypeModelBase
\* ct: for every object, the descriptions it has a hash of; memo: the hashes seen, per category
VARIABLES heap, ct, memo
tvars == <<l, heap, ct, memo>>
Members(s) == {s[i] : i \in 1..Len(s)}
Id(h, i) == IF h[i].live THEN i ELSE -1
RECURSIVE SlashJoin(_, _)
SlashJoin(s, ps) == IF ps = <<>> THEN s ELSE SlashJoin(s \o "/" \o Head(ps), Tail(ps))
Flags(c) == (c.f \intersect {"variadic", "inline", "static", "cconst"}) \union SetStr(c.p # 0, "member") \union {c.x}
\* what object i says
Says(h, i) ==
  LET c == h[i] IN
  CASE c.k \in Types ->
       [kinds |-> Kinds(h, i) \union (c.f \intersect {"emb", "fwd"}) \union (IF c.k = "fn" THEN Flags(c) ELSE {}),
        name |-> IF c.k \in {"ptr", "ref", "const", "fn"} THEN "" ELSE c.n,
        text |-> Prefix(h, i), post |-> IF c.k = "fn" THEN Postfix(h, i) ELSE "", ct |-> IF c.k = "ctype" THEN c.n ELSE "",
        ids |-> <<Raw(h, i), Unqualify(h, i), IF c.k \in {"ptr", "ref", "const"} THEN c.t[1] ELSE 0,
                  IF c.k \in {"ptr", "ref"} THEN MostPointed(h, i) ELSE 0,
                  IF c.k = "typedef" THEN c.t[1] ELSE 0, IF c.k = "typedef" THEN MostDefined(h, i) ELSE 0>>,
        vals |-> IF c.k = "enum" THEN [x \in 1..Len(c.e) |-> c.e[x].s \o "=" \o ToString(c.e[x].v)]
                 ELSE IF c.k = "fn" THEN [x \in 1..Len(c.a) |-> SlashJoin(c.a[x].n, c.a[x].p)] ELSE <<>>,
        v |-> -1, n |-> IF c.k \in Composables THEN Len(c.t) ELSE IF c.k = "fn" THEN Len(c.t) - 1 ELSE -1, bad |-> 0]
    [] c.k \in Declarators ->
       [kinds |-> SetStr(c.k \in {"field", "bits"} /\ c.n = "", "anonymous") \union (SetStr(c.k = "field", "field"))
                  \union SetStr(c.k = "bits", "bits") \union SetStr(c.k = "field" /\ c.v >= 0, "array") \union SetStr(c.k = "field" /\ c.v > 0, "bound")
                  \union SetStr(c.k = "field" /\ c.v = 0, "unbound") \union SetStr(c.k = "field" /\ h[c.t[1]].k = "inc", "incfield"),
        name |-> IF c.k = "ret" THEN "" ELSE c.n, text |-> DeclString(h, i), post |-> "", ct |-> "", ids |-> c.t, vals |-> <<>>,
        v |-> c.v, n |-> -1, bad |-> 0]
    [] OTHER ->
       [kinds |-> Flags(c) \union (c.f \intersect {"body"}), name |-> c.n, text |-> Proto(h, i), post |-> "", ct |-> "", ids |-> <<>>,
        vals |-> [x \in 1..Len(c.a) |-> SlashJoin(c.a[x].n, c.a[x].p)], v |-> -1, n |-> Len(c.t) - 1, bad |-> 0]
Said(d) == [d EXCEPT !.kinds = Members(d.kinds)]

Comparable(h, i) == {j \in 1..Len(h) : h[j].live /\ Category(h[j].k) = Category(h[i].k)}
EqualTo(h, i) == LET t == Term(h, i) IN {j \in Comparable(h, i) : Term(h, j) = t}
\* the hash of an object that was changed after it was cached isn't known
Fresh(h, c, i) == \A j \in Reach(h, i) : c[j] = {} \/ c[j] = {HTerm(h, j)}
HashGood(h, c, m, i, x) ==
  Fresh(h, c, i) => LET t == HTerm(h, i) IN \A r \in m : r.c = Category(h[i].k) => (r.t = t <=> r.x = x)

LookGood(e) ==
  LET i == e.o.i IN
  /\ Said(e.d) = Says(heap, i)
  /\ Members(e.cand) = Comparable(heap, i)
  /\ LET q == EqualTo(heap, i) IN Members(e.eq) = q /\ Members(e.rev) = q /\ Members(e.ne) = Comparable(heap, i) \ q
  /\ HashGood(heap, ct, memo, i, e.h)
Good(e) ==
  CASE e.o.op = "look" -> LookGood(e)
    [] e.o.op = "unsigned" -> (e.ret = 1) = CanSetUnsigned(heap[e.o.i], e.o.b)
    [] e.o.op = "array" -> e.ret = 1
    [] OTHER -> e.ret = 0
Want(e) ==
  IF e.o.op # "look" THEN [says |-> "another result"] ELSE
  LET i == e.o.i IN
  IF Said(e.d) # Says(heap, i) THEN [says |-> Says(heap, i)]
  ELSE IF ~HashGood(heap, ct, memo, i, e.h) THEN [says |-> "another hash", of |-> Says(heap, i),
        like |-> {r.i : r \in {r \in memo : r.c = Category(heap[i].k) /\ (r.t = HTerm(heap, i)) # (r.x = e.h)}}]
  ELSE [says |-> Says(heap, i), equal |-> EqualTo(heap, i)]

HeapAfter(e) == IF e.o.op = "base" THEN BaseHeap ELSE IF e.o.op = "reset" THEN <<>> ELSE Do(heap, e.o)
CacheAfter(e, h) ==
  LET grown == [x \in 1..Len(h) |-> IF x <= Len(ct) THEN ct[x] ELSE {}] IN
  CASE e.o.op \in {"base", "reset"} -> [x \in 1..Len(h) |-> {}]
    [] e.o.op = "move" -> [grown EXCEPT ![Len(h)] = ct[e.o.i]]
    [] e.o.op = "assign" -> [grown EXCEPT ![e.o.i] = ct[e.o.j]]
    [] e.o.op = "cache" -> [x \in 1..Len(h) |-> IF x \in Reach(h, e.o.i) THEN {HTerm(h, x)} ELSE grown[x]]
    [] OTHER -> grown
MemoAfter(e) ==
  CASE e.o.op \in {"base", "reset"} -> {}
    [] e.o.op = "look" -> IF Fresh(heap, ct, e.o.i) THEN memo \union {[c |-> Category(heap[e.o.i].k), t |-> HTerm(heap, e.o.i), x |-> e.h, i |-> e.o.i]} ELSE memo
    [] OTHER -> memo
Possible(e) == e.o.op \in {"base", "reset"} \/ CanDo(heap, e.o)
Init == LInit /\ heap = <<>> /\ ct = <<>> /\ memo = {}
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         h == HeapAfter(e)
     IN /\ Assert(Possible(e), <<"not an operation of the model", l, e.o>>)
        /\ LStep(Good(e) /\ e.top = Len(h), Want(e))
        /\ heap' = h /\ ct' = CacheAfter(e, h) /\ memo' = MemoAfter(e)
Spec == Init /\ [][Next]_tvars
=============================================================================
