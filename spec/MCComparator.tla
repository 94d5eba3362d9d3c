---------------------------- MODULE MCComparator ----------------------------
(* Every record of one composite member with at most one value next to it,  *)
(* and every pair of values, as a type to generate; the reference algorithm *)
(* is checked on every set of differing leaves.                             *)
EXTENDS Comparator, Json
VARIABLES ty, diff
None == [u |-> FALSE, ms |-> <<>>]
Plain(k, n) == [k |-> k, n |-> n, c |-> IF k = "sarr" THEN 2 ELSE 0, r |-> None]
Kinds == {"scalar", "bits", "ptr", "sarr", "pad"}
Named(ms) == \E j \in 1..Len(ms) : ms[j].k # "pad"
Seqs(a, b) == {<<x>> : x \in a} \union {<<x, y>> : x \in a, y \in b}
Inner == {[u |-> u, ms |-> ms] : u \in BOOLEAN, ms \in {s \in Seqs({Plain(k, "a") : k \in Kinds}, {Plain(k, "b") : k \in Kinds}) : Named(s)}}
Comp(n) == {[k |-> k, n |-> n, c |-> IF k = "rarr" THEN 2 ELSE 0, r |-> r] : k \in {"rec", "inl", "anon", "rarr"}, r \in Inner}
P(n) == {Plain(k, n) : k \in Kinds}
Outer == {[u |-> u, ms |-> ms] : u \in BOOLEAN, ms \in Seqs(Comp("m"), P("z")) \union {<<x, y>> : x \in P("z"), y \in Comp("m")}}
Init == ty \in (Inner \union Outer) /\ diff \in {{x} : x \in Leaves(ty)} \union {{}, Leaves(ty)}
Next == UNCHANGED <<ty, diff>>
Spec == Init /\ [][Next]_<<ty, diff>>
OrderIsAll == {Order(ty)[j] : j \in 1..Len(Order(ty))} = Leaves(ty) /\ Len(Order(ty)) = Cardinality(Leaves(ty))
FindsOne == IF diff = {} THEN FirstDiff(ty, diff) = <<>> ELSE FirstDiff(ty, diff) # <<>> /\ FirstDiff(ty, diff)[1] \in diff
EmitTypes == diff # {} \/ PrintT("TYPE " \o ToJson(ty))
=============================================================================
