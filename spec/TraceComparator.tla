-------------------------- MODULE TraceComparator --------------------------
(***************************************************************************)
(* Judges recorded calls of generated comparators.  A line: the type, the   *)
(* leaves with the values of both objects as a compiler reads them, the     *)
(* verdict, and what the message shows.                                     *)
(***************************************************************************)
EXTENDS TraceLines, FiniteSets, Integers
C == INSTANCE Comparator
Leaf(x) == [p |-> x.p, i |-> x.i]
All(e) == {Leaf(e.leaves[j]) : j \in 1..Len(e.leaves)}
DiffIdx(e) == {j \in 1..Len(e.leaves) : e.leaves[j].cur # e.leaves[j].exp}
Match(e, j) ==
  LET x == e.leaves[j] s == C!Shown(x, C!Indexed(e.type, x.p)) IN
  /\ e.msg.p = s.p /\ e.msg.i = s.i /\ e.msg.cur = x.dcur /\ e.msg.exp = x.dexp
Good(e) ==
  /\ All(e) = C!Leaves(e.type) /\ Len(e.leaves) = Cardinality(All(e))
  /\ (e.rc = 0) = (DiffIdx(e) = {})
  /\ e.rc # 0 => (e.cut \/ \E j \in DiffIdx(e) : Match(e, j))
Init == LInit
Next == LStep(Good(Trace[l]), {e.p : e \in {Trace[l].leaves[j] : j \in DiffIdx(Trace[l])}})
Spec == Init /\ [][Next]_l
=============================================================================
