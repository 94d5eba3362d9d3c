--------------------------- MODULE TraceAttributes ---------------------------
(***************************************************************************)
(* Judges functions of generated headers.  A line: how the function was     *)
(* declared, the names asked for, the attributes the generated declaration  *)
(* has in the eyes of a compiler, and whether its type is the original one. *)
(***************************************************************************)
EXTENDS TraceLines, FiniteSets
VARIABLES hist, carries
A == INSTANCE Attributes
Got(e) == {[n |-> e.got[i].n, a |-> e.got[i].a] : i \in 1..Len(e.got)}
Good(e) == e.ok /\ e.type /\ Got(e) = A!Shown(e.h, SetOf(e.ask))
Want(e) == A!Shown(e.h, SetOf(e.ask))
Init == LInit /\ hist = <<>> /\ carries = {}
Next == LStep(Good(Trace[l]), Want(Trace[l])) /\ UNCHANGED <<hist, carries>>
Spec == Init /\ [][Next]_<<l, hist, carries>>
=============================================================================
