---------------------------- MODULE TraceMacros ----------------------------
(* A line: the history of macros of a header (h), and the macros of their   *)
(* names that are defined after including the generated header (got).       *)
EXTENDS TraceLines, Macros
Got(e) == [n \in {e.got[i].n : i \in 1..Len(e.got)} |-> LET j == CHOOSE i \in 1..Len(e.got) : e.got[i].n = n IN e.got[j].d]
Good(e) == e.ok /\ Got(e) = Final(e.h)
Init == LInit
Next == LStep(Good(Trace[l]), IF ~Trace[l].ok THEN "compiles" ELSE ToString(Final(Trace[l].h)))
Spec == Init /\ [][Next]_l
=============================================================================
