--------------------------- MODULE TraceCString ---------------------------
(***************************************************************************)
(* Judges recorded operations on real strings: after every operation, the   *)
(* text and the length of every live string, the comparisons of the two     *)
(* strings, whether a string kept in the object stays within it; at the end *)
(* of a history, whether all memory was given back.                         *)
(***************************************************************************)
EXTENDS TraceLines, Integers
VARIABLES str, mem
S == INSTANCE CString WITH Slots <- {1, 2}, Inner <- 256
R(e) == << <<e.c, e.n>> >>
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Act(e) ==
  CASE e.op = "N" -> S!New(e.s)
    [] e.op = "I" -> S!NewInit(e.s, R(e))
    [] e.op = "A" -> S!Append2(e.s, R(e))
    [] e.op = "P" -> S!AppendOf(e.s, e.t)
    [] e.op = "F" -> S!Free(e.s)
    [] OTHER -> FALSE
View(s) == IF str'[s].st = "live" THEN [runs |-> str'[s].runs, len |-> S!Size(str'[s].runs)] ELSE [runs |-> <<>>, len |-> -1]
\* comparisons are reported for two live strings, both ways, and through both functions
Want(e) == [one |-> View(1), two |-> View(2),
            cmp |-> IF str'[1].st = "live" /\ str'[2].st = "live" THEN S!Cmp(str'[1].runs, str'[2].runs) ELSE 9]
Good(e, w) ==
  /\ e.one.runs = w.one.runs /\ e.one.len = w.one.len
  /\ e.two.runs = w.two.runs /\ e.two.len = w.two.len
  /\ e.inside
  /\ IF w.cmp = 9 THEN e.cmp = <<>> ELSE e.cmp = <<w.cmp, w.cmp, -w.cmp, -w.cmp>>
Init == LInit /\ S!CInit
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.op = "reset"
     THEN /\ LStep(e.leak = 0, "all the memory given back") /\ str' = [s \in {1, 2} |-> [st |-> "none", runs |-> <<>>]] /\ mem' = [s \in {1, 2} |-> S!Fresh]
     ELSE IF e.op = "auto"
     THEN LStep(e.runs = S!Norm(R(e) \o R(e)) /\ e.len = 2 * e.n /\ e.leak = 0, "auto") /\ UNCHANGED <<str, mem>>
     ELSE Act(e) /\ LStep(Good(e, Want(e)), Want(e))
Spec == Init /\ [][Next]_<<l, str, mem>>
=============================================================================
