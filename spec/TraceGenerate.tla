--------------------------- MODULE TraceGenerate ---------------------------
(***************************************************************************)
(* Judges recorded runs of the real EasyMockGenerate.  Every run starts    *)
(* from a situation described in the line (the world of Generate.tla) and  *)
(* carries digests of what the two targets hold afterwards.  The content   *)
(* that belongs to a header and an option set is learned from the first    *)
(* run that had to succeed (which was compiled: complete) and has to be    *)
(* the same ever after.                                                    *)
(***************************************************************************)
EXTENDS TraceLines
VARIABLE known

Blocked == {"isdir", "full"}
Key(e) == e.key
MustSucceed(e) ==
  /\ e.hdr \notin {"missing", "dir", "dangling"}
  /\ (e.parses \/ e.ign)
  /\ e.out = "ok"
  /\ e.c \notin Blocked /\ e.h \notin Blocked
  /\ ~e.short

Good(e) ==
  /\ e.hdrsame
  /\ IF MustSucceed(e)
     THEN /\ e.exit = 0
          /\ e.ccont # "" /\ e.hcont # ""
          /\ e.complete
          /\ e.others = <<>>
          /\ Key(e) \in DOMAIN known => known[Key(e)] = <<e.ccont, e.hcont>>
     ELSE e.exit # 0 /\ e.diag /\ e.others = <<>>
Want(e) == [succeed |-> MustSucceed(e), known |-> IF Key(e) \in DOMAIN known THEN known[Key(e)] ELSE <<>>]

Init == LInit /\ known = [k \in {} |-> <<>>]
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
       /\ LStep(Good(e), Want(e))
       /\ known' = IF MustSucceed(e) /\ Key(e) \notin DOMAIN known THEN known @@ (Key(e) :> <<e.ccont, e.hcont>>) ELSE known
Spec == Init /\ [][Next]_<<l, known>>
=============================================================================
