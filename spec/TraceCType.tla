----------------------------- MODULE TraceCType -----------------------------
(***************************************************************************)
(* Judges recorded mocks.  A line: the declaration of a function and, from  *)
(* the debug information of its compiled mock, the types of the function    *)
(* the mock defines and of its expectation functions ("none" when missing); *)
(* compiles: without diagnostics.                                           *)
(***************************************************************************)
EXTENDS TraceLines, CType
Is(got, want) == got # <<>> /\ Canon(got[1]) = want
Good(e) ==
  /\ e.exit = 0 /\ e.compiles
  /\ Is(e.mock, Canon(e.decl))
  /\ Is(e.ear, ExpectAndReturn(e.decl))
  /\ IF HasOutputs(e.decl) THEN Is(e.ero, ExpectReturnAndOutput(e.decl)) ELSE e.ero = <<>>
Want(e) == IF ~e.compiles THEN "compiles" ELSE
  IF ~Is(e.mock, Canon(e.decl)) THEN "signature" ELSE IF ~Is(e.ear, ExpectAndReturn(e.decl)) THEN "ExpectAndReturn" ELSE
  IF HasOutputs(e.decl) THEN "ExpectReturnAndOutput" ELSE "no outputs"
Init == LInit
Next == LStep(Good(Trace[l]), Want(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
