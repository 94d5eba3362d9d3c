--------------------------- MODULE TraceSelection ---------------------------
(***************************************************************************)
(* Judges recorded runs of the generator on headers.  A line: the histories *)
(* of all the functions of a header, the options, the functions the mock    *)
(* defines (from its symbol table), and, when given, whether the mocks of   *)
(* the functions are those made of them alone.                              *)
(***************************************************************************)
EXTENDS TraceLines, FiniteSets
VARIABLES hist, seen, barred, macro
S == INSTANCE Selection
Opt(e, n) == [types |-> e.types, incl |-> e.incl, only |-> e.only # <<>>, inonly |-> n \in SetOf(e.only), inign |-> n \in SetOf(e.ign)]
Chosen(e) == {n \in DOMAIN e.names : S!Selected(e.names[n], Opt(e, n))}
Good(e) ==
  /\ e.exit = 0
  /\ e.compiles
  /\ SetOf(e.mocked) = Chosen(e)
  /\ Len(e.mocked) = Cardinality(SetOf(e.mocked))
  /\ SetOf(e.changed) = {}
Want(e) == [missing |-> Chosen(e) \ SetOf(e.mocked), surplus |-> SetOf(e.mocked) \ Chosen(e)]
Init == LInit /\ hist = <<>> /\ seen = {} /\ barred = FALSE /\ macro = FALSE
Next == LStep(Good(Trace[l]), Want(Trace[l])) /\ UNCHANGED <<hist, seen, barred, macro>>
Spec == Init /\ [][Next]_<<l, hist, seen, barred, macro>>
=============================================================================
