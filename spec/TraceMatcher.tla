--------------------------- MODULE TraceMatcher ---------------------------
(***************************************************************************)
(* Judges recorded calls of the built-in matchers.  Strings are compared as *)
(* sequences of runs by the specification of the strings.                   *)
(***************************************************************************)
EXTENDS TraceLines, Integers
VARIABLES type, form, cur, exp
M == INSTANCE Matcher
Same(e) == IF e.type = "str" THEN e.cur = e.exp ELSE M!Equal(e.type, SetOf(e.cur), SetOf(e.exp))
\* msg: what the message of a mismatch shows: the name of the parameter, then the actual, then the expected value
Good(e) ==
  /\ (e.rc = 0) = Same(e)
  /\ e.fits
  /\ e.rc # 0 => e.shows
Init == LInit /\ type = "" /\ form = "" /\ cur = {} /\ exp = {}
Next == LStep(Good(Trace[l]), [equal |-> Same(Trace[l])]) /\ UNCHANGED <<type, form, cur, exp>>
Spec == Init /\ [][Next]_<<l, type, form, cur, exp>>
=============================================================================
