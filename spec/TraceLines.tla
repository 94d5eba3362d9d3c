----------------------------- MODULE TraceLines -----------------------------
(* A trace is a file of JSON lines, named by the environment variable TRACE. *)
(* Lines are judged one after the other; deviations are printed, and the     *)
(* whole trace is always read.                                               *)
EXTENDS Json, IOUtils, TLC, Naturals, Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Say(tag, r) == PrintT(tag \o " " \o ToJson(r))
CONSTANT Dummy
VARIABLE l
LInit == l = 1
\* want: what the specification says, for the report
LStep(good, want) ==
  /\ l <= Len(Trace)
  /\ IF good THEN TRUE ELSE Say("MISMATCH", [line |-> l, want |-> want])
  /\ l' = l + 1
Report == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
