---------------------------- MODULE TraceEasyMock ----------------------------
(***************************************************************************)
(* Conformance: steps the actions of EasyMock.tla through a trace recorded *)
(* from real generated mocks linked with the real framework.  The first    *)
(* line describes the functions; every other line is one call of the API   *)
(* with what its caller observed.  The specification is deterministic, so  *)
(* after each step the recorded observation is compared with obs', as far  *)
(* as the property under check is concerned (Conf).  Deviations are        *)
(* reported with their line; the whole trace is always read.               *)
(***************************************************************************)
EXTENDS EasyMock, Json, IOUtils

CONSTANTS Prop

Raw   == ndJsonDeserialize(IOEnv.TRACE)
Hdr   == Raw[1]
Trace == SubSeq(Raw, 2, Len(Raw))
TFns  == {Hdr.fns[i].name : i \in 1..Len(Hdr.fns)}
TMeta == [x \in TFns |-> (CHOOSE i \in 1..Len(Hdr.fns) : Hdr.fns[i].name = x) ]
TMetaRec == [x \in TFns |-> Hdr.fns[TMeta[x]]]
TStart == {Hdr.loaded[i] : i \in 1..Len(Hdr.loaded)}
TCap  == Hdr.cap

VARIABLES
  l,     \* next line
  oerr,  \* errors observed since the last init
  dirty, \* has an unexpected call happened since the last init
  stk    \* may messages have call stacks behind them
tvars == <<vars, l, oerr, dirty, stk>>

Ev == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ Ev.op = op

KindOf(s, K) == SelectSeq(s, LAMBDA x : x.k \in K)
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* errors of one call: matcher errors in parameter order, the others in any order
SameErrs(a, b) ==
  /\ Len(a) = Len(b)
  /\ KindOf(a, {"match"}) = KindOf(b, {"match"})
  /\ \A k \in {"unexpected", "inst", "order", "count"} : SetOf(KindOf(a, {k})) = SetOf(KindOf(b, {k}))
  /\ \A x \in SetOf(a) : x.k \in {"match", "unexpected", "inst", "order", "count"}

SameCall(e, o) == e.ret = o.ret /\ e.mlog = o.mlog /\ e.outs = o.outs /\ SameErrs(e.new, o.new)
Full(e, o) ==
  CASE e.op = "call"  -> SameCall(e, o)
    [] e.op = "burst" -> SameCall(e, o) /\ e.n = o.n
    [] e.op = "check" -> e.ret = o.ret /\ SameErrs(e.new, o.new)
    [] e.op = "errs"  -> o.arr = oerr /\ o.size = Len(oerr) /\ o.null = (oerr = <<>>) /\ o.strok
    [] OTHER          -> SameErrs(e.new, o.new)

OkVerdict(e, o) ==
  e.op = "check" =>
    /\ SameErrs(KindOf(e.new, {"count"}), KindOf(o.new, {"count"}))
    /\ Len(o.new) = Len(KindOf(o.new, {"count"}))
    /\ o.ret = IF oerr = <<>> /\ e.new = <<>> THEN 1 ELSE 0

\* was the call just replayed one that had an expectation
WasExpected(e) == e.op = "call" /\ (\A i \in 1..Len(e.new) : e.new[i].k # "unexpected")

\* The part of an observation each property speaks about
Conf(e, o) ==
  CASE Prop = "ALL" -> Full(e, o)
    [] Prop = "C01" -> OkVerdict(e, o)
    [] Prop = "C02" -> WasExpected(e) => e.ret = o.ret
    [] Prop = "C03" ->
         CASE e.op = "call" /\ ~WasExpected(e) -> SameCall(e, o)
           [] e.op = "burst" -> Full(e, o)
           [] e.op = "call" /\ WasExpected(e)  ->
                /\ KindOf(o.new, {"unexpected"}) = <<>>
                /\ dirty => SameCall(e, o)
           [] e.op = "check" -> dirty => o.ret = 0
           [] OTHER -> TRUE
    [] Prop = "C04" ->
         WasExpected(e) =>
           /\ e.mlog = o.mlog
           /\ KindOf(e.new, {"match"}) = KindOf(o.new, {"match"})
           /\ \A x \in SetOf(o.new) : x.k \in {"match", "unexpected", "inst", "order", "count"}
           /\ KindOf(e.new, {"match"}) # <<>> => e.ret = o.ret /\ e.outs = o.outs
    [] Prop = "C05" ->
         WasExpected(e) =>
           /\ KindOf(e.new, {"order"}) = KindOf(o.new, {"order"})
           /\ \A x \in SetOf(o.new) : x.k \in {"match", "unexpected", "inst", "order", "count"}
           /\ KindOf(e.new, {"order"}) # <<>> => e.ret = o.ret /\ e.outs = o.outs
    [] Prop = "C08" -> IF e.op \in {"errs", "burst"} THEN Full(e, o) ELSE SameErrs(e.new, o.new)
    [] Prop = "C09" -> e.op = "call" => e.outs = o.outs
    [] OTHER -> Full(e, o)     \* C06 C07 C10 C12: any difference

Sample(e) == e   \* named so that a counterexample print is readable

Step(A) ==
  /\ A
  /\ l' = l + 1
  /\ oerr' = IF Ev.op = "init" THEN <<>> ELSE IF Ev.op = "burst" THEN oerr \o Times(Ev.obs.n, Ev.obs.new[1])
             ELSE oerr \o Ev.obs.new
  /\ dirty' = IF Ev.op = "init" THEN FALSE
              ELSE dirty \/ obs'.op = "burst" \/ (obs'.op = "call" /\ ~WasExpected(obs'))
  /\ stk' = IF Ev.op = "stack" THEN Ev.b ELSE stk
  /\ IF Conf(obs', Ev.obs) /\ (Prop \in {"ALL", "C08"} /\ Ev.obs.tails > 0 => stk) THEN TRUE
     ELSE PrintT("MISMATCH " \o ToJson([line |-> l, want |-> obs', got |-> Ev.obs, op |-> Ev.op]))

TInit ==
  /\ RInit
  /\ order = FALSE
  /\ l = 1
  /\ oerr = <<>>
  /\ dirty = FALSE
  /\ stk = FALSE

\* check: the errors it adds are judged by Conf, so the specification continues
\* with its own (canonical) enumeration of them
RECURSIVE EnumOf(_)
EnumOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o EnumOf(S \ {x})

\* a new process starts (a trace holds several histories); loaded files as given
StartProcess ==
  /\ loaded' = SetOf(Ev.loaded)
  /\ exps' = [f \in Fns |-> <<>>]
  /\ acts' = [f \in Fns |-> 0]
  /\ fifo' = <<>>
  /\ errs' = <<>>
  /\ order' = FALSE
  /\ outc' = <<>>
  /\ halted' = FALSE
  /\ obs' = NoObs
  /\ l' = l + 1
  /\ oerr' = <<>>
  /\ dirty' = FALSE
  /\ stk' = FALSE

TNext ==
  \/ IsEvent("start")    /\ StartProcess
  \/ IsEvent("init")     /\ Step(InitFramework)
  \/ IsEvent("expect")   /\ Step(Expect(Ev.f, Ev.e))
  \/ IsEvent("overflow") /\ Step(Overflow(Ev.f))
  \/ IsEvent("call")     /\ Step(Call(Ev.f, Ev.arg, Ev.inst))
  \/ IsEvent("burst")    /\ Step(SurplusCalls(Ev.f, Ev.n))
  \/ IsEvent("check")    /\ Step(Check(EnumOf(CountErrors)))
  \/ IsEvent("errs")     /\ Step(GetErrors)
  \/ IsEvent("order")    /\ Step(SetOrder(Ev.b))
  \/ IsEvent("stack")    /\ Step(SetStack(Ev.b))
  \/ IsEvent("mut")      /\ Step(Mutate(Ev.f, Ev.p, Ev.i, Ev.c))
  \/ IsEvent("load")     /\ Step(Load(Ev.x))
  \/ IsEvent("unload")   /\ Step(Unload(Ev.x))

TSpec == TInit /\ [][TNext]_tvars

\* every line was consumed (a line that no action accepts stops the trace)
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
Report == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
=============================================================================
