------------------------------- MODULE EasyMock -------------------------------
(***************************************************************************)
(* The runtime of EasyMock: the framework library together with the code   *)
(* EasyMockGenerate emits for every mocked function.  One action per entry *)
(* point of the public API (init, check, error retrieval, the settings),   *)
(* of the generated API (the ExpectAndReturn and ExpectReturnAndOutput families, the  *)
(* mocked function itself) and of the loader (a mock file is loaded or     *)
(* unloaded).  The library is sequential, so every public call is one      *)
(* atomic action whose linearization point is its return.                  *)
(*                                                                         *)
(* Values are abstract tokens (small integers, 0 = the zero value of the   *)
(* type): the harness maps them to and from concrete values of the C type  *)
(* of each parameter or return value.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Fns,      \* the mocked functions (names)
  Meta,     \* [Fns -> [file: STRING, np: Nat, void: BOOLEAN,
            \*          out: Seq({"none","sized","raw"}), capped: BOOLEAN]]
  Cap,      \* how many expectations a capped function accepts between two inits
  StartLoaded \* the mock files loaded when the program starts

VARIABLES
  loaded,   \* set of mock files registered with the framework
  exps,     \* [Fns -> Seq(expectation)] in the order they were recorded
  acts,     \* [Fns -> Nat] number of calls received
  fifo,     \* Seq(Fns): the global order of the expectations not yet consumed
  errs,     \* Seq(error) since the last init
  order,    \* is the order of calls checked
  outc,     \* contents of output objects that were modified: <<f,p,i>> :> content
  halted,   \* the process has been stopped (capacity exceeded)
  obs       \* what the last action let its caller observe

vars == <<loaded, exps, acts, fifo, errs, order, outc, halted, obs>>

(***************************************************************************)
(* Errors.  All have the same fields so that they can be compared.         *)
(***************************************************************************)
Err(k, f, a, b, m) == [k |-> k, f |-> f, a |-> a, b |-> b, m |-> m]
Unexpected(f)      == Err("unexpected", f, 0, 0, "")
Mismatch(f, n, m)  == Err("match", f, n, 0, m)
WrongObject(f, n)  == Err("inst", f, n, 0, "")
OutOfOrder(f, g)   == Err("order", f, 0, 0, g)
BadCount(f, e, a)  == Err("count", f, e, a, "")

(***************************************************************************)
(* Matchers.  An expectation carries one mode per parameter:               *)
(*  0 null            1 accepts             2 rejects, message "M<p>"      *)
(*  3 rejects with a negative result, message "N<p>"                       *)
(*  4 accepts but leaves text in the buffer                                *)
(*  5 rejects without a message             6 rejects, longest message     *)
(***************************************************************************)
Rejects(mode) == mode \in {2, 3, 5, 6}
MsgOf(mode, p) == CASE mode = 2 -> "M" \o ToString(p)
                    [] mode = 3 -> "N" \o ToString(p)
                    [] mode = 5 -> ""
                    [] mode = 6 -> "LONG" \o ToString(p)
                    [] OTHER -> ""

FnsOf(file) == {f \in Fns : Meta[f].file = file}
LoadedFns   == {f \in Fns : Meta[f].file \in loaded}

Untouched == -1
NoOuts(f) == [p \in 1..Meta[f].np |-> Untouched]

OutContent(f, p, i) == IF <<f, p, i>> \in DOMAIN outc THEN outc[<<f, p, i>>] ELSE i

\* What the caller's memory behind parameter p holds after the call, when the
\* expectation gives output object i (Untouched = null pointer) with size n.
OutVal(f, p, i, n) ==
  CASE Meta[f].out[p] = "none" -> Untouched
    [] i = Untouched           -> Untouched
    [] Meta[f].out[p] = "sized" -> OutContent(f, p, i)
    [] Meta[f].out[p] = "raw"   -> IF n = 0 THEN Untouched
                                   ELSE OutContent(f, p, i) * 1000000 + n

NoErr == <<>>
NoObs == [op |-> "none", new |-> <<>>]

(***************************************************************************)
(* Initial state of a process                                              *)
(***************************************************************************)
RInit ==
  /\ loaded = StartLoaded
  /\ exps = [f \in Fns |-> <<>>]
  /\ acts = [f \in Fns |-> 0]
  /\ fifo = <<>>
  /\ errs = <<>>
  /\ order \in {TRUE, FALSE}      \* callers set it explicitly
  /\ outc = <<>>
  /\ halted = FALSE
  /\ obs = NoObs

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
\* easyMock_init()
InitFramework ==
  /\ ~halted
  /\ exps' = [f \in Fns |-> IF f \in LoadedFns THEN <<>> ELSE exps[f]]
  /\ acts' = [f \in Fns |-> IF f \in LoadedFns THEN 0 ELSE acts[f]]
  /\ fifo' = <<>>
  /\ errs' = <<>>
  /\ obs' = [op |-> "init", new |-> <<>>]
  /\ UNCHANGED <<loaded, order, outc, halted>>

\* f_ExpectAndReturn / f_ExpectReturnAndOutput with a free slot
\* e = [ret, par, mat, out, osz, inst]
HasRoom(f) == ~Meta[f].capped \/ Len(exps[f]) < Cap

Expect(f, e) ==
  /\ ~halted
  /\ f \in LoadedFns
  /\ HasRoom(f)
  /\ exps' = [exps EXCEPT ![f] = Append(@, e)]
  /\ fifo' = Append(fifo, f)
  /\ obs' = [op |-> "expect", new |-> <<>>]
  /\ UNCHANGED <<loaded, acts, errs, order, outc, halted>>

\* one expectation too many: the process stops, nothing is overwritten
Overflow(f) ==
  /\ ~halted
  /\ f \in LoadedFns
  /\ ~HasRoom(f)
  /\ halted' = TRUE
  /\ obs' = [op |-> "overflow", new |-> <<>>]
  /\ UNCHANGED <<loaded, exps, acts, fifo, errs, order, outc>>

\* the matchers that run, in parameter order
MatchedParams(f, e) == SelectSeq([p \in 1..Meta[f].np |-> p], LAMBDA p : e.mat[p] # 0)

CallUnexpected(f) ==
  LET new == <<Unexpected(f)>> IN
  /\ acts' = [acts EXCEPT ![f] = @ + 1]
  /\ errs' = errs \o new
  /\ obs' = [op |-> "call", ret |-> 0, mlog |-> <<>>, outs |-> NoOuts(f), new |-> new]
  /\ UNCHANGED <<loaded, exps, fifo, order, outc, halted>>

CallSatisfied(f, arg, inst) ==
  LET k     == acts[f] + 1
      e     == exps[f][k]
      mp    == MatchedParams(f, e)
      mlog  == [i \in 1..Len(mp) |-> [p |-> mp[i], cur |-> arg[mp[i]], exp |-> e.par[mp[i]]]]
      bad   == SelectSeq(mp, LAMBDA p : Rejects(e.mat[p]))
      merr  == [i \in 1..Len(bad) |-> Mismatch(f, k, MsgOf(e.mat[bad[i]], bad[i]))]
      ierr  == IF e.inst # 0 /\ e.inst # inst THEN <<WrongObject(f, k)>> ELSE NoErr
      wrong == order /\ Head(fifo) # f
      oerr  == IF wrong THEN <<OutOfOrder(f, Head(fifo))>> ELSE NoErr
      new   == ierr \o merr \o oerr
      outs  == IF wrong THEN NoOuts(f)
               ELSE [p \in 1..Meta[f].np |-> OutVal(f, p, e.out[p], e.osz[p])]
  IN
  /\ acts' = [acts EXCEPT ![f] = k]
  /\ fifo' = Tail(fifo)
  /\ errs' = errs \o new
  /\ obs' = [op |-> "call", ret |-> e.ret, mlog |-> mlog, outs |-> outs, new |-> new]
  /\ UNCHANGED <<loaded, exps, order, outc, halted>>

IsExpected(f) == acts[f] < Len(exps[f])

Call(f, arg, inst) ==
  /\ ~halted
  /\ f \in LoadedFns
  /\ IF IsExpected(f) THEN CallSatisfied(f, arg, inst) ELSE CallUnexpected(f)

\* n surplus calls in a row: what n times Call does, in one step (for long tests)
Times(n, x) == [i \in 1..n |-> x]
SurplusCalls(f, n) ==
  /\ ~halted
  /\ f \in LoadedFns
  /\ ~IsExpected(f)
  /\ acts' = [acts EXCEPT ![f] = @ + n]
  /\ errs' = errs \o Times(n, Unexpected(f))
  /\ obs' = [op |-> "burst", ret |-> 0, mlog |-> <<>>, outs |-> NoOuts(f), new |-> <<Unexpected(f)>>, n |-> n]
  /\ UNCHANGED <<loaded, exps, fifo, order, outc, halted>>

\* easyMock_check(): the order in which the files report is not specified
CountErrors == {BadCount(f, Len(exps[f]), acts[f]) : f \in {g \in LoadedFns : Len(exps[g]) # acts[g]}}

SeqsOf(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]}
IsEnumeration(s, S) == Len(s) = Cardinality(S) /\ {s[i] : i \in 1..Len(s)} = S

Check(new) ==
  /\ ~halted
  /\ IsEnumeration(new, CountErrors)
  /\ errs' = errs \o new
  /\ obs' = [op |-> "check",
             ret |-> IF errs = <<>> /\ new = <<>> THEN 1 ELSE 0,
             new |-> new]
  /\ UNCHANGED <<loaded, exps, acts, fifo, order, outc, halted>>

\* easyMock_getErrorArr / easyMock_getErrorStr
GetErrors ==
  /\ ~halted
  /\ obs' = [op |-> "errs", arr |-> errs, size |-> Len(errs), null |-> (errs = <<>>), new |-> <<>>]
  /\ UNCHANGED <<loaded, exps, acts, fifo, errs, order, outc, halted>>

SetOrder(b) ==
  /\ ~halted
  /\ order' = b
  /\ obs' = [op |-> "order", new |-> <<>>]
  /\ UNCHANGED <<loaded, exps, acts, fifo, errs, outc, halted>>

\* the caller of the mock modifies an output object it passed to an expectation
Mutate(f, p, i, c) ==
  /\ ~halted
  /\ outc' = (<<f, p, i>> :> c) @@ outc
  /\ obs' = [op |-> "mut", new |-> <<>>]
  /\ UNCHANGED <<loaded, exps, acts, fifo, errs, order, halted>>

\* a setting that changes only the text appended to messages
SetStack(b) ==
  /\ ~halted
  /\ obs' = [op |-> "stack", new |-> <<>>]
  /\ UNCHANGED <<loaded, exps, acts, fifo, errs, order, outc, halted>>

Load(x) ==
  /\ ~halted
  /\ x \notin loaded
  /\ loaded' = loaded \cup {x}
  /\ obs' = [op |-> "load", new |-> <<>>]
  /\ UNCHANGED <<exps, acts, fifo, errs, order, outc, halted>>

\* an unloaded file forgets its expectations; its positions in the call order
\* stay until the next init
Unload(x) ==
  /\ ~halted
  /\ x \in loaded
  /\ loaded' = loaded \ {x}
  /\ exps' = [f \in Fns |-> IF f \in FnsOf(x) THEN <<>> ELSE exps[f]]
  /\ acts' = [f \in Fns |-> IF f \in FnsOf(x) THEN 0 ELSE acts[f]]
  /\ obs' = [op |-> "unload", new |-> <<>>]
  /\ UNCHANGED <<fifo, errs, order, outc, halted>>

(***************************************************************************)
(* State invariants                                                        *)
(***************************************************************************)
Remaining(f) == IF acts[f] >= Len(exps[f]) THEN 0 ELSE Len(exps[f]) - acts[f]
CountIn(s, f) == Cardinality({i \in 1..Len(s) : s[i] = f})
RECURSIVE SumOver(_, _)
SumOver(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN g[x] + SumOver(S \ {x}, g)

TypeOK ==
  /\ loaded \subseteq {Meta[f].file : f \in Fns}
  /\ \A f \in Fns : acts[f] \in Nat /\ (Meta[f].capped => Len(exps[f]) <= Cap)
  /\ \A i \in 1..Len(fifo) : fifo[i] \in Fns

\* A satisfied call always finds a position to consume: the framework's
\* "BUG IN EASYMOCK. No more current call" is unreachable.
FifoCoversExpectations ==
  Len(fifo) >= SumOver(Fns, [f \in Fns |-> Remaining(f)])

UnloadedIsEmpty == \A f \in Fns : Meta[f].file \notin loaded => exps[f] = <<>> /\ acts[f] = 0
=============================================================================
