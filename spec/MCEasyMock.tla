----------------------------- MODULE MCEasyMock -----------------------------
(***************************************************************************)
(* Exhaustive exploration of EasyMock.tla for two mock files: f (one       *)
(* output-capable and one plain parameter) and g (no parameter) in file A, *)
(* h (no parameter, no result) in file B; and m, a member function of a    *)
(* C++ class (called on object 1 or 2), in file A.  hist records what the caller    *)
(* did and saw; the properties C01..C09 are stated over hist alone, i.e.   *)
(* without looking at the bookkeeping of the specification.                *)
(***************************************************************************)
EXTENDS EasyMock, Json

CONSTANTS MaxOps, Emit,
          Alphabet   \* which actions this configuration explores

VARIABLES hist
mcvars == <<vars, hist>>

MCFns == {"f", "g", "h", "m"}
MCMeta == [x \in MCFns |->
  CASE x = "f" -> [file |-> "A", np |-> 2, void |-> FALSE, out |-> <<"sized", "none">>, capped |-> TRUE]
    [] x = "g" -> [file |-> "A", np |-> 0, void |-> FALSE, out |-> <<>>, capped |-> TRUE]
    [] x = "h" -> [file |-> "B", np |-> 0, void |-> TRUE, out |-> <<>>, capped |-> TRUE]
    [] x = "m" -> [file |-> "A", np |-> 0, void |-> FALSE, out |-> <<>>, capped |-> FALSE]]
MCStart == {"A", "B"}

\* the alphabet: representative expectations and calls
ExpF == { [ret |-> r, par |-> <<1, r>>, mat |-> <<0, m>>, out |-> <<o, -1>>, osz |-> <<0, 0>>, inst |-> 0]
          : r \in {1, 2}, m \in {1, 2}, o \in {-1, 1} }
ExpFsmall == { [ret |-> 1, par |-> <<1, 2>>, mat |-> <<0, 1>>, out |-> <<1, -1>>, osz |-> <<0, 0>>, inst |-> 0],
               [ret |-> 2, par |-> <<1, 1>>, mat |-> <<4, 2>>, out |-> <<-1, -1>>, osz |-> <<0, 0>>, inst |-> 0] }
Exp0(r) == [ret |-> r, par |-> <<>>, mat |-> <<>>, out |-> <<>>, osz |-> <<>>, inst |-> 0]

Rec(e) == e @@ [obs |-> obs', order |-> order]

MCInit == RInit /\ order = FALSE /\ hist = <<>>

Step(A, e) == A /\ hist' = Append(hist, Rec(e))

DoInit    == Step(InitFramework, [op |-> "init"])
DoExpF    == \E e \in ExpFsmall : Step(Expect("f", e), [op |-> "expect", f |-> "f", e |-> e])
DoExpG    == Step(Expect("g", Exp0(2)), [op |-> "expect", f |-> "g", e |-> Exp0(2)])
DoExpH    == Step(Expect("h", Exp0(0)), [op |-> "expect", f |-> "h", e |-> Exp0(0)])
\* expected of any object (0) or of object 1
DoExpM    == \E o \in {0, 1} : LET e == [Exp0(o + 1) EXCEPT !.inst = o] IN Step(Expect("m", e), [op |-> "expect", f |-> "m", e |-> e])
DoCallM   == \E o \in {1, 2} : Step(Call("m", <<>>, o), [op |-> "call", f |-> "m", arg |-> <<>>, inst |-> o])
DoOver    == \E f \in Fns \ {"m"} : Step(Overflow(f), [op |-> "overflow", f |-> f])
DoCallF   == Step(Call("f", <<1, 2>>, 0), [op |-> "call", f |-> "f", arg |-> <<1, 2>>])
DoCallG   == Step(Call("g", <<>>, 0), [op |-> "call", f |-> "g", arg |-> <<>>])
DoCallH   == Step(Call("h", <<>>, 0), [op |-> "call", f |-> "h", arg |-> <<>>])
DoCheck   == \E s \in SeqsOf(CountErrors) : Step(Check(s), [op |-> "check"])
DoOrder   == \E b \in BOOLEAN : b # order /\ Step(SetOrder(b), [op |-> "order", b |-> b])
DoErrs    == Step(GetErrors, [op |-> "errs"])
DoMut     == Step(Mutate("f", 1, 1, 2), [op |-> "mut", f |-> "f", p |-> 1, i |-> 1, c |-> 2])
DoUnload  == Step(Unload("B"), [op |-> "unload", x |-> "B"])
DoLoad    == Step(Load("B"), [op |-> "load", x |-> "B"])

On(x) == x \in Alphabet

MCNext ==
  /\ Len(hist) < MaxOps
  /\ \/ On("init") /\ DoInit
     \/ On("expF") /\ DoExpF
     \/ On("expG") /\ DoExpG
     \/ On("expH") /\ DoExpH
     \/ On("over") /\ DoOver
     \/ On("callF") /\ DoCallF
     \/ On("callG") /\ DoCallG
     \/ On("callH") /\ DoCallH
     \/ On("expM") /\ DoExpM
     \/ On("callM") /\ DoCallM
     \/ On("check") /\ DoCheck
     \/ On("order") /\ DoOrder
     \/ On("errs") /\ DoErrs
     \/ On("mut") /\ DoMut
     \/ On("load") /\ (DoUnload \/ DoLoad)

FullAlphabet == {"init", "expF", "expG", "expH", "over", "callF", "callG", "callH", "check", "order", "errs", "mut", "load"}
MCSpec == MCInit /\ [][MCNext]_mcvars

\* emission of behaviours for replay: every transition of the bounded graph
\* of abstract states, with one history leading to it
EmitTransition == Emit => PrintT("SCHED " \o ToJson([i \in 1..Len(hist') |->
                     [x \in (DOMAIN hist'[i]) \ {"obs", "order"} |-> hist'[i][x]]]))
NoHist == <<loaded, exps, acts, fifo, errs, order, outc, halted>>

----------------------------------------------------------------------------
(* The properties, over hist only *)
Since(h) == LET S == {i \in 1..Len(h) : h[i].op = "init"}
            IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
\* position after which f's history counts: the last init or (un)load of its file
FileResets(h, f) == {i \in 1..Len(h) : h[i].op = "init"
                       \/ (h[i].op \in {"load", "unload"} /\ h[i].x = Meta[f].file)}
From(h, f) == LET S == FileResets(h, f) IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
IsLoadedIn(h, x) == LET S == {i \in 1..Len(h) : h[i].op \in {"load", "unload"} /\ h[i].x = x}
                    IN IF S = {} THEN TRUE
                       ELSE h[CHOOSE i \in S : \A j \in S : j <= i].op = "load"
Ops(h, op, f, lo, hi) == {i \in (lo+1)..hi : h[i].op = op /\ h[i].f = f}
NE(h, f) == Cardinality(Ops(h, "expect", f, From(h, f), Len(h)))
NC(h, f) == Cardinality(Ops(h, "call", f, From(h, f), Len(h)))
Prefix(h, n) == SubSeq(h, 1, n)
ErrorsIn(h, lo, hi) == \E i \in (lo+1)..hi : h[i].obs.new # <<>>

\* the expectation answering the call at position i of h (0 if none)
Answering(h, i) ==
  LET p == Prefix(h, i)
      f == h[i].f
      k == NC(p, f)
      E == Ops(p, "expect", f, From(p, f), i)
  IN IF k > Cardinality(E) THEN 0
     ELSE CHOOSE j \in E : Cardinality({m \in E : m <= j}) = k

C01_Verdict ==
  \A i \in 1..Len(hist) : hist[i].op = "check" =>
    LET p == Prefix(hist, i)
        LF == {f \in Fns : IsLoadedIn(p, Meta[f].file)}
        bad == {f \in LF : NE(p, f) # NC(p, f)}
    IN /\ (hist[i].obs.ret = 1) <=> (bad = {} /\ ~ErrorsIn(hist, Since(p), i - 1))
       /\ {hist[i].obs.new[j] : j \in 1..Len(hist[i].obs.new)} = {BadCount(f, NE(p, f), NC(p, f)) : f \in bad}

C02_ReturnQueue ==
  \A i \in 1..Len(hist) : hist[i].op = "call" =>
    LET j == Answering(hist, i) IN hist[i].obs.ret = IF j = 0 THEN 0 ELSE hist[j].e.ret

C03_Unexpected ==
  \A i \in 1..Len(hist) : hist[i].op = "call" =>
    /\ (Answering(hist, i) = 0) <=> (\E j \in 1..Len(hist[i].obs.new) : hist[i].obs.new[j] = Unexpected(hist[i].f))
    /\ Answering(hist, i) = 0 => /\ Len(hist[i].obs.new) = 1
                                 /\ hist[i].obs.mlog = <<>>
                                 /\ \A p \in 1..Len(hist[i].obs.outs) : hist[i].obs.outs[p] = Untouched

C04_Matchers ==
  \A i \in 1..Len(hist) : (hist[i].op = "call" /\ Answering(hist, i) # 0) =>
    LET e == hist[Answering(hist, i)].e
        f == hist[i].f
        log == hist[i].obs.mlog
        n == NC(Prefix(hist, i), f)
    IN /\ \A p \in 1..Meta[f].np :
            Cardinality({l \in 1..Len(log) : log[l].p = p}) = IF e.mat[p] = 0 THEN 0 ELSE 1
       /\ \A l \in 1..Len(log) : log[l].cur = hist[i].arg[log[l].p] /\ log[l].exp = e.par[log[l].p]
       /\ \A l, m \in 1..Len(log) : l < m => log[l].p < log[m].p
       /\ {x \in {hist[i].obs.new[j] : j \in 1..Len(hist[i].obs.new)} : x.k = "match"}
            = {Mismatch(f, n, MsgOf(e.mat[p], p)) : p \in {q \in 1..Meta[f].np : Rejects(e.mat[q])}}

\* the global order of expectations not yet consumed by a satisfied call before i:
\* positions are consumed from the front whatever function consumes them
Recorded(h, i) == {j \in (Since(Prefix(h, i))+1)..i : h[j].op = "expect"}
Consumed(h, i) == Cardinality({j \in (Since(Prefix(h, i))+1)..(i-1) : h[j].op = "call" /\ Answering(h, j) # 0})
HeadAt(h, i) == CHOOSE j \in Recorded(h, i) :
                  Cardinality({m \in Recorded(h, i) : m <= j}) = Consumed(h, i) + 1
C05_Order ==
  \A i \in 1..Len(hist) : (hist[i].op = "call" /\ Answering(hist, i) # 0) =>
    LET new == {hist[i].obs.new[j] : j \in 1..Len(hist[i].obs.new)}
        want == hist[HeadAt(hist, i)].f
        ooo == hist[i].order /\ want # hist[i].f
    IN /\ {x \in new : x.k = "order"} = IF ooo THEN {OutOfOrder(hist[i].f, want)} ELSE {}
       /\ ooo => \A p \in 1..Len(hist[i].obs.outs) : hist[i].obs.outs[p] = Untouched

C06_InitResets ==
  (hist # <<>> /\ hist[Len(hist)].op = "init") =>
     /\ errs = <<>> /\ fifo = <<>>
     /\ \A f \in LoadedFns : exps[f] = <<>> /\ acts[f] = 0
     /\ \A i \in 1..Len(hist) :
          (hist[i].op = "order" /\ \A j \in (i+1)..Len(hist) : hist[j].op # "order") => order = hist[i].b

C07_Registration == loaded = {x \in {"A", "B"} : IsLoadedIn(hist, x)} /\ UnloadedIsEmpty

C08_Errors ==
  \A i \in 1..Len(hist) : hist[i].op = "errs" =>
    LET s == Since(Prefix(hist, i)) IN
      /\ hist[i].obs.size = Len(hist[i].obs.arr)
      /\ hist[i].obs.null <=> hist[i].obs.size = 0
      /\ hist[i].obs.size = SumOver((s+1)..i, [j \in (s+1)..i |-> Len(hist[j].obs.new)])
      /\ \A j \in (s+1)..i : \A m \in 1..Len(hist[j].obs.new) :
            hist[i].obs.arr[SumOver((s+1)..(j-1), [q \in (s+1)..(j-1) |-> Len(hist[q].obs.new)]) + m] = hist[j].obs.new[m]

\* content of output object i of f's parameter p just before position n
ContentAt(h, n, f, p, i) ==
  LET S == {j \in 1..(n-1) : h[j].op = "mut" /\ h[j].f = f /\ h[j].p = p /\ h[j].i = i}
  IN IF S = {} THEN i ELSE h[CHOOSE j \in S : \A m \in S : m <= j].c
C09_Outputs ==
  \A i \in 1..Len(hist) : (hist[i].op = "call" /\ Answering(hist, i) # 0) =>
    LET e == hist[Answering(hist, i)].e
        ooo == \E j \in 1..Len(hist[i].obs.new) : hist[i].obs.new[j].k = "order"
    IN \A p \in 1..Meta[hist[i].f].np :
         hist[i].obs.outs[p] = IF ooo \/ e.out[p] = Untouched THEN Untouched
                               ELSE ContentAt(hist, i, hist[i].f, p, e.out[p])

\* an expectation recorded for one object complains about another one, and
\* only then (the other properties say that nothing else depends on it)
C12_Object ==
  \A i \in 1..Len(hist) : (hist[i].op = "call" /\ hist[i].f = "m" /\ Answering(hist, i) # 0) =>
    LET e == hist[Answering(hist, i)].e
        n == NC(Prefix(hist, i), "m")
    IN {x \in {hist[i].obs.new[j] : j \in 1..Len(hist[i].obs.new)} : x.k = "inst"}
         = IF e.inst \in {0, hist[i].inst} THEN {} ELSE {WrongObject("m", n)}

C10_Capacity ==
  /\ \A f \in Fns : Meta[f].capped => Len(exps[f]) <= Cap
  /\ \A i \in 1..Len(hist) : hist[i].op = "overflow" => i = Len(hist) /\ halted
=============================================================================
