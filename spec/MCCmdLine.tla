------------------------------ MODULE MCCmdLine ------------------------------
(* All argument vectors up to MaxLen over a small alphabet, scanned token by *)
(* token.  The invariants restate the documented behaviour declaratively.    *)
EXTENDS CmdLine

CONSTANTS MaxLen, Alphabet, Emit
Files == {"f.h", "d/f.h", "d/g.h"}
Dirs  == {"d", "d/d"}

VARIABLES v, s
vars == <<v, s>>

Init == v = <<>> /\ s = Init0
\* the vector is chosen while nothing has been scanned
Grow == s = Init0 /\ Len(v) < MaxLen /\ \E t \in Alphabet : v' = Append(v, t) /\ s' = s
Consume == s.st = "scan" /\ s' = Step(s, v) /\ v' = v
Next == Grow \/ Consume
Spec == Init /\ [][Next]_vars

Done == s.st # "scan"
EmitVec == (Emit /\ s = Init0) => PrintT(<<"VEC", v>>)

\* Positions that are the value of an option before them
RECURSIVE ValuePos(_)
ValuePos(n) == IF n <= 1 THEN FALSE
               ELSE v[n-1] \in (SingleOpts \union MultiOpts) /\ ~ValuePos(n-1) /\ IsValue(v[n])
OptPos(n) == ~ValuePos(n)
Malformed(n) == /\ OptPos(n)
                /\ \/ v[n] \in SingleOpts /\ (n = Len(v) \/ ~ValuePos(n+1) \/ \E m \in 1..(n-1) : v[m] = v[n] /\ OptPos(m))
                   \/ v[n] \in MultiOpts /\ (n = Len(v) \/ ~ValuePos(n+1))
AskHelp(n) == OptPos(n) /\ v[n] \in HelpOpts
Before(n, P(_)) == \E m \in 1..(n-1) : P(m)

\* asking for help wins over everything after it
HelpWins == Done => ((s.st = "help") <=> \E n \in 1..Len(v) : AskHelp(n) /\ ~Before(n, Malformed))
\* a malformed option never ends in a configuration
NoSilence == Done => ((s.st = "error") => Malformed(s.pos) /\ v[s.pos] = s.bad)
CompleteOnlyIfSound == (s.st = "end") => \A n \in 1..Len(v) : ~Malformed(n) /\ ~AskHelp(n)
\* a configuration accounts for every token exactly once
Exact ==
  (s.st = "end") =>
    /\ \A o \in SingleOpts : (o \in s.cfg.given) <=> \E n \in 1..Len(v) : v[n] = o /\ OptPos(n)
    /\ \A o \in s.cfg.given : \E n \in 1..Len(v) : OptPos(n) /\ v[n] = o /\ v[n+1] = s.cfg.single[o]
    /\ \A o \in MultiOpts : s.cfg.multi[o] = {v[n] : n \in {m \in 2..Len(v) : ValuePos(m) /\ v[m-1] = o}}
    /\ s.cfg.flags = {v[n] : n \in {m \in 1..Len(v) : OptPos(m) /\ v[m] \in FlagOpts}}
    /\ s.cfg.extra = LET idx == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : OptPos(i) /\ v[i] \notin Known)
                     IN [k \in 1..Len(idx) |-> v[idx[k]]]
\* the same flags and values in another order of unrelated options: a flag moved to the front changes nothing
FlagsAnywhere ==
  (s.st = "end") =>
    \A n \in 1..Len(v) : (OptPos(n) /\ v[n] \in FlagOpts) =>
      Scan(<<v[n]>> \o SubSeq(v, 1, n-1) \o SubSeq(v, n+1, Len(v))).cfg = s.cfg
OutcomeTotal == Done => Outcome(s, Files, Dirs) \in {"ok", "help", "error"}
ErrorsNameSomething == (Done /\ Outcome(s, Files, Dirs) = "error") => Faults(s, Files, Dirs) # {}
=============================================================================
