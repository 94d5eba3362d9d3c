------------------------------ MODULE MCMacros ------------------------------
EXTENDS Macros, Json
CONSTANTS Names, Defs, Depth
VARIABLES h, m
Def(n, d) == [op |-> "def", n |-> n, d |-> d]
Undef(n) == [op |-> "undef", n |-> n]
Simple == {Def(n, d) : n \in Names, d \in Defs} \union {Undef(n) : n \in Names}
Ifs == {[op |-> "if", n |-> n, y |-> y, z |-> z] :
          n \in Names, y \in {<<>>} \union {<<s>> : s \in Simple}, z \in {<<>>} \union {<<s>> : s \in Simple}}
Init == h = <<>> /\ m = <<>>
Next == Len(h) < Depth /\ \E s \in Simple \union Ifs : h' = Append(h, s) /\ m' = Step(m, s)
Spec == Init /\ [][Next]_<<h, m>>
View == h
\* the map is the history's
Consistent == m = Final(h)
TypeOk == DOMAIN m \subseteq Names /\ \A n \in DOMAIN m : m[n] \in Defs
\* the last step on a name decides, and leaves the others alone
LastWins == h # <<>> =>
  LET s == h[Len(h)] before == Final(SubSeq(h, 1, Len(h) - 1)) IN
  CASE s.op = "def" -> s.n \in DOMAIN m /\ m[s.n] = s.d /\ \A x \in Names \ {s.n} : (x \in DOMAIN m <=> x \in DOMAIN before) /\ (x \in DOMAIN m => m[x] = before[x])
    [] s.op = "undef" -> s.n \notin DOMAIN m /\ DOMAIN m = DOMAIN before \ {s.n}
    [] OTHER -> TRUE
OnlyTouched == DOMAIN m \subseteq Touched(h)
Emit == h # <<>> => PrintT("HIST " \o ToJson(h))
=============================================================================
