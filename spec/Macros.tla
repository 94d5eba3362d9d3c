------------------------------- MODULE Macros -------------------------------
(***************************************************************************)
(* The macros of a header: a history of definitions, and what is defined at *)
(* its end.  A definition is [f, p, b]: function-like or not, parameters,   *)
(* tokens of the body.  A step is one of                                    *)
(*   [op "def", n, d]      #define, of a name that may be defined already   *)
(*   [op "undef", n]       #undef, of a name that may be undefined          *)
(*   [op "if", n, y, z]    #ifdef n / y / #else / z / #endif                *)
(* The state maps names to definitions; what isn't in it is undefined.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == <<>>
Without(m, n) == [x \in DOMAIN m \ {n} |-> m[x]]
RECURSIVE Run(_, _)
Step(m, s) ==
  CASE s.op = "def" -> (s.n :> s.d) @@ m
    [] s.op = "undef" -> Without(m, s.n)
    [] s.op = "if" -> IF s.n \in DOMAIN m THEN Run(m, s.y) ELSE Run(m, s.z)
Run(m, h) == IF h = <<>> THEN m ELSE Run(Step(m, Head(h)), Tail(h))
Final(h) == Run(<<>>, h)
RECURSIVE Touched(_)
Touched(h) == UNION {CASE h[i].op = "if" -> {h[i].n} \union Touched(h[i].y) \union Touched(h[i].z) [] OTHER -> {h[i].n} : i \in 1..Len(h)}
=============================================================================
