------------------------------ MODULE Matcher ------------------------------
(***************************************************************************)
(* The built-in matchers.  A value of a type of w bits is the set of its    *)
(* bits that are one; equality of integers and pointers is equality of the  *)
(* sets, of floating point numbers it is the IEEE one.                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
Types == {"char", "u_char", "short", "u_short", "int", "u_int", "long", "u_long", "long_long", "u_long_long",
          "float", "double", "long_double", "pointer", "int128", "uint128"}
Width(t) ==
  CASE t \in {"char", "u_char"} -> 8 [] t \in {"short", "u_short"} -> 16 [] t \in {"int", "u_int", "float"} -> 32
    [] t \in {"int128", "uint128"} -> 128 [] t = "long_double" -> 80 [] OTHER -> 64
IsFloat(t) == t \in {"float", "double", "long_double"}
\* position of the lowest bit of the exponent; the sign is the highest bit of all
ExpLow(t) == CASE t = "float" -> 23 [] t = "double" -> 52 [] t = "long_double" -> 64
\* bits of the fraction that is zero for infinity (the 80-bit format has an explicit integer bit at 63)
Fraction(t) == IF t = "long_double" THEN 0..62 ELSE 0..(ExpLow(t) - 1)
Exponent(t) == ExpLow(t)..(Width(t) - 2)
NaN(t, v) == Exponent(t) \subseteq v /\ v \intersect Fraction(t) # {}
Zero(t, v) == v \subseteq {Width(t) - 1}
Equal(t, a, b) ==
  IF IsFloat(t) THEN /\ ~NaN(t, a) /\ ~NaN(t, b)
                     /\ \/ a = b
                        \/ Zero(t, a) /\ Zero(t, b)
  ELSE a = b
\* encodings that are numbers: the integer bit of the 80-bit format is one (zero apart)
Valid(t, v) == t = "long_double" => (63 \in v \/ Zero(t, v))

\* ------------------------------------------------------------------ the situations
Bases == {"zero", "ones", "min", "max", "alt", "one"}
Base(t, b) ==
  LET w == Width(t) IN
  CASE b = "zero" -> {} [] b = "ones" -> 0..(w - 1) [] b = "min" -> {w - 1} [] b = "max" -> 0..(w - 2)
    [] b = "alt" -> {i \in 0..(w - 1) : i % 2 = 1} [] b = "one" -> IF t = "long_double" THEN {63} \union 64..77 ELSE
                                                            IF t = "float" THEN 23..29 ELSE IF t = "double" THEN 52..61 ELSE {0}
Flip(v, i) == IF i \in v THEN v \ {i} ELSE v \union {i}

\* the forms of a matcher: of the value, of the value pointed to, the C++ one (EasyMock::cmp) on values
VARIABLES type, form, cur, exp
mvars == <<type, form, cur, exp>>
Forms(t) == IF t \in {"int128", "uint128"} THEN {"value"} ELSE {"value", "deref", "cpp"}
Situation ==
  /\ type \in Types
  /\ form \in Forms(type)
  /\ \E b \in Bases : cur = Base(type, b) \/ \E i \in 0..(Width(type) - 1) : cur = Flip(Base(type, b), i)
  /\ \/ \E b \in Bases : exp = Base(type, b)
     \/ exp = cur
  /\ Valid(type, cur) /\ Valid(type, exp)
MInit == Situation
MNext == UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars
\* equality is reflexive outside NaN, symmetric
Reflexive == (IsFloat(type) /\ NaN(type, cur)) \/ Equal(type, cur, cur)
Symmetric == Equal(type, cur, exp) = Equal(type, exp, cur)
OnlyZeroes == Equal(type, cur, exp) /\ cur # exp => IsFloat(type) /\ Zero(type, cur) /\ Zero(type, exp)
=============================================================================
