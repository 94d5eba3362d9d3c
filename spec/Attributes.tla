----------------------------- MODULE Attributes -----------------------------
(***************************************************************************)
(* Attributes of functions (C20).  An attribute is [n, a, v]: its name, the *)
(* sequence of its parameters and the way it is written, which doesn't      *)
(* matter.  A function is declared once or more, each time with a sequence  *)
(* of attributes; it carries all of them.  Of these a generated declaration *)
(* shows those that are asked for by name.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Plain(x) == [n |-> x.n, a |-> x.a]
Of(d) == {Plain(d[i]) : i \in 1..Len(d)}
Carried(h) == UNION {Of(h[i]) : i \in 1..Len(h)}
Shown(h, ask) == {x \in Carried(h) : x.n \in ask}
-----------------------------------------------------------------------------
\* The machine: the last declaration of a function inherits
VARIABLES hist, carries
avars == <<hist, carries>>
AttrInit == hist = <<>> /\ carries = {}
Declare(d) == hist' = Append(hist, d) /\ carries' = carries \union Of(d)
Inherited == carries = Carried(hist)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree(asks) == \A k \in asks : Shown(Reverse(hist), k) = Shown(hist, k)
\* asking for more shows more, and nothing else changes
Additive(asks) == \A j, k \in asks : Shown(hist, j \union k) = Shown(hist, j) \union Shown(hist, k)
OnlyAsked(asks) == \A k \in asks : \A x \in Shown(hist, k) : x.n \in k
=============================================================================
