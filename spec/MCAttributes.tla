--------------------------- MODULE MCAttributes ---------------------------
EXTENDS Attributes, Json
CONSTANTS Forms, MaxDecls, MaxAttrs
Pool == {[n |-> "cold", a |-> <<>>], [n |-> "noreturn", a |-> <<>>], [n |-> "nonnull", a |-> <<"1">>], [n |-> "nonnull", a |-> <<"1", "3">>],
         [n |-> "format", a |-> <<"printf", "1", "4">>], [n |-> "format", a |-> <<"scanf", "3", "4">>], [n |-> "section", a |-> <<"\"txt\"">>]}
Attrs == {[n |-> p.n, a |-> p.a, v |-> f] : p \in Pool, f \in Forms}
Names == {p.n : p \in Pool}
Total == LET RECURSIVE T(_) T(s) == IF s = <<>> THEN 0 ELSE Len(s[1]) + T(Tail(s)) IN T(hist)
MCInit == AttrInit
Lists == {<<>>} \union {<<x>> : x \in Attrs} \union {<<x, y>> : x, y \in Attrs}
MCNext == Len(hist) < MaxDecls /\ \E d \in Lists : Total + Len(d) <= MaxAttrs /\ Declare(d)
MCSpec == MCInit /\ [][MCNext]_avars
Asks == SUBSET Names
Law == Inherited /\ OrderFree(Asks) /\ OnlyAsked(Asks)
LawAdd == Additive({{n} : n \in Names} \union {Names \ {n} : n \in Names})
EmitAll == hist # <<>> => PrintT("HIST " \o ToJson(hist))
=============================================================================
