---------------------------- MODULE MCSelection ----------------------------
EXTENDS Selection
CONSTANTS MaxEvents, Emit
Events == [k : Kinds, f : Files] \union [k : MacroKinds, f : {"main", "inc"}]
MCInit == SelInit
MCNext == Len(hist) < MaxEvents /\ \E e \in Events : Scan(e)
MCSpec == MCInit /\ [][MCNext]_svars
RECURSIVE Render(_)
Render(h) == IF h = <<>> THEN "" ELSE h[1].k \o ":" \o h[1].f \o (IF Len(h) = 1 THEN "" ELSE "," \o Render(Tail(h)))
EmitAll == IF Emit /\ Decls(hist) # <<>> THEN PrintT("HIST " \o Render(hist)) ELSE TRUE
=============================================================================
