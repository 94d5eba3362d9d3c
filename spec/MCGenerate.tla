---------------------------- MODULE MCGenerate ----------------------------
EXTENDS Generate
CONSTANT Emit
MOptions == {[id |-> "plain", ign |-> FALSE], [id |-> "types", ign |-> FALSE], [id |-> "ign", ign |-> TRUE], [id |-> "cpp", ign |-> FALSE]}
Tok(x) == IF Len(x) = 1 THEN x[1] ELSE "content"
\* one line per situation a run can start in
EmitStart == (Emit /\ pc = "parse") => PrintT(<<"RUN", hdr, out, Tok(c), Tok(h), opt.id>>)
EmitRefused == (Emit /\ pc = "done" /\ (~Readable \/ out # "ok")) => PrintT(<<"RUN", hdr, out, Tok(c), Tok(h), opt.id>>)
=============================================================================
