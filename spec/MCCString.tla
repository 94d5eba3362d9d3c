----------------------------- MODULE MCCString -----------------------------
EXTENDS CString, TLC
CONSTANTS Lens, Chars, MaxOps, Emit
VARIABLES ops
R(c, n) == << <<c, n>> >>
N(x) == ToString(x)
MCInit == CInit /\ ops = <<>>
Log(x) == ops' = Append(ops, x)
MCNext == Len(ops) < MaxOps /\ \E s \in Slots :
  \/ New(s) /\ Log("N " \o N(s))
  \/ \E c \in Chars, n \in Lens : NewInit(s, R(c, n)) /\ Log("I " \o N(s) \o " " \o N(c) \o " " \o N(n))
  \/ \E c \in Chars, n \in Lens : Append2(s, R(c, n)) /\ Log("A " \o N(s) \o " " \o N(c) \o " " \o N(n))
  \/ \E t \in Slots : AppendOf(s, t) /\ Log("P " \o N(s) \o " " \o N(t))
  \/ Free(s) /\ Log("F " \o N(s))
MCSpec == MCInit /\ [][MCNext]_<<str, mem, ops>>
RECURSIVE Join(_)
Join(x) == IF Len(x) = 1 THEN x[1] ELSE x[1] \o "," \o Join(Tail(x))
EmitAll == IF Emit /\ Len(ops) = MaxOps THEN PrintT("HIST " \o Join(ops)) ELSE TRUE
=============================================================================
