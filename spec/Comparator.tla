----------------------------- MODULE Comparator -----------------------------
(***************************************************************************)
(* Comparators of composite types.  A record is [u |-> is a union,          *)
(* ms |-> members]; a member [k, n (name), c (elements), r (record)]:       *)
(*   "scalar" "bits" "ptr"   a value           "pad"  an unnamed bit-field   *)
(*   "sarr"   an array of values               "rarr" an array of records    *)
(*   "rec" "inl"  a record with a member name (of a type of its own, or      *)
(*            defined in place)                "anon" without a name         *)
(* A leaf is named by the names on its way and the indices on its way; the  *)
(* values of two objects are functions on the leaves.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Value(m) == m.k \in {"scalar", "bits", "ptr"}
RECURSIVE Leaves(_), MemberLeaves(_)
Prefix(n, i, ls) == {[p |-> <<n>> \o x.p, i |-> i \o x.i] : x \in ls}
MemberLeaves(m) ==
  CASE Value(m) -> {[p |-> <<m.n>>, i |-> <<>>]}
    [] m.k = "sarr" -> {[p |-> <<m.n>>, i |-> <<j>>] : j \in 0..(m.c - 1)}
    [] m.k = "rarr" -> UNION {Prefix(m.n, <<j>>, Leaves(m.r)) : j \in 0..(m.c - 1)}
    [] m.k \in {"rec", "inl"} -> Prefix(m.n, <<>>, Leaves(m.r))
    [] m.k = "anon" -> Leaves(m.r)
    [] OTHER -> {}
Leaves(r) == UNION {MemberLeaves(r.ms[j]) : j \in 1..Len(r.ms)}

Differing(ls, a, b) == {x \in ls : a[x] # b[x]}
Verdict(ls, a, b) == Differing(ls, a, b) = {}

(* What the message must let the reader find: the names on the way to a     *)
(* differing leaf, and its index when it is an element of an array of       *)
(* values (elements of arrays of records are named without their index).   *)
Shown(x, indexed) == [p |-> x.p, i |-> IF indexed THEN x.i[Len(x.i)] ELSE -1]
RECURSIVE Indexed(_, _)
\* is the leaf with these names an element of an array of values?
Indexed(r, p) ==
  \E j \in 1..Len(r.ms) : LET m == r.ms[j] IN
    \/ m.k = "anon" /\ Indexed(m.r, p)
    \/ m.k # "anon" /\ m.k # "pad" /\ m.n = p[1] /\ (m.k = "sarr" \/ (m.k \in {"rec", "inl", "rarr"} /\ Indexed(m.r, Tail(p))))

\* ------------------------------------------------------------------ a reference algorithm
(* Members in order, but arrays after everything else; the first difference *)
(* found is the one reported.                                               *)
Arr(m) == m.k \in {"sarr", "rarr"}
RECURSIVE Order(_), MemberOrder(_), Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Pre(n, i, s) == [j \in 1..Len(s) |-> [p |-> <<n>> \o s[j].p, i |-> i \o s[j].i]]
MemberOrder(m) ==
  CASE Value(m) -> << [p |-> <<m.n>>, i |-> <<>>] >>
    [] m.k = "sarr" -> [j \in 1..m.c |-> [p |-> <<m.n>>, i |-> <<j - 1>>]]
    [] m.k = "rarr" -> Cat([j \in 1..m.c |-> Pre(m.n, <<j - 1>>, Order(m.r))])
    [] m.k \in {"rec", "inl"} -> Pre(m.n, <<>>, Order(m.r))
    [] m.k = "anon" -> Order(m.r)
    [] OTHER -> <<>>
Order(r) == LET plain == SelectSeq(r.ms, LAMBDA m : ~Arr(m)) arrs == SelectSeq(r.ms, LAMBDA m : Arr(m)) IN
  Cat([j \in 1..Len(plain) |-> MemberOrder(plain[j])]) \o Cat([j \in 1..Len(arrs) |-> MemberOrder(arrs[j])])
FirstDiff(r, diff) == LET o == Order(r) hits == {j \in 1..Len(o) : o[j] \in diff} IN
  IF hits = {} THEN <<>> ELSE << o[CHOOSE j \in hits : \A h \in hits : j <= h] >>
=============================================================================
