------------------------------ MODULE MCLayout ------------------------------
(* Records of up to Max members of every kind; the laws of the layout; the  *)
(* records are emitted.                                                     *)
EXTENDS Layout, Json
CONSTANT MaxMembers
VARIABLES rec
B(n) == [k |-> "b", n |-> n]
N(n) == [k |-> "name", n |-> n]
P(x) == [k |-> "ptr", t |-> x]
A(x, c) == [k |-> "arr", c |-> c, t |-> x]
M(n, t) == [n |-> n, t |-> t, w |-> -1]
W(t, w) == [n |-> "f", t |-> B(t), w |-> w]
R(u, ms) == [k |-> "rec", n |-> "", u |-> u, ms |-> ms]
Env == [n \in {"struct in"} |-> [k |-> "rec", n |-> "struct in", u |-> FALSE, ms |-> <<M("c", B("char")), [n |-> "b", t |-> B("int"), w |-> 9], M("d", A(B("short"), 3))>>]]
  @@ [n \in {"union un"} |-> [k |-> "rec", n |-> "union un", u |-> TRUE, ms |-> <<M("i", B("int")), M("s", N("struct in"))>>]]
  @@ [n \in {"enum en"} |-> [k |-> "enum", n |-> "enum en", b |-> "int", vs |-> <<<<"EN_A", "-1">>, <<"EN_B", "7">>>>]]
  @@ [n \in {"td ty"} |-> B("unsigned short")]
  @@ [n \in {"td an"} |-> R(FALSE, <<M("x", B("long")), M("y", B("char"))>>)]
  @@ [n \in {"struct op"} |-> [k |-> "inc", n |-> "struct op"]]
Plain == {M("f", x) : x \in {B("char"), B("short"), B("int"), B("long double"), B("double"), P(N("struct in")), P(N("td an")), P(N("struct op")),
                             P([k |-> "const", t |-> B("char")]), A(B("char"), 3), N("struct in"), N("union un"), N("enum en"), N("td ty"), N("td an"),
                             A(N("struct in"), 2), [k |-> "const", t |-> B("long")],
                             P([k |-> "fn", v |-> FALSE, t |-> <<B("int"), P(N("union un"))>>])}}
Bits == {W("int", 3), W("unsigned int", 31), W("unsigned char", 7), W("long", 33), W("_Bool", 1), W("unsigned short", 16), W("int", 32)}
Pads == {[n |-> "", t |-> B("int"), w |-> 0], [n |-> "", t |-> B("unsigned int"), w |-> 5], [n |-> "", t |-> B("char"), w |-> 0], [n |-> "", t |-> B("long"), w |-> 40]}
Anon == {[n |-> n, t |-> R(u, ms), w |-> -1] : n \in {"", "f"}, u \in BOOLEAN, ms \in {<<M("p", B("char")), M("q", B("int"))>>, <<[n |-> "p", t |-> B("int"), w |-> 5], M("q", B("short"))>>}}
Members == Plain \union Bits \union Pads \union Anon
Letter == <<"a", "b", "c", "d">>
Numbered(m, i) == [m EXCEPT !.n = IF m.n = "" THEN "" ELSE Letter[i], !.t = IF m.n = "" /\ m.t.k = "rec" THEN [@ EXCEPT !.ms = [j \in DOMAIN @ |-> [@[j] EXCEPT !.n = @ \o Letter[i]]]] ELSE @]
Init == rec \in {R(u, <<>>) : u \in BOOLEAN}
Next == Len(rec.ms) < MaxMembers /\ \E m \in Members : rec' = [rec EXCEPT !.ms = Append(@, Numbered(m, Len(@) + 1))]
Spec == Init /\ [][Next]_rec
Laws == WellPlaced(Env, rec)
\* an array is its elements side by side
ArrayLaw == rec.ms # <<>> => Size(Env, A(rec, 3)) = 3 * Size(Env, rec) /\ Align(Env, A(rec, 3)) = Align(Env, rec)
\* a further member never moves the others, a union is never larger than the struct of the same members
Monotone == Len(rec.ms) > 1 =>
  LET less == [rec EXCEPT !.ms = SubSeq(@, 1, Len(@) - 1)] IN
  /\ Size(Env, less) <= Size(Env, rec)
  /\ SubSeq(Placed(Env, rec).offs, 1, Len(less.ms)) = Placed(Env, less).offs
UnionLaw == ~rec.u => Size(Env, [rec EXCEPT !.u = TRUE]) <= Size(Env, rec)
HasName == \E i \in 1..Len(rec.ms) : rec.ms[i].n # "" \/ rec.ms[i].w < 0
Emit == HasName => PrintT("REC " \o ToJson(rec))
=============================================================================
