------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Declarations of types and how they are laid out in memory (System V ABI  *)
(* for x86-64).  A type is a record with a field k:                         *)
(*   "void" | "b" n (basic) | "inc" n (incomplete) | "name" n (of the       *)
(*   environment) | "ptr" t | "const" t | "arr" c, t | "fn" t (sequence:    *)
(*   result, parameters), v (variadic) | "enum" n, b (its integer type),    *)
(*   vs (<<name, value>>) | "rec" n, u (union), ms (members)                *)
(* A member is [n, t, w]: w is the width of a bit-field, -1 if it isn't one;*)
(* n is empty for anonymous records and unnamed bit-fields.                 *)
(* The environment maps "struct s", "enum e", "td t" to types.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
BasicSize ==
  [n \in {"char", "signed char", "unsigned char", "_Bool"} |-> 1] @@ [n \in {"short", "unsigned short"} |-> 2]
  @@ [n \in {"int", "unsigned int", "float"} |-> 4]
  @@ [n \in {"long", "unsigned long", "long long", "unsigned long long", "double"} |-> 8]
  @@ [n \in {"long double", "__int128", "unsigned __int128"} |-> 16]
Max(a, b) == IF a > b THEN a ELSE b
Up(x, a) == ((x + a - 1) \div a) * a
RECURSIVE Size(_, _), Align(_, _), Place(_, _, _, _, _), Resolve(_, _)
Resolve(env, x) == IF x.k = "name" THEN Resolve(env, env[x.n]) ELSE IF x.k = "const" THEN Resolve(env, x.t) ELSE x
IsBits(m) == m.w >= 0
(* Members from the i-th on, off bits and alignment al (bytes) so far.      *)
(* Yields the offsets in bits, the end in bits and the alignment.           *)
Place(env, x, i, off, al) ==
  IF i > Len(x.ms) THEN [offs |-> <<>>, end |-> off, al |-> al]
  ELSE LET m == x.ms[i]
           a == Align(env, m.t)
           s == Size(env, m.t)
           from == IF x.u THEN 0 ELSE off
           fits == (from \div (8 * a)) = ((from + m.w - 1) \div (8 * a))
           at == IF ~IsBits(m) THEN Up(from, 8 * a) ELSE IF m.w = 0 \/ ~fits THEN Up(from, 8 * a) ELSE from
           to == at + (IF IsBits(m) THEN m.w ELSE 8 * s)
           al2 == IF m.n = "" /\ IsBits(m) THEN al ELSE Max(al, a)
           rest == Place(env, x, i + 1, IF x.u THEN Max(off, to) ELSE to, al2)
       IN [rest EXCEPT !.offs = <<at>> \o @]
Placed(env, x) == Place(env, x, 1, 0, 1)
Align(env, x) ==
  CASE x.k = "name" -> Align(env, env[x.n])
    [] x.k \in {"const", "arr"} -> Align(env, x.t)
    [] x.k = "ptr" -> 8
    [] x.k = "b" -> BasicSize[x.n]
    [] x.k = "enum" -> BasicSize[x.b]
    [] x.k = "rec" -> Placed(env, x).al
Size(env, x) ==
  CASE x.k = "name" -> Size(env, env[x.n])
    [] x.k = "const" -> Size(env, x.t)
    [] x.k = "arr" -> x.c * Size(env, x.t)
    [] x.k = "ptr" -> 8
    [] x.k = "b" -> BasicSize[x.n]
    [] x.k = "enum" -> BasicSize[x.b]
    [] x.k = "rec" -> LET p == Placed(env, x) IN Up(p.end, 8 * p.al) \div 8

\* ------------------------------------------------------------------ what a type is, without typedefs
RECURSIVE Lay(_, _), Behind(_, _)
Con(y) == IF y.k \in {"const", "fn"} THEN y ELSE IF y.k = "arr" THEN [y EXCEPT !.t = [k |-> "const", t |-> y.t]] ELSE [k |-> "const", t |-> y]
Uncon(y) == IF y.k = "const" THEN y.t ELSE y
\* a parameter is no array, and its own const doesn't matter
Par(y) == IF y.k = "arr" THEN [k |-> "ptr", t |-> y.t] ELSE IF y.k = "fn" THEN [k |-> "ptr", t |-> y] ELSE Uncon(y)
Fun(env, x) == [k |-> "fn", v |-> x.v, t |-> [i \in 1..Len(x.t) |-> IF i = 1 THEN Uncon(Behind(env, x.t[1])) ELSE Par(Behind(env, x.t[i]))]]
\* as the target of a pointer: records with a tag are known by it
Behind(env, x) ==
  CASE x.k = "name" -> Behind(env, env[x.n])
    [] x.k = "rec" /\ x.n # "" -> [k |-> "tag", n |-> x.n]
    [] x.k = "inc" -> [k |-> "tag", n |-> x.n]
    [] x.k = "ptr" -> [k |-> "ptr", t |-> Behind(env, x.t)]
    [] x.k = "const" -> Con(Behind(env, x.t))
    [] x.k = "arr" -> [k |-> "arr", c |-> x.c, t |-> Behind(env, x.t)]
    [] x.k = "fn" -> Fun(env, x)
    [] OTHER -> Lay(env, x)
Lay(env, x) ==
  CASE x.k = "name" -> Lay(env, env[x.n])
    [] x.k = "void" -> [k |-> "void"]
    [] x.k = "inc" -> [k |-> "tag", n |-> x.n]
    [] x.k = "b" -> [k |-> "b", n |-> x.n]
    [] x.k = "enum" -> [k |-> "enum", b |-> x.b, vs |-> {<<x.vs[i][1], x.vs[i][2]>> : i \in 1..Len(x.vs)}]
    [] x.k = "ptr" -> [k |-> "ptr", t |-> Behind(env, x.t)]
    [] x.k = "const" -> Con(Lay(env, x.t))
    [] x.k = "arr" -> [k |-> "arr", c |-> x.c, t |-> Lay(env, x.t)]
    [] x.k = "fn" -> Fun(env, x)
    [] x.k = "rec" ->
         LET p == Placed(env, x)
             shown == SelectSeq([i \in 1..Len(x.ms) |-> i], LAMBDA i : x.ms[i].n # "" \/ ~IsBits(x.ms[i]))
         IN [k |-> "rec", u |-> x.u, sz |-> Up(p.end, 8 * p.al) \div 8,
             ms |-> [j \in 1..Len(shown) |-> LET i == shown[j] IN
                      [n |-> x.ms[i].n, o |-> p.offs[i], w |-> x.ms[i].w, t |-> Lay(env, x.ms[i].t)]]]

\* ------------------------------------------------------------------ what a function needs
RECURSIVE Names(_, _)
IsTd(env, x) == x.k = "name" /\ env[x.n].k # "inc"
\* the names a type is declared with; of a typedef of a typedef only the outer one
Names(env, x) ==
  CASE x.k = "name" -> {x.n}
    [] x.k \in {"ptr", "const", "arr"} -> Names(env, x.t)
    [] x.k = "fn" -> UNION {Names(env, x.t[i]) : i \in 1..Len(x.t)}
    [] x.k = "rec" -> UNION {Names(env, x.ms[i].t) : i \in 1..Len(x.ms)}
    [] OTHER -> {}
RECURSIVE Target(_, _)
Target(env, n) == LET x == env[n] IN
  CASE x.k = "name" /\ SubSeq(x.n, 1, 3) = "td " -> Target(env, x.n)
    [] OTHER -> Names(env, x)
RECURSIVE Close(_, _)
Close(env, s) == LET t == s \union UNION {Target(env, n) : n \in s} IN IF t = s THEN s ELSE Close(env, t)
Needed(env, roots) == Close(env, UNION {Names(env, roots[i]) : i \in 1..Len(roots)})

\* ------------------------------------------------------------------ laws
RECURSIVE WellPlaced(_, _)
WellPlaced(env, x) ==
  x.k = "rec" =>
    LET p == Placed(env, x) sz == 8 * Size(env, x)
        Width(i) == IF IsBits(x.ms[i]) THEN x.ms[i].w ELSE 8 * Size(env, x.ms[i].t)
    IN /\ \A i \in 1..Len(x.ms) : p.offs[i] + Width(i) <= sz
       /\ \A i \in 1..Len(x.ms) : ~IsBits(x.ms[i]) => p.offs[i] % (8 * Align(env, x.ms[i].t)) = 0
       /\ x.u => \A i \in 1..Len(x.ms) : p.offs[i] = 0
       /\ ~x.u => \A i, j \in 1..Len(x.ms) : i < j => p.offs[i] + Width(i) <= p.offs[j]
       /\ sz % (8 * p.al) = 0
       /\ \A i \in 1..Len(x.ms) : IsBits(x.ms[i]) /\ x.ms[i].w > 0 =>     \* within one unit of its type
            LET a == 8 * Align(env, x.ms[i].t) IN p.offs[i] \div a = (p.offs[i] + x.ms[i].w - 1) \div a
       /\ \A i \in 1..Len(x.ms) : WellPlaced(env, x.ms[i].t)
=============================================================================
