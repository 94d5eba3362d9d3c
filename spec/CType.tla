------------------------------- MODULE CType -------------------------------
(***************************************************************************)
(* C types and what a mock makes of the declaration of a function.         *)
(* A type is a record [k, n, t, v]:                                        *)
(*   "void" | "b" basic | "rec" struct or union | "inc" incomplete one |   *)
(*   "enum" (n: its name)  | "td" typedef n of t[1]                        *)
(*   "ptr" "const" of t[1] | "arr" n elements of t[1]                      *)
(*   "fn" t = <<result, parameters...>>, v: followed by ...                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Ty(k, n, t, v) == [k |-> k, n |-> n, t |-> t, v |-> v]
Leaf(k, n) == Ty(k, n, <<>>, FALSE)
Void == Leaf("void", "")
Basic(n) == Leaf("b", n)
PtrTo(x) == Ty("ptr", "", <<x>>, FALSE)
ConstOf(x) == Ty("const", "", <<x>>, FALSE)
ArrOf(x, n) == Ty("arr", n, <<x>>, FALSE)
FnOf(r, ps, v) == Ty("fn", "", <<r>> \o ps, v)
TdOf(n, x) == Ty("td", n, <<x>>, FALSE)
SizeT == Basic("size")
Matcher == PtrTo(FnOf(Basic("int"), <<PtrTo(ConstOf(Void)), PtrTo(ConstOf(Void)), PtrTo(ConstOf(Basic("char"))), PtrTo(Basic("char"))>>, FALSE))

\* ------------------------------------------------------------------ identity of types
RECURSIVE Canon(_), WithConst(_)
DropConst(x) == IF x.k = "const" THEN x.t[1] ELSE x
\* what a parameter of a canonical type really is
Adjust(x) ==
  IF x.k = "arr" THEN PtrTo(x.t[1]) ELSE IF x.k = "fn" THEN PtrTo(x) ELSE DropConst(x)
WithConst(x) ==
  CASE x.k = "arr" -> ArrOf(WithConst(x.t[1]), x.n)     \* the elements are const
    [] x.k \in {"const", "fn"} -> x
    [] OTHER -> ConstOf(x)
\* without typedefs; two spellings of the same type become equal
Canon(x) ==
  CASE x.k = "td" -> Canon(x.t[1])
    [] x.k = "const" -> WithConst(Canon(x.t[1]))
    [] x.k = "fn" -> FnOf(DropConst(Canon(x.t[1])), [i \in 1..(Len(x.t) - 1) |-> Adjust(Canon(x.t[i + 1]))], x.v)
    [] OTHER -> [x EXCEPT !.t = [i \in DOMAIN x.t |-> Canon(x.t[i])]]

\* ------------------------------------------------------------------ declarations
Ret(f) == f.t[1]
Params(f) == Tail(f.t)
RetParam(f) == IF Canon(Ret(f)) = Void THEN <<>> ELSE <<Ret(f)>>
RECURSIVE ThroughTd(_), IsConst(_), Peel(_)
ThroughTd(x) == IF x.k = "td" THEN ThroughTd(x.t[1]) ELSE x
IsConst(x) == Canon(x).k = "const"
Peel(x) == IF x.k = "ptr" THEN Peel(x.t[1]) ELSE x
(* Can a function write through a parameter declared with this type, and is *)
(* the size of what it writes known?  A pointer that a typedef stands for   *)
(* is an opaque handle.                                                     *)
OutKind(x) ==
  LET d == DropConst(x) IN
  IF d.k \notin {"ptr", "arr"} THEN "none"
  ELSE LET to == Peel(d.t[1]) c == Canon(to) IN
       CASE c.k \in {"const", "fn"} \/ (c.k = "arr" /\ IsConst(c.t[1])) -> "none"
         [] c.k \in {"void", "inc"} -> "raw"
         [] OTHER -> "sized"
RECURSIVE OutParams(_)
OutParams(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE (CASE OutKind(Head(ps)) = "none" -> <<>>
          [] OutKind(Head(ps)) = "raw" -> <<Head(ps), SizeT>>
          [] OTHER -> <<Head(ps)>>) \o OutParams(Tail(ps))
Matchers(f) == [i \in 1..Len(Params(f)) |-> Matcher]
\* the functions the mock of f offers
ExpectAndReturn(f) == Canon(FnOf(Void, Params(f) \o RetParam(f) \o Matchers(f), FALSE))
HasOutputs(f) == \E i \in 1..Len(Params(f)) : OutKind(Params(f)[i]) # "none"
ExpectReturnAndOutput(f) == Canon(FnOf(Void, Params(f) \o RetParam(f) \o Matchers(f) \o OutParams(Params(f)), FALSE))

\* ------------------------------------------------------------------ the grammar of supported declarations
Object(x) == Canon(x).k \notin {"void", "inc", "fn"} /\ (Canon(x).k = "const" => Canon(x).t[1].k \notin {"void", "inc"})
RECURSIVE Legal(_), Supported(_)
Legal(x) ==      \* in ISO C
  /\ \A i \in DOMAIN x.t : Legal(x.t[i])
  /\ x.k = "const" => Canon(x.t[1]).k \notin {"fn", "const"}
  /\ x.k = "arr" => Object(x.t[1])
  /\ x.k = "fn" => /\ Canon(Ret(x)).k \notin {"arr", "fn", "inc"} /\ (Canon(Ret(x)).k = "const" => Canon(Ret(x)).t[1].k \notin {"inc", "void"})
                   /\ \A i \in 1..Len(Params(x)) : Canon(Params(x)[i]).k \notin {"void", "inc", "const"} \/ Object(Params(x)[i])
                   /\ (x.v => Len(x.t) > 1)
NoArr(x) == Canon(x).k # "arr" /\ (Canon(x).k = "const" => Canon(x).t[1].k # "arr")
TdConst(x) == x.k = "td" /\ IsConst(x)
Supported(x) ==  \* of these, what EasyMock claims: no arrays within other types, no result const by a typedef
  /\ \A i \in DOMAIN x.t : Supported(x.t[i])
  /\ x.k \in {"ptr", "const", "arr"} => NoArr(x.t[1])
  /\ x.k = "fn" => ~TdConst(Ret(x)) /\ \A i \in 1..Len(x.t) : x.t[i].k = "td" => NoArr(x.t[i])
=============================================================================
