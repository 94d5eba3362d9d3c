------------------------------ MODULE MCCType ------------------------------
(* Every type built from a few leaves in up to Depth steps, as parameter    *)
(* and as result; laws of the type calculus; the types are emitted.         *)
EXTENDS CType, Json
CONSTANT Depth
VARIABLES ty, d
I == Basic("int")
Leaves == {Void, I, Basic("char"), Basic("_Bool"), Basic("signed char"), Leaf("rec", "struct sa"), Leaf("inc", "struct si"), Leaf("enum", "enum ea"),
           TdOf("td_int", I), TdOf("td_ptr", PtrTo(I)), TdOf("td_cptr", PtrTo(ConstOf(Basic("char")))), TdOf("td_rec", Leaf("rec", "struct sa")),
           TdOf("td_void", Void), TdOf("td_inc", Leaf("inc", "struct si")),
           TdOf("td_fn", FnOf(I, <<Basic("char")>>, FALSE)), TdOf("td_fnp", PtrTo(FnOf(Void, <<I>>, TRUE))), TdOf("td_td", TdOf("td_int", I)),
           TdOf("td_con", ConstOf(I)), TdOf("td_conrec", TdOf("td_conrec0", ConstOf(Leaf("rec", "struct sa")))), TdOf("td_conptr", ConstOf(PtrTo(I)))}
Grow(x) == {PtrTo(x), ConstOf(x), ArrOf(x, "3"), ArrOf(x, ""), FnOf(x, <<>>, FALSE), FnOf(x, <<I>>, TRUE),
            FnOf(Void, <<x>>, FALSE), FnOf(I, <<I, x>>, TRUE)}
Ok(x) == Legal(x) /\ Supported(x)
Init == ty \in Leaves /\ d = 0
Next == d < Depth /\ d' = d + 1 /\ ty' \in {y \in Grow(ty) : Ok(y) /\ ~(y.k = "const" /\ IsConst(ty))}
Spec == Init /\ [][Next]_<<ty, d>>
AsParam == Ok(ty) /\ (Object(ty) \/ Canon(ty).k = "fn")
AsRet == Ok(ty) /\ ~TdConst(ty) /\ Canon(ty).k \notin {"arr", "fn", "inc"} /\ (Canon(ty).k = "const" => Canon(ty).t[1].k \notin {"inc", "arr", "void"})
\* ---- laws
CanonIdempotent == Canon(Canon(ty)) = Canon(ty)
RECURSIVE NoTd(_)
NoTd(x) == x.k # "td" /\ \A i \in DOMAIN x.t : NoTd(x.t[i])
CanonHasNoTypedef == NoTd(Canon(ty))
ConstIdempotent == Canon(ConstOf(ConstOf(ty))) = Canon(ConstOf(ty))
\* the signature of a function doesn't depend on how its parameters are spelled
SameSignature == AsParam /\ Canon(ty).k \notin {"arr", "fn"} => Canon(FnOf(Void, <<ty>>, FALSE)) = Canon(FnOf(Void, <<ConstOf(Canon(ty))>>, FALSE))
\* only pointers and arrays can be written through, and never through const or functions
OutOnlyThroughPointers == AsParam =>
  /\ OutKind(ty) # "none" => Adjust(DropConst(Canon(ty))).k = "ptr"
  /\ Canon(ty).k # "arr" /\ ty.k # "const" => OutKind(ConstOf(ty)) = OutKind(ty)
  /\ ty.k = "ptr" /\ OutKind(ty) = "none" => Peel(Canon(ty)).k \in {"const", "fn"}
F == FnOf(Void, <<I, ty>>, FALSE)
Counts == AsParam =>
  /\ Len(ExpectAndReturn(F).t) = 1 + 2 + 2
  /\ Len(ExpectReturnAndOutput(F).t) = Len(ExpectAndReturn(F).t) + (CASE OutKind(ty) = "none" -> 0 [] OutKind(ty) = "raw" -> 2 [] OTHER -> 1)
Emit == (AsParam \/ AsRet) => PrintT("TYPE " \o ToJson([ty |-> ty, param |-> AsParam, ret |-> AsRet]))
=============================================================================
