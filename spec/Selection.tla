----------------------------- MODULE Selection -----------------------------
(***************************************************************************)
(* Which functions of a header are mocked (C17).                           *)
(*                                                                         *)
(* A translation unit is a sequence of events: a function is declared, in  *)
(* one of several ways, in the header itself or in a file it includes; a   *)
(* macro of the name of a function is defined or undefined.  The parser's  *)
(* view is built up event by event (Scan); the verdict of the property is  *)
(* taken from the whole history (Selected).                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* Ways to declare a function. extern: external linkage required / internal / by the first declaration
Kinds == {"proto", "extern", "noproto", "alias", "paren", "typedefd", "weak",
          "noret", "noretkw", "noretmac",
          "def", "inldef", "inlproto", "externinl",
          "static", "statdef", "statinl"}
HasBody(k)  == k \in {"def", "inldef", "externinl", "statdef", "statinl"}
IsStatic(k) == k \in {"static", "statdef", "statinl"}
IsInline(k) == k \in {"inldef", "inlproto", "externinl", "statinl"}
IsNoRet(k)  == k \in {"noret", "noretkw", "noretmac"}
MacroKinds == {"mself", "mfun", "undef"}
Files == {"main", "inc", "deep", "sub"}   \* sub: a file of the same name in another directory

\* An event: [k |-> kind, f |-> file]
IsDecl(e) == e.k \in Kinds
Range(s) == {s[i] : i \in 1..Len(s)}
Decls(h) == SelectSeq(h, IsDecl)

\* Is the history C?
Undefined(h) == \A i \in 1..Len(h) : h[i].k \notin {"mself", "mfun"} \/ \E j \in i+1..Len(h) : h[j].k = "undef"
MacroNow(h) == ~Undefined(h)
LastMacro(h) == LET ms == SelectSeq(h, LAMBDA e : e.k \in MacroKinds) IN IF ms = <<>> THEN "undef" ELSE ms[Len(ms)].k
AnyOf(h, P(_)) == \E e \in Range(Decls(h)) : P(e.k)
Legal(h, e) ==
  CASE e.k = "undef" -> MacroNow(h)
    [] e.k \in {"mself", "mfun"} -> ~MacroNow(h)
    [] OTHER -> /\ (HasBody(e.k) => ~AnyOf(h, HasBody))
                /\ (IsStatic(e.k) => Decls(h) = <<>> \/ AnyOf(h, IsStatic))
                \* a plain redeclaration of a static function is allowed, one that says otherwise is not asked for
                /\ (AnyOf(h, IsStatic) => e.k \in {"static", "statdef", "statinl", "proto"})
                \* a function declared under another name is plain
                /\ (e.k \in {"alias", "typedefd", "noproto", "weak"} => ~AnyOf(h, IsInline) /\ ~AnyOf(h, IsStatic))
                /\ (AnyOf(h, LAMBDA k : k \in {"alias", "typedefd", "noproto", "weak"}) => ~IsInline(e.k) /\ ~IsStatic(e.k))
                \* GNU inline and C99 inline differ about these
                /\ (e.k = "inlproto" => Decls(h) = <<>> \/ AnyOf(h, IsInline))
                /\ (AnyOf(h, IsInline) => IsInline(e.k) \/ e.k = "proto")
                /\ (IsNoRet(e.k) => ~AnyOf(h, IsInline) /\ ~AnyOf(h, IsStatic))
                /\ (AnyOf(h, IsNoRet) => ~IsInline(e.k) /\ ~IsStatic(e.k))
                \* _Noreturn has to be on the first declaration in practice
                /\ (e.k = "noretkw" => Decls(h) = <<>> \/ AnyOf(h, IsNoRet))
                \* the macro would be expanded
                /\ (LastMacro(h) = "mfun" => e.k \in {"paren"})
                /\ (e.k = "paren" => ~AnyOf(h, IsStatic) /\ ~AnyOf(h, IsInline))

-----------------------------------------------------------------------------
\* The verdict. o: [types, incl, only (are there --mock-only names), inonly, inign]
Visible(e, o) == IsDecl(e) /\ (e.f = "main" \/ o.incl)
Replaceable(h) == \A e \in Range(Decls(h)) : ~HasBody(e.k) /\ ~IsStatic(e.k) /\ ~IsInline(e.k) /\ ~IsNoRet(e.k)
Selected(h, o) ==
  /\ \E e \in Range(h) : Visible(e, o)
  /\ (o.only => o.inonly)
  /\ ~o.inign
  /\ ~MacroNow(h)
  /\ (~o.types => Replaceable(h))

-----------------------------------------------------------------------------
\* The machine: one pass over the translation unit, in constant memory per function
VARIABLES hist,      \* what has been read
          seen,      \* files in which the function has been declared
          barred,    \* something that cannot be replaced has been seen
          macro      \* is the name a macro now
svars == <<hist, seen, barred, macro>>
SelInit == hist = <<>> /\ seen = {} /\ barred = FALSE /\ macro = FALSE
Scan(e) ==
  /\ Legal(hist, e)
  /\ hist' = Append(hist, e)
  /\ IF IsDecl(e)
     THEN /\ seen' = seen \union {e.f}
          /\ barred' = (barred \/ HasBody(e.k) \/ IsStatic(e.k) \/ IsInline(e.k) \/ IsNoRet(e.k))
          /\ UNCHANGED macro
     ELSE macro' = (e.k # "undef") /\ UNCHANGED <<seen, barred>>
Mocked(o) == /\ ("main" \in seen \/ (o.incl /\ seen # {}))
             /\ (o.only => o.inonly) /\ ~o.inign /\ ~macro /\ (o.types \/ ~barred)
OptionSets == [types : BOOLEAN, incl : BOOLEAN, only : BOOLEAN, inonly : BOOLEAN, inign : BOOLEAN]
\* one pass is enough
OnePass == \A o \in OptionSets : Mocked(o) <=> Selected(hist, o)
\* options only ever take away, or add what they name
Monotone == \A o \in OptionSets :
              /\ Selected(hist, o) => Selected(hist, [o EXCEPT !.incl = TRUE])
              /\ Selected(hist, o) => Selected(hist, [o EXCEPT !.types = TRUE])
              /\ Selected(hist, [o EXCEPT !.inign = TRUE]) => FALSE
\* the order of declarations does not matter
OrderFree == \A o \in OptionSets : LET d == Decls(hist) IN
               d # <<>> => (Selected(d, o) <=> Selected([i \in 1..Len(d) |-> d[Len(d) + 1 - i]], o))
=============================================================================
