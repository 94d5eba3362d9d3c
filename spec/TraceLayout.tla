---------------------------- MODULE TraceLayout ----------------------------
(***************************************************************************)
(* Judges headers.  A line: the environment and the functions of the        *)
(* original header (decls, roots), and the types found in the debug         *)
(* information of a file compiled against a header (got: name -> alignment  *)
(* and layout).  Every type the functions need must be there as declared.   *)
(***************************************************************************)
EXTENDS TraceLines, Layout
Env(e) == [n \in {e.env[i].n : i \in 1..Len(e.env)} |-> LET j == CHOOSE i \in 1..Len(e.env) : e.env[i].n = n IN e.env[j].t]
RECURSIVE Norm(_)
Norm(x) ==
  CASE x.k = "enum" -> [k |-> "enum", b |-> x.b, vs |-> {<<x.vs[i][1], x.vs[i][2]>> : i \in 1..Len(x.vs)}]
    [] x.k = "rec" -> [x EXCEPT !.ms = [i \in 1..Len(x.ms) |-> [x.ms[i] EXCEPT !.t = Norm(@)]]]
    [] x.k \in {"ptr", "const", "arr"} -> [x EXCEPT !.t = Norm(@)]
    [] x.k = "fn" -> [x EXCEPT !.t = [i \in 1..Len(x.t) |-> Norm(x.t[i])]]
    [] OTHER -> x
Got(e, n) == LET s == {i \in 1..Len(e.got) : e.got[i].n = n} IN IF s = {} THEN <<>> ELSE <<e.got[CHOOSE i \in s : TRUE]>>
Sized(env, n) == LET x == Resolve(env, env[n]) IN x.k \notin {"inc", "void", "fn"}
NameOk(env, e, n) == LET g == Got(e, n) IN
  IF Resolve(env, env[n]).k = "inc" /\ SubSeq(n, 1, 3) # "td " THEN TRUE
  ELSE g # <<>> /\ Norm(g[1].t) = Lay(env, env[n]) /\ (Sized(env, n) => g[1].al = Align(env, env[n]))
Bad(e) == LET env == Env(e) IN {n \in Needed(env, e.roots) : ~NameOk(env, e, n)}
\* fns: the type of the mock of every function, if there is a mock
BadFns(e) == {i \in 1..Len(e.roots) : e.fns[i] # <<>> /\ Norm(e.fns[i][1]) # Fun(Env(e), e.roots[i])}
Good(e) == e.exit = 0 /\ e.compiles /\ Bad(e) = {} /\ BadFns(e) = {}
Want(e) == IF e.exit # 0 THEN "exit 0" ELSE IF ~e.compiles THEN "compiles" ELSE LET env == Env(e) IN IF Bad(e) = {} THEN LET i == CHOOSE i \in BadFns(e) : TRUE IN ToString(<<"function", i, Fun(env, e.roots[i])>>) ELSE
    LET n == CHOOSE n \in Bad(e) : TRUE IN ToString(<<n, Lay(env, env[n])>>)
Init == LInit
Next == LStep(Good(Trace[l]), Want(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
