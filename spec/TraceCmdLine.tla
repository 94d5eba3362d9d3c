---------------------------- MODULE TraceCmdLine ----------------------------
(***************************************************************************)
(* Judges what the real command line parser and the real executable did    *)
(* with argument vectors.                                                  *)
(*  parse: CmdLineParser::getParsedArguments called in process             *)
(*  run:   EasyMockGenerate executed; the configuration is observed        *)
(*         through its effects on a header made for it (Effects).          *)
(***************************************************************************)
EXTENDS CmdLine, TraceLines

CfgOf(e) == [single |-> [o \in SingleOpts |-> e.single[o]],
             multi  |-> [o \in MultiOpts |-> SetOf(e.multi[o])],
             flags  |-> SetOf(e.flags), extra |-> e.extra]
Plain(cfg) == [single |-> cfg.single, multi |-> cfg.multi, flags |-> cfg.flags, extra |-> cfg.extra]

ParseGood(e) ==
  LET s == Scan(e.vec)
      files == SetOf(e.files)
      dirs == SetOf(e.dirs)
      out == Outcome(s, files, dirs)
      namesFault == SetOf(e.names) \intersect Faults(s, files, dirs) # {}
  IN CASE out = "help"  -> e.kind = "help" \/ (e.kind = "error" /\ namesFault)
       [] out = "error" -> e.kind = "error" /\ namesFault
       [] out = "ok"    -> e.kind = "ok" /\ CfgOf(e) = Plain(s.cfg)

------------------------------------------------------------------------------
\* What the extra arguments define for the preprocessor: the last word on macro A
RECURSIVE MacroA(_, _)
MacroA(x, cur) ==
  IF x = <<>> THEN cur
  ELSE CASE x[1] = "-DA=1" -> MacroA(Tail(x), "1")
         [] x[1] = "-DA=2" -> MacroA(Tail(x), "2")
         [] x[1] = "-UA"   -> MacroA(Tail(x), "")
         [] x[1] = "-D" /\ Len(x) > 1 -> MacroA(Tail(Tail(x)), IF x[2] = "A=3" THEN "3" ELSE IF x[2] = "A=4" THEN "4" ELSE cur)
         [] OTHER -> MacroA(Tail(x), cur)
\* the first -I directory that has the included header
RECURSIVE IncDir(_)
IncDir(x) ==
  IF x = <<>> THEN ""
  ELSE CASE x[1] = "-Iinc1" -> "1"
         [] x[1] = "-Iinc2" -> "2"
         [] x[1] = "-I" /\ Len(x) > 1 -> IF x[2] = "inc1" THEN "1" ELSE IF x[2] = "inc2" THEN "2" ELSE IncDir(Tail(Tail(x)))
         [] OTHER -> IncDir(Tail(x))
Has(x, t) == \E i \in 1..Len(x) : x[i] = t

Declared(cfg) ==
  {"fa", "fb", "fmt", "old"} \union
  {IF MacroA(cfg.extra, "") = "" THEN "ext_none" ELSE "ext_" \o MacroA(cfg.extra, "")} \union
  {IF IncDir(cfg.extra) = "" THEN "inc_none" ELSE "inc_" \o IncDir(cfg.extra)}
Included(cfg) == IF IncDir(cfg.extra) = "" THEN {} ELSE {"sub_" \o IncDir(cfg.extra)}
Mocked(cfg) ==
  LET all == Declared(cfg) \union (IF "--generate-included-functions" \in cfg.flags THEN Included(cfg) ELSE {})
      only == cfg.multi["--mock-only"]
  IN (IF only = {} THEN all ELSE all \intersect only) \ cfg.multi["--ignore-generation-of"]
Types == "--generate-types"
Effects(cfg) ==
  LET m == Mocked(cfg)
      t == "--generate-types" \in cfg.flags
      cmps == cfg.multi["--generate-comparator-of"]
      used == (IF "fa" \in m THEN {"S1"} ELSE {}) \union (IF "fb" \in m THEN {"S2"} ELSE {})
  IN [fns    |-> m,
      ext    |-> IF "--mock-cpp" \in cfg.flags THEN "cpp" ELSE "c",
      types  |-> t,
      fields |-> IF t THEN used \ cfg.multi["--ignore-field-generation-of"] ELSE {},
      cmps   |-> IF "EasyMock_all_comparators" \in cmps THEN used ELSE used \intersect cmps,
      attrs  |-> IF t THEN ((IF "fmt" \in m THEN {"format"} ELSE {}) \union (IF "old" \in m THEN {"deprecated"} ELSE {}))
                           \intersect cfg.multi["--generate-attribute"] ELSE {}]
RunGood(e) ==
  LET s == Scan(e.vec)
      files == SetOf(e.files)
      dirs == SetOf(e.dirs)
      out == Outcome(s, files, dirs)
      namesFault == SetOf(e.names) \intersect Faults(s, files, dirs) # {}
      broken == Has(s.cfg.extra, "-DBAD") /\ "--ignore-parser-error" \notin s.cfg.flags
      fx == Effects(s.cfg)
      cwd == s.cfg.single["--cwd"]
  IN CASE out = "help"  -> (e.exit = 0 /\ e.help /\ ~e.wrote) \/ (e.exit # 0 /\ namesFault /\ ~e.wrote)
       [] out = "error" -> e.exit # 0 /\ namesFault /\ ~e.wrote
       [] out = "ok" /\ cwd # "" /\ cwd \notin dirs -> e.exit # 0 /\ e.diag /\ ~e.wrote
       [] out = "ok" /\ broken -> e.exit # 0 /\ e.diag
       [] out = "ok" /\ ~broken ->
            /\ e.exit = 0 /\ e.wrote /\ e.where = Resolve(cwd, s.cfg.single["-o"])
            /\ SetOf(e.fns) = fx.fns
            /\ e.ext = fx.ext /\ e.types = fx.types /\ SetOf(e.fields) = fx.fields
            /\ SetOf(e.cmps) = fx.cmps /\ SetOf(e.attrs) = fx.attrs

Want(e) == LET s == Scan(e.vec) IN [outcome |-> Outcome(s, SetOf(e.files), SetOf(e.dirs)), cfg |-> Plain(s.cfg),
                                    faults |-> Faults(s, SetOf(e.files), SetOf(e.dirs)), effects |-> Effects(s.cfg)]
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN LStep(IF e.op = "parse" THEN ParseGood(e) ELSE RunGood(e), Want(e))
Spec == LInit /\ [][Next]_l
=============================================================================
