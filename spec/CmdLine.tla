------------------------------- MODULE CmdLine -------------------------------
(***************************************************************************)
(* The command line of EasyMockGenerate: a scanner that consumes the       *)
(* argument vector one token at a time and ends with help, with an error   *)
(* about one option, or with a complete configuration.                     *)
(* The file system is a constant: which paths are regular files and which  *)
(* are directories, seen from the directory the process starts in.         *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets, TLC

SingleOpts == {"-i", "-o", "--cwd"}
MultiOpts  == {"--mock-only", "--ignore-generation-of", "--ignore-field-generation-of",
               "--generate-comparator-of", "--generate-attribute"}
FlagOpts   == {"--generate-types", "--generate-included-functions", "--mock-cpp", "--ignore-parser-error"}
HelpOpts   == {"-h", "--help"}
Known      == SingleOpts \union MultiOpts \union FlagOpts \union HelpOpts

StartsWith(s, c) == IF Len(s) = 0 THEN FALSE ELSE SubSeq(s, 1, 1) = c
\* What may be the value of an option: anything that does not look like an option, and not nothing
IsValue(s) == Len(s) > 0 /\ ~StartsWith(s, "-")

Empty == [single |-> [o \in SingleOpts |-> ""], given |-> {}, multi |-> [o \in MultiOpts |-> {}], flags |-> {}, extra |-> <<>>]

\* The state of the scanner
Init0 == [pos |-> 1, st |-> "scan", bad |-> "", cfg |-> Empty]

\* One step: consume the token at pos (and its value)
Step(s, v) ==
  IF s.pos > Len(v) THEN [s EXCEPT !.st = "end"]
  ELSE LET t == v[s.pos]
           hasVal == s.pos < Len(v) /\ IsValue(v[s.pos + 1])
       IN
       IF t \in HelpOpts THEN [s EXCEPT !.st = "help"]
       ELSE IF t \in SingleOpts THEN
         IF ~hasVal \/ t \in s.cfg.given THEN [s EXCEPT !.st = "error", !.bad = t]
         ELSE [s EXCEPT !.pos = @ + 2, !.cfg.single[t] = v[s.pos + 1], !.cfg.given = @ \union {t}]
       ELSE IF t \in MultiOpts THEN
         IF ~hasVal THEN [s EXCEPT !.st = "error", !.bad = t]
         ELSE [s EXCEPT !.pos = @ + 2, !.cfg.multi[t] = @ \union {v[s.pos + 1]}]
       ELSE IF t \in FlagOpts THEN [s EXCEPT !.pos = @ + 1, !.cfg.flags = @ \union {t}]
       ELSE [s EXCEPT !.pos = @ + 1, !.cfg.extra = Append(@, t)]

RECURSIVE RunFrom(_, _)
RunFrom(s, v) == IF s.st # "scan" THEN s ELSE RunFrom(Step(s, v), v)
Scan(v) == RunFrom(Init0, v)

\* Where a path given on the command line points to
Resolve(cwd, p) == IF cwd = "" \/ StartsWith(p, "/") THEN p ELSE cwd \o "/" \o p

\* Options of a completely scanned line that make it unusable
Unusable(cfg, files, dirs) ==
     (IF "-i" \notin cfg.given \/ Resolve(cfg.single["--cwd"], cfg.single["-i"]) \notin files THEN {"-i"} ELSE {})
  \union (IF "-o" \notin cfg.given \/ Resolve(cfg.single["--cwd"], cfg.single["-o"]) \notin dirs THEN {"-o"} ELSE {})

\* What is wrong with the line as far as it was scanned: the offending options (several may be, any may be named)
Faults(s, files, dirs) ==
  CASE s.st = "error" -> {s.bad} \union (Unusable(s.cfg, files, dirs) \intersect s.cfg.given)
    [] s.st = "end"   -> Unusable(s.cfg, files, dirs)
    [] OTHER          -> Unusable(s.cfg, files, dirs) \intersect s.cfg.given

Outcome(s, files, dirs) ==
  CASE s.st = "help"  -> "help"
    [] s.st = "error" -> "error"
    [] s.st = "end"   -> IF Unusable(s.cfg, files, dirs) = {} THEN "ok" ELSE "error"
=============================================================================
