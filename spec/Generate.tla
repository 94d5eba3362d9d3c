------------------------------ MODULE Generate ------------------------------
(***************************************************************************)
(* One run of EasyMockGenerate as seen from the outside: it reads a        *)
(* header, writes two files, and tells through its exit status whether the *)
(* mock exists.  The environment decides what state the header, the output *)
(* directory and the two target files are in, and may cut writes short.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Headers,   \* versions of the header that parse
          BrokenHs,  \* versions of the header that do not parse
          Options    \* option sets; each says whether parser errors are ignored: [id, ign]

HdrStates == Headers \union BrokenHs \union {"missing", "dir"}
OutStates == {"ok", "missing", "file"}
\* a target may be absent, hold something, be impossible to create, or refuse the data
Blocked == {<<"isdir">>, <<"full">>}   \* what a target holds is a tuple, so that it can be compared with Content

VARIABLES hdr, out, c, h,   \* the world
          pc, opt, status, said
gvars == <<hdr, out, c, h, pc, opt, status, said>>

Content(kind, v, o) == <<kind, v, o.id>>

Readable == hdr \notin {"missing", "dir"}
Parses(o) == hdr \in Headers \/ o.ign
\* Whether the run has to succeed
MustSucceed(o, short) == Readable /\ out = "ok" /\ Parses(o) /\ c \notin Blocked /\ h \notin Blocked /\ ~short

Begin(o) ==
  /\ pc = "idle"
  /\ opt' = o
  /\ IF Readable /\ out = "ok" THEN pc' = "parse" /\ UNCHANGED <<status, said>>
                               ELSE pc' = "done" /\ status' = 1 /\ said' = TRUE
  /\ UNCHANGED <<hdr, out, c, h>>

Parse ==
  /\ pc = "parse"
  /\ IF Parses(opt) THEN pc' = "write" /\ UNCHANGED <<status, said>>
                    ELSE pc' = "done" /\ status' = 1 /\ said' = TRUE
  /\ UNCHANGED <<hdr, out, c, h, opt>>

\* Writing may be cut short by the environment at any file
Fail == pc' = "done" /\ status' = 1 /\ said' = TRUE
WriteC ==
  /\ pc = "write"
  /\ c # Content("c", hdr, opt)
  /\ \/ c \notin Blocked /\ c' = Content("c", hdr, opt) /\ pc' = (IF h = Content("h", hdr, opt) THEN "exit" ELSE "write")
        /\ UNCHANGED <<status, said>>
     \/ c \notin Blocked /\ c' = <<"partial">> /\ Fail
     \/ c \in Blocked /\ c' = c /\ Fail
  /\ UNCHANGED <<hdr, out, h, opt>>
WriteH ==
  /\ pc = "write"
  /\ h # Content("h", hdr, opt)
  /\ \/ h \notin Blocked /\ h' = Content("h", hdr, opt) /\ pc' = (IF c = Content("c", hdr, opt) THEN "exit" ELSE "write")
        /\ UNCHANGED <<status, said>>
     \/ h \notin Blocked /\ h' = <<"partial">> /\ Fail
     \/ h \in Blocked /\ h' = h /\ Fail
  /\ UNCHANGED <<hdr, out, c, opt>>
\* both files were already there with this very content
Fresh == pc = "write" /\ c = Content("c", hdr, opt) /\ h = Content("h", hdr, opt) /\ pc' = "exit" /\ UNCHANGED <<hdr, out, c, h, opt, status, said>>
Exit == pc = "exit" /\ pc' = "done" /\ status' = 0 /\ said' = FALSE /\ UNCHANGED <<hdr, out, c, h, opt>>
Collect == pc = "done" /\ pc' = "idle" /\ status' = 2 /\ said' = FALSE /\ UNCHANGED <<hdr, out, c, h, opt>>
RunStep == (\E o \in Options : Begin(o)) \/ Parse \/ WriteC \/ WriteH \/ Fresh \/ Exit \/ Collect

\* The environment, between runs
Edit == pc = "idle" /\ \E v \in HdrStates : hdr' = v /\ UNCHANGED <<out, c, h, pc, opt, status, said>>
Output == pc = "idle" /\ \E x \in OutStates : out' = x /\ UNCHANGED <<hdr, c, h, pc, opt, status, said>>
Target == pc = "idle" /\ \E x \in Blocked \union {<<"absent">>, <<"stale">>} :
            ((c' = x /\ UNCHANGED h) \/ (h' = x /\ UNCHANGED c)) /\ UNCHANGED <<hdr, out, pc, opt, status, said>>

GInit == hdr \in HdrStates /\ out = "ok" /\ c = <<"absent">> /\ h = <<"absent">> /\ pc = "idle" /\ opt = (CHOOSE o \in Options : TRUE)
         /\ status = 2 /\ said = FALSE
GNext == RunStep \/ Edit \/ Output \/ Target
GSpec == GInit /\ [][GNext]_gvars

\* C16
ZeroMeansMocks == (pc = "done" /\ status = 0) => /\ c = Content("c", hdr, opt) /\ h = Content("h", hdr, opt)
                                                 /\ (hdr \in Headers \/ opt.ign) /\ out = "ok"
FailureSpeaks  == (pc = "done" /\ status # 0) => said
HeaderUntouched == [][pc # "idle" => hdr' = hdr]_gvars
\* without faults a run that must succeed does
Succeeds == (pc = "done" /\ MustSucceed(opt, FALSE) /\ c # <<"partial">> /\ h # <<"partial">>) => status = 0
=============================================================================
