------------------------------ MODULE CString ------------------------------
(***************************************************************************)
(* The framework's string type as its users see it: a text per string, kept *)
(* here as runs <<character, count>>, and the life of the string.           *)
(* Below, the storage of the implementation (a buffer in the object, then   *)
(* one on the heap) as a refinement, with its bounds.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Slots, Inner      \* Inner: size of the buffer in the object, in characters
VARIABLES str,              \* per slot: [st |-> "none"|"live"|"freed", runs |-> ...]
          mem               \* per slot: [heap |-> BOOLEAN, cap |-> capacity, used |-> characters with the terminator]
cvars == <<str, mem>>

\* ------------------------------------------------------------------ texts
RECURSIVE Size(_), Norm(_), Cmp(_, _)
Size(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Size(Tail(r))
Norm(r) ==
  IF r = <<>> THEN <<>>
  ELSE IF r[1][2] = 0 THEN Norm(Tail(r))
  ELSE LET t == Norm(Tail(r)) IN
       IF t # <<>> /\ t[1][1] = r[1][1] THEN << <<r[1][1], r[1][2] + t[1][2]>> >> \o Tail(t) ELSE << r[1] >> \o t
\* comparison of two texts in normal form: characters are numbers
Cmp(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE IF a[1][1] # b[1][1] THEN (IF a[1][1] < b[1][1] THEN -1 ELSE 1)
  ELSE LET m == IF a[1][2] < b[1][2] THEN a[1][2] ELSE b[1][2]
           cut(x) == IF x[1][2] = m THEN Tail(x) ELSE << <<x[1][1], x[1][2] - m>> >> \o Tail(x)
       IN Cmp(cut(a), cut(b))

\* ------------------------------------------------------------------ the strings
CInit == /\ str = [s \in Slots |-> [st |-> "none", runs |-> <<>>]]
         /\ mem = [s \in Slots |-> [heap |-> FALSE, cap |-> Inner, used |-> 1]]
Live(s) == str[s].st = "live"
\* storage after appending n characters to a string with m
Store(m, n) ==
  LET need == m.used + n IN
  IF m.heap THEN [heap |-> TRUE, cap |-> need, used |-> need]
  ELSE IF need <= Inner THEN [heap |-> FALSE, cap |-> Inner, used |-> need]
  ELSE [heap |-> TRUE, cap |-> need, used |-> need]
Fresh == [heap |-> FALSE, cap |-> Inner, used |-> 1]
New(s) == /\ ~Live(s)
          /\ str' = [str EXCEPT ![s] = [st |-> "live", runs |-> <<>>]]
          /\ mem' = [mem EXCEPT ![s] = Fresh]
NewInit(s, r) == /\ ~Live(s)
                 /\ str' = [str EXCEPT ![s] = [st |-> "live", runs |-> Norm(r)]]
                 /\ mem' = [mem EXCEPT ![s] = Store(Fresh, Size(r))]
Append2(s, r) == /\ Live(s)
                 /\ str' = [str EXCEPT ![s].runs = Norm(@ \o r)]
                 /\ mem' = [mem EXCEPT ![s] = Store(@, Size(r))]
AppendOf(s, t) == /\ Live(s) /\ Live(t) /\ s # t
                  /\ str' = [str EXCEPT ![s].runs = Norm(@ \o str[t].runs)]
                  /\ mem' = [mem EXCEPT ![s] = Store(@, Size(str[t].runs))]
\* freeing: the first time ends the life of the string, further ones do nothing
Free(s) == /\ str[s].st # "none"
           /\ str' = [str EXCEPT ![s] = [st |-> "freed", runs |-> <<>>]]
           /\ mem' = [mem EXCEPT ![s] = [@ EXCEPT !.heap = FALSE, !.cap = Inner, !.used = 1]]

\* ------------------------------------------------------------------ what must hold
InBounds == \A s \in Slots : mem[s].used <= mem[s].cap
UsedIsSize == \A s \in Slots : Live(s) => mem[s].used = Size(str[s].runs) + 1
HeapWhenNeeded == \A s \in Slots : Live(s) /\ Size(str[s].runs) >= Inner => mem[s].heap
Antisym == \A s, t \in Slots : Cmp(str[s].runs, str[t].runs) = -Cmp(str[t].runs, str[s].runs)
EqualIsSame == \A s, t \in Slots : (Cmp(str[s].runs, str[t].runs) = 0) = (str[s].runs = str[t].runs)
NoHeapWhenFreed == \A s \in Slots : ~Live(s) => ~mem[s].heap
=============================================================================
