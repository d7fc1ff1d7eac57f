------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* File handles of one file.  What the library opens or clones it closes,  *)
(* once, and uses only while it is open.  Live objects are the writer, the *)
(* reader and batch readers; without any of them no handle is open (C18).  *)
(*                                                                         *)
(* How many handles an object holds is the library's choice; the closed    *)
(* model lets a batch reader hold up to Streams of them for a stripe.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Readers, Streams, MaxHandles

VARIABLES
  open,    \* open handles
  next,    \* handles ever opened
  live,    \* objects that are not closed: "w", "r", batch readers
  holds    \* handles of every object

vars == <<open, next, live, holds>>

Objects == {"w", "r"} \cup Readers

Init == open = {} /\ next = 0 /\ live = {} /\ holds = [o \in Objects |-> {}]

(* Steps of the file system                                                *)
FsOpen(h) == h = next + 1 /\ next' = h /\ open' = open \cup {h}
FsClone(from, h) == from \in open /\ FsOpen(h)
FsUse(h) == h \in open /\ UNCHANGED <<open, next>>
FsClose(h) == h \in open /\ open' = open \ {h} /\ UNCHANGED next

(* Calls, at their return                                                  *)
Calm == live' = {} => open = {}
Begin(o) == o \notin live /\ live' = live \cup {o}
End(o) == live' = live \ {o} /\ Calm

------------------------------------------------------------------------------
Opened(o, n) == LET new == {next + j : j \in 1..n} IN
  /\ next + n <= MaxHandles
  /\ next' = next + n
  /\ open' = (open \ holds[o]) \cup new
  /\ holds' = [holds EXCEPT ![o] = new]

Next ==
  \/ /\ live = {} /\ \E o \in {"w", "r"} : Opened(o, 1) /\ live' = {o}
  \/ \E r \in Readers :
       \/ /\ "r" \in live /\ r \notin live
          /\ \E n \in 1..Streams : Opened(r, n) /\ live' = live \cup {r}
       \* the next stripe, or another one by Seek: handles of the last one are closed; or it fails, and none is held
       \/ /\ r \in live /\ \E n \in 0..Streams : Opened(r, n) /\ UNCHANGED live
  \/ \E o \in live : Opened(o, 0) /\ live' = live \ {o}

Spec == Init /\ [][Next]_vars

TypeOK == open \subseteq 1..next /\ live \subseteq Objects
Held == open = UNION {holds[o] : o \in live}
NothingLeft == live = {} => open = {}
==============================================================================
