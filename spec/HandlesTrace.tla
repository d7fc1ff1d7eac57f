---------------------------- MODULE HandlesTrace ----------------------------
(* Recorded file operations and calls are steps of Handles.                *)
EXTENDS Handles, Sequences, Integers, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, fds
T == Traces[tid]
E == T.events[i]

TraceInit == Init /\ tid \in 1..Len(Traces) /\ i = 1 /\ fds = 0

IsEvent(op) == i <= Len(T.events) /\ E.op = op /\ i' = i + 1 /\ tid' = tid

Fs == IsEvent("fs") /\ UNCHANGED <<live, holds, fds>> /\
  CASE E.what = "open" -> FsOpen(E.h)
    [] E.what = "clone" -> IF E.fail THEN FsUse(E.from) ELSE FsClone(E.from, E.h)
    [] E.what = "use" -> FsUse(E.h)
    [] E.what = "close" -> FsClose(E.h)

Quiet == UNCHANGED <<open, next, holds, fds>>

TraceNext ==
  \/ Fs
  \* descriptors of the real file system that refer to the file
  \/ IsEvent("fds") /\ UNCHANGED vars /\ fds' = E.n /\ (live = {} => E.n = 0)
  \/ IsEvent("wcreate") /\ Quiet /\ IF E.ok THEN Begin("w") ELSE UNCHANGED live
  \/ IsEvent("write") /\ Quiet /\ UNCHANGED live
  \/ IsEvent("wclose") /\ Quiet /\ End("w")
  \/ IsEvent("open") /\ Quiet /\ IF E.ok THEN Begin("r") ELSE UNCHANGED live
  \* the caller of a failed open or create still has the handle it gave, and nothing else is open
  \/ IsEvent("failed") /\ Quiet /\ UNCHANGED live /\ (live = {} => open \subseteq {E.h})
  \/ IsEvent("create") /\ Quiet /\ IF E.ok THEN Begin(E.r) ELSE UNCHANGED live
  \/ IsEvent("next") /\ Quiet /\ UNCHANGED live
  \/ IsEvent("seek") /\ Quiet /\ UNCHANGED live
  \/ IsEvent("close") /\ Quiet /\ End(E.r)
  \/ IsEvent("closereader") /\ Quiet /\ End("r")
  \/ i > Len(T.events) /\ UNCHANGED <<vars, tid, i, fds>>

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, i, fds>>
==============================================================================
