----------------------------- MODULE TailTrace -----------------------------
(* What opening files with these tails answered.  A trace: [id, events],   *)
(* an event [op, tail, ok, rows].                                          *)
EXTENDS FileTail, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i

T == Traces[tid]
E == T.events[i]
TraceInit == tid \in 1..Len(Traces) /\ i = 1
TraceNext ==
  \/ i <= Len(T.events) /\ E.op = "open" /\ MayOpen(E.tail, E.ok, E.rows) /\ i' = i + 1 /\ tid' = tid
  \/ i > Len(T.events) /\ UNCHANGED <<tid, i>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, i>>
==============================================================================
