---------------------------- MODULE BatchesTrace ----------------------------
(***************************************************************************)
(* The same rows, written several times with the same options: runs are    *)
(* [batches, ok, stripes, stats, bytes]. Whatever the Write calls were,    *)
(* stripes and statistics are those of the first run; the same calls give  *)
(* the same bytes (a digest of them).                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
T == Traces[tid]
R == T.events[i]
First == T.events[1]

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

Init == tid \in 1..Len(Traces) /\ i = 1
Run ==
  /\ i <= Len(T.events)
  /\ R.op = "run" /\ R.ok
  /\ Sum(R.batches) = T.n                  \* the rows were the same
  /\ Sum(R.stripes) = T.n
  /\ \A j \in 1..Len(R.stripes) : R.stripes[j] > 0
  /\ R.stripes = First.stripes
  /\ R.stats = First.stats
  /\ \A j \in 1..(i - 1) : T.events[j].batches = R.batches => T.events[j].bytes = R.bytes
  /\ i' = i + 1 /\ tid' = tid
Next == Run \/ (i > Len(T.events) /\ UNCHANGED <<tid, i>>)
Spec == Init /\ [][Next]_<<tid, i>>
==============================================================================
