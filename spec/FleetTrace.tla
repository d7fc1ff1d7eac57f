----------------------------- MODULE FleetTrace -----------------------------
(***************************************************************************)
(* Steps of actors in the order they were recorded: each gives the answer  *)
(* the actor gave at this step when it was alone. T.alone[a] are these     *)
(* answers (results, errors, digests of cells delivered or bytes written). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, pos
T == Traces[tid]
E == T.events[i]

Init == tid \in 1..Len(Traces) /\ i = 1 /\ pos = [a \in 1..Len(T.alone) |-> 0]
Step ==
  /\ i <= Len(T.events) /\ E.op = "step"
  /\ pos[E.a] < Len(T.alone[E.a])
  /\ E.res = T.alone[E.a][pos[E.a] + 1]
  /\ pos' = [pos EXCEPT ![E.a] = @ + 1]
  /\ i' = i + 1 /\ tid' = tid
(* Nobody was kept from an answer.                                         *)
End == i > Len(T.events) /\ (\A a \in 1..Len(T.alone) : pos[a] = Len(T.alone[a])) /\ UNCHANGED <<tid, i, pos>>
Next == Step \/ End
Spec == Init /\ [][Next]_<<tid, i, pos>>
==============================================================================
