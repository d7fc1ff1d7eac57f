------------------------------ MODULE ByteTrace ------------------------------
(* Like RleTrace, for bytes and booleans: events [op "bytes" or "bools",    *)
(* vals, bytes, dec].                                                      *)
EXTENDS ByteRle, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, p, k
vars == <<tid, i, p, k>>
T == Traces[tid]
E == T.events[i]

Init == tid \in 1..Len(Traces) /\ i = 1 /\ p = 1 /\ k = 0

InRun(rep) ==
  /\ i <= Len(T.events) /\ E.op \in {"bytes", "bools"}
  /\ p <= Len(E.bytes)
  /\ (E.bytes[p] < 128) = rep
  /\ IF E.op = "bytes" THEN ByteStep(E.bytes, p, E.vals, k) = TRUE ELSE BoolStep(E.bytes, p, E.vals, k) = TRUE
  /\ LET x == BRun(E.bytes, p) IN p' = x.next /\ k' = k + x.n
  /\ UNCHANGED <<tid, i>>
RepeatRun == InRun(TRUE)
LiteralRun == InRun(FALSE)

End ==
  /\ i <= Len(T.events) /\ E.op \in {"bytes", "bools"}
  /\ p = Len(E.bytes) + 1
  /\ IF E.op = "bytes" THEN k = Len(E.vals) ELSE BoolEnd(E.vals, k)
  /\ E.dec = E.vals
  /\ i' = i + 1 /\ p' = 1 /\ k' = 0 /\ tid' = tid

Done == i > Len(T.events) /\ UNCHANGED vars
Next == RepeatRun \/ LiteralRun \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
