------------------------------ MODULE RleTrace ------------------------------
(***************************************************************************)
(* Byte sequences and the values the library reads from or writes to them. *)
(* A trace: [events]; an event [op, signed, vals, bytes, dec]: the bytes   *)
(* are consumed run by run, they must be legal runs that mean vals, and    *)
(* dec, what the library's decoder makes of the bytes, must be vals.       *)
(***************************************************************************)
EXTENDS RleV2, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, p, k
vars == <<tid, i, p, k>>

T == Traces[tid]
E == T.events[i]

Init == tid \in 1..Len(Traces) /\ i = 1 /\ p = 1 /\ k = 0

InRun(kind) ==
  /\ i <= Len(T.events) /\ E.op = "rle"
  /\ p <= Len(E.bytes)
  /\ RunKind(E.bytes, p) = kind
  /\ Step(E.bytes, p, E.signed, E.vals, k) = TRUE
  /\ LET x == Run(E.bytes, p) IN p' = x.next /\ k' = k + x.n
  /\ UNCHANGED <<tid, i>>

ShortRepeatRun == InRun(0)
DirectRun == InRun(1)
PatchedRun == InRun(2)
DeltaRun == InRun(3)

End ==
  /\ i <= Len(T.events) /\ E.op = "rle"
  /\ p = Len(E.bytes) + 1 /\ k = Len(E.vals)
  /\ E.dec = E.vals
  /\ i' = i + 1 /\ p' = 1 /\ k' = 0 /\ tid' = tid

Done == i > Len(T.events) /\ UNCHANGED vars

Next == ShortRepeatRun \/ DirectRun \/ PatchedRun \/ DeltaRun \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
