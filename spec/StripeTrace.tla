---------------------------- MODULE StripeTrace ----------------------------
(* What CreateBatchReader answered for stripes with these footers.  A      *)
(* trace: [id, events], an event [op, plan, ok], plan as of StripeGen.     *)
EXTENDS StripeTail, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i

T == Traces[tid]
E == T.events[i]
Stripe == [E.plan.t EXCEPT !.inc = {@[j] : j \in 1..Len(@)}]
TraceInit == tid \in 1..Len(Traces) /\ i = 1
TraceNext ==
  \/ i <= Len(T.events) /\ E.op = "create" /\ MayCreate(Stripe, E.plan.sound, E.ok) /\ i' = i + 1 /\ tid' = tid
  \/ i > Len(T.events) /\ UNCHANGED <<tid, i>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, i>>
==============================================================================
