------------------------------ MODULE ReadsTrace ------------------------------
(* Calls of readers and, behind each, what it has read.                     *)
EXTENDS Reads, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i,
          brs,      \* batch readers: [inc, cur, got], by name + 1
          call,     \* the call that reads: [op, r, from, to]
          sum       \* bytes read by it
tvars == <<tid, i, brs, call, sum>>
T == Traces[tid]
E == T.events[i]
L == T.file
Rows == IF Len(L.stripes) = 0 THEN 0 ELSE L.stripes[Len(L.stripes)].first + L.stripes[Len(L.stripes)].rows
None == [op |-> "none", r |-> 0, from |-> 0, to |-> 0]

Init == tid \in 1..Len(Traces) /\ i = 1 /\ brs = [r \in 1..8 |-> [inc |-> {}, cur |-> 0, got |-> <<>>]] /\ call = None /\ sum = 0

IsEvent(op) == i <= Len(T.events) /\ E.op = op /\ i' = i + 1 /\ tid' = tid
Begin(c) == call' = c /\ sum' = 0
AllOf(s) == IF Len(s) = 0 THEN 0..(Len(L.schema) - 1) ELSE {s[j] : j \in 1..Len(s)}

Places(a, b) == {<<t, x>> \in UNION {{t} \X (0..Len(L.stripes[t].streams)) : t \in 1..Len(L.stripes)} :
                   May(L, brs[call.r].inc, call, t, x, a, b) /\ a >= brs[call.r].got[t][x]}

Next ==
  \/ IsEvent("open") /\ E.ok /\ Begin([None EXCEPT !.op = "open"]) /\ UNCHANGED brs
  \/ /\ IsEvent("create") /\ E.ok
     /\ brs' = [brs EXCEPT ![E.r + 1] = [inc |-> AllOf(E.inc), cur |-> 0, got |-> Fresh(L)]]
     /\ Begin([op |-> "create", r |-> E.r + 1, from |-> 0, to |-> 0])
  \/ /\ IsEvent("next") /\ E.ok
     /\ LET c == brs[E.r + 1].cur IN
          /\ Begin([op |-> "next", r |-> E.r + 1, from |-> c, to |-> c + E.n])
          /\ brs' = [brs EXCEPT ![E.r + 1].cur = c + E.n]
  \/ /\ IsEvent("seek") /\ E.ok = (E.k < Rows)
     /\ IF E.ok THEN /\ Begin([op |-> "seek", r |-> E.r + 1, from |-> E.k, to |-> E.k])
                     /\ brs' = [brs EXCEPT ![E.r + 1].cur = E.k, ![E.r + 1].got = Fresh(L)]
        ELSE Begin(None) /\ UNCHANGED brs
  \/ (IsEvent("close") \/ IsEvent("closereader")) /\ Begin(None) /\ UNCHANGED brs
  \* bytes from..to-1, read through one handle
  \/ /\ IsEvent("read") /\ call.op = "open" /\ MayOpenWith(L, E.from, E.to)
     /\ sum' = sum + E.to - E.from /\ sum' <= 3 + Max(L.tail, Guess)
     /\ UNCHANGED <<brs, call>>
  \/ /\ IsEvent("read") /\ call.op \notin {"open", "none"}
     /\ LET p == Places(E.from, E.to) IN
          /\ p # {}
          /\ LET q == CHOOSE y \in p : TRUE IN brs' = [brs EXCEPT ![call.r].got[q[1]][q[2]] = E.to]
     /\ UNCHANGED <<call, sum>>
  \/ i > Len(T.events) /\ UNCHANGED tvars
TraceSpec == Init /\ [][Next]_tvars
==============================================================================
