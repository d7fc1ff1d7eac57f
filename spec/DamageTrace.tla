---------------------------- MODULE DamageTrace ----------------------------
(***************************************************************************)
(* Recorded calls on damaged files are steps of Damage.  A trace: [n, meta,*)
(* hurt, cols, vec, events]; cols and vec as in OrcFileTrace, empty if meta*)
(* is hurt.  An event has mb, the memory a call took, and same, whether    *)
(* the call had the same result the second time.                           *)
(***************************************************************************)
EXTENDS Damage, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i

T == Traces[tid]
E == T.events[i]
SetOf(s) == {s[j] : j \in 1..Len(s)}

TraceInit ==
  /\ tid \in 1..Len(Traces) /\ i = 1
  /\ meta = T.meta /\ hurt = SetOf(T.hurt) /\ written = T.n
  /\ rst = "none" /\ rows = 0 /\ br = [r \in Readers |-> NoBr]

IsEvent(op) ==
  /\ i <= Len(T.events) /\ E.op = op
  /\ Bounded(E.mb) /\ E.same
  /\ i' = i + 1 /\ tid' = tid

AllCols == 0..(Len(T.cols) - 1)
(* lens: how many values every vector of the batch has                     *)
Lengths(n) == \A j \in 1..Len(E.lens) : E.lens[j] = n
Cells(r, n) ==
  meta \/
  LET want == {c \in br[r].inc : T.vec[c + 1]}
      got == E.cols
  IN /\ Len(got) = Cardinality(want)
     /\ {got[j][1] : j \in 1..Len(got)} = want
     /\ \A j \in 1..Len(got) :
          got[j][1] \in Right(br[r].inc) =>
            got[j][2] = SubSeq(T.cols[got[j][1] + 1], br[r].cur + 1, br[r].cur + n)

TraceNext ==
  \/ IsEvent("open") /\ Open(E.ok, E.rows)
  \/ IsEvent("create") /\ Create(E.r, IF Len(E.inc) = 0 THEN AllCols ELSE SetOf(E.inc), E.ok)
  \/ IsEvent("vector") /\ Vector(E.r, E.ok)
  \/ /\ IsEvent("next")
     /\ IF E.ok THEN Lengths(E.n) /\ Cells(E.r, E.n) = TRUE /\ Next_(E.r, E.cap, TRUE, E.n, E.end)
                ELSE Next_(E.r, E.cap, FALSE, 0, FALSE)
  \/ IsEvent("seek") /\ Seek(E.r, E.k, E.ok)
  \/ IsEvent("close") /\ Close(E.r)
  \/ IsEvent("closereader") /\ CloseReader
  \/ i > Len(T.events) /\ UNCHANGED <<dvars, tid, i>>

TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, tid, i>>
==============================================================================
