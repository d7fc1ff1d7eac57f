---------------------------- MODULE OrcFileTrace ----------------------------
(***************************************************************************)
(* Recorded calls of the real library are steps of OrcFile, and the cells  *)
(* a batch delivers are the cells of the rows the step names.              *)
(*                                                                         *)
(* A trace: [id, n, cols, vec, events]; cols[c + 1] are the cells of       *)
(* column c, vec[c + 1] says whether its batches have a vector. Traces of  *)
(* long files have wins instead of cols: the cells of the rows that are    *)
(* read, each [from, cols].                                                *)
(***************************************************************************)
EXTENDS OrcFile, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, inc            \* trace, next event, included columns of batch readers

T == Traces[tid]
E == T.events[i]

TraceInit ==
  /\ Init
  /\ tid \in 1..Len(Traces)
  /\ i = 1
  /\ inc = [r \in Readers |-> {}]

IsEvent(op) == i <= Len(T.events) /\ E.op = op /\ i' = i + 1 /\ tid' = tid

Flt == E.flt

AllCols == 0..(Len(T.vec) - 1)
SetOf(s) == {s[j] : j \in 1..Len(s)}

Long == "wins" \in DOMAIN T
(* the window rows a+1 to b are in *)
In(w, a, b) == T.wins[w].from <= a /\ b <= T.wins[w].from + Len(T.wins[w].cols[2])
Known(a, b) == a = b \/ ~Long \/ \E w \in 1..Len(T.wins) : In(w, a, b)
Rows(c, a, b) ==
  IF a = b THEN <<>>
  ELSE IF Long
  THEN LET w == CHOOSE w \in 1..Len(T.wins) : In(w, a, b)  f == T.wins[w].from
       IN SubSeq(T.wins[w].cols[c], a - f + 1, b - f)
  ELSE SubSeq(T.cols[c], a + 1, b)

(* Included columns that have a vector, each once, with the right cells.   *)
Cells(r, n) ==
  LET want == {c \in inc[r] : T.vec[c + 1]}
      got == E.cols
  IN /\ Len(got) = Cardinality(want)
     /\ Known(br[r].cur, br[r].cur + n)
     /\ {got[j][1] : j \in 1..Len(got)} = want
     /\ \A j \in 1..Len(got) :
          LET c == got[j][1] + 1  cells == got[j][2] IN
          cells = Rows(c, br[r].cur, br[r].cur + n)

TraceNext ==
  \/ IsEvent("wcreate") /\ WCreate(E.ok, Flt) /\ UNCHANGED inc
  \/ IsEvent("write") /\ WWrite(E.n, E.ok, Flt) /\ UNCHANGED inc
  \/ IsEvent("wclose") /\ WClose(E.ok, Flt) /\ UNCHANGED inc
  \/ IsEvent("crash") /\ Crash /\ UNCHANGED inc
  \/ IsEvent("open") /\ ROpen(E.ok, E.rows, Flt) /\ UNCHANGED inc
  \/ IsEvent("closereader") /\ RClose /\ UNCHANGED inc
  \/ /\ IsEvent("create") /\ BCreate(E.r, E.ok, Flt)
     /\ inc' = [inc EXCEPT ![E.r] = IF Len(E.inc) = 0 THEN AllCols ELSE SetOf(E.inc)]
  \/ /\ IsEvent("next")
     /\ IF E.ok
        THEN BNext(E.r, E.cap, TRUE, E.n, E.end, Flt) /\ Cells(E.r, E.n) = TRUE
        ELSE BNext(E.r, E.cap, FALSE, 0, FALSE, Flt)
     /\ UNCHANGED inc
  \/ IsEvent("seek") /\ BSeek(E.r, E.k, E.ok, Flt) /\ UNCHANGED inc
  \/ IsEvent("close") /\ BClose(E.r) /\ UNCHANGED inc
  \/ i > Len(T.events) /\ UNCHANGED <<vars, tid, i, inc>>

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, i, inc>>
==============================================================================
