---------------------------- MODULE RefusalsTrace ----------------------------
(***************************************************************************)
(* Calls of a writer and of a reader of its file, good ones and others.     *)
(* quiet: the call did nothing to the file; kept: the batch is as it was;   *)
(* twin: the file is the same as that of a writer with the accepted calls   *)
(* only.                                                                    *)
(***************************************************************************)
EXTENDS Refusals, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i,
          content,      \* cells of the accepted rows, by column
          known,        \* the schema as it was read
          inc           \* columns of the batch reader
tvars == <<tid, i, content, known, inc, wst, rows, rst, cur>>
T == Traces[tid]
E == T.events[i]
S == T.schema

TraceInit ==
  /\ tid \in 1..Len(Traces) /\ i = 1
  /\ content = [c \in 1..Len(S) |-> <<>>] /\ known = <<>> /\ inc = {}
  /\ RInit

IsEvent(op) == i <= Len(T.events) /\ E.op = op /\ i' = i + 1 /\ tid' = tid
SetOf(s) == {s[j] : j \in 1..Len(s)}

(* Cells a column gets of a batch that fits: a cell below a null is null.   *)
Null == <<0>>
Parents(s, c) == {p \in 1..Len(s) : \E j \in 1..Len(s[p].kids) : s[p].kids[j] = c}
RECURSIVE Above(_, _)
Above(s, c) == LET P == Parents(s, c) IN P \cup UNION {Above(s, p) : p \in P}
(* vectors of a batch that fits are numbered as the columns are             *)
NullIn(c, r) == S[c].nullable /\ E.batch[c].vals[r].null
Got(c, n) ==
  LET up == Above(S, c) IN
  [r \in 1..n |-> IF NullIn(c, r) \/ \E p \in up : NullIn(p, r) THEN Null
                  ELSE IF S[c].kind = "struct" THEN <<1>> ELSE E.cells[c][r]]

(* Column sets a batch reader can be made for: one tree, none of whose      *)
(* columns' rows depend on nulls above it.                                  *)
Legal(set) ==
  \/ set = {}
  \/ /\ \A x \in set : x < Len(S)
     /\ \E top \in set :
          /\ \A x \in set \ {top} : \E p \in Parents(S, x + 1) : (p - 1) \in set
          /\ \A p \in Above(S, top + 1) : ~known[p].nullable

Top == IF inc = {} THEN 1 ELSE CHOOSE c \in {x + 1 : x \in inc} : \A p \in Parents(S, c) : (p - 1) \notin inc

TraceNext ==
  \/ /\ IsEvent("write") /\ UNCHANGED <<known, inc>>
     /\ LET n == RowsOf(S, E.batch) IN
          /\ Write(n, E.ok)
          /\ E.kept
          /\ ~E.ok => E.quiet
          /\ content' = IF E.ok THEN [c \in 1..Len(S) |-> content[c] \o Got(c, n)] ELSE content
  \/ IsEvent("wclose") /\ CloseWriter /\ E.ok /\ (wst = "closed" => E.quiet) /\ UNCHANGED <<content, known, inc>>
  \/ IsEvent("twin") /\ E.same /\ UNCHANGED <<content, known, inc, wst, rows, rst, cur>>
  \/ /\ IsEvent("open") /\ OpenReader /\ UNCHANGED <<content, inc>>
     /\ E.ok /\ E.rows = rows
     /\ known' = [c \in 1..Len(S) |-> [S[c] EXCEPT !.nullable = E.nulls[c]]]
  \/ /\ IsEvent("create") /\ UNCHANGED <<content, known, wst, rows>>
     /\ E.ok = (rst # "gone" /\ E.size > 0 /\ Legal(SetOf(E.inc)))
     /\ inc' = SetOf(E.inc) /\ cur' = 0 /\ rst' = IF E.ok THEN "open" ELSE rst
  \/ /\ IsEvent("next") /\ UNCHANGED <<content, known, inc>>
     /\ LET asked == Asked(known, Top, inc, E.vecs, 1) IN
          Deliver(asked, IF asked THEN Room(known, Top, inc, E.vecs, 1) ELSE 0, E.ok, E.n)
     /\ E.kept
     /\ \A j \in 1..Len(E.cols) :
          LET col == E.cols[j][1] + 1 IN
          \/ Bare(known[col]) /\ E.cols[j][2] = <<>>       \* has no values of its own
          \/ E.cols[j][2] = SubSeq(content[col], cur + 1, cur + E.n)
  \/ IsEvent("vector") /\ E.ok = (E.size > 0) /\ UNCHANGED <<content, known, inc, wst, rows, rst, cur>>
  \/ IsEvent("seek") /\ SeekTo(E.k, E.ok) /\ UNCHANGED <<content, known, inc>>
  \/ IsEvent("bclose") /\ CloseBatches /\ UNCHANGED <<content, known, inc>>
  \/ IsEvent("rclose") /\ rst' = "gone" /\ UNCHANGED <<content, known, inc, wst, rows, cur>>
  \/ i > Len(T.events) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
