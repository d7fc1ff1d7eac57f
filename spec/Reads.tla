-------------------------------- MODULE Reads --------------------------------
(***************************************************************************)
(* Which bytes of a file calls of a reader may read.                        *)
(*                                                                         *)
(* A file L is [size, tail, comp, block, stride, schema, stripes]; a stripe *)
(* is [first, rows, foot, dict, streams] with foot = <<from, to>>, dict     *)
(* saying which columns have a dictionary; a stream is                      *)
(* [col, kind, from, to, chunks, entries, vals]: chunks are the places where  *)
(* its chunks start, entries the positions of a row index. Places are bytes of  *)
(* the file, from 0; the byte at to is not in.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

PRESENT == 0   DATA == 1   LENGTH == 2   DICT == 3   SECONDARY == 5
ROWINDEX == 6  BLOOM == 7  BLOOMUTF8 == 8
Texts == {"string", "char", "varchar"}
Guess == 16384                 \* so much of the end may be read without knowing how long the tail is
PlainBlock == 262144           \* what is not compressed is read in blocks

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

(* Opening reads the magic and the tail.                                   *)
MayOpenWith(L, from, to) == to <= 3 \/ from >= L.size - Max(L.tail, Guess)

------------------------------------------------------------------------------
(* Positions.  Numbers of a position belong to the streams of the column in *)
(* this order; each stream has its place first.                             *)
How(L, t, col, kind) ==
  LET k == L.schema[col + 1] IN
  IF kind = PRESENT THEN "bools"
  ELSE IF kind \in {LENGTH, SECONDARY} THEN "rle"
  ELSE IF k = "boolean" THEN "bools"
  ELSE IF k \in {"float", "double", "binary", "decimal"} \/ (k \in Texts /\ ~L.stripes[t].dict[col + 1]) THEN "raw"
  ELSE "rle"
Width(L, t, col, kind) ==
  (IF L.comp = 0 THEN 1 ELSE 2) + (CASE How(L, t, col, kind) = "bools" -> 2 [] How(L, t, col, kind) = "raw" -> 0 [] OTHER -> 1)

Has(L, t, col, kind) == \E x \in 1..Len(L.stripes[t].streams) : L.stripes[t].streams[x].col = col /\ L.stripes[t].streams[x].kind = kind
Order(L, t, col) ==
  SelectSeq(<<PRESENT, DATA, LENGTH, SECONDARY>>,
            LAMBDA k : Has(L, t, col, k) /\ ~(k = LENGTH /\ L.stripes[t].dict[col + 1]))
RECURSIVE Before(_, _, _, _, _)
Before(L, t, col, order, kind) ==
  IF Head(order) = kind THEN 0 ELSE Width(L, t, col, Head(order)) + Before(L, t, col, Tail(order), kind)

(* Streams that positions of a row index point into; all others are read    *)
(* as a whole.                                                             *)
Marked(L, t, x) ==
  LET s == L.stripes[t].streams[x] IN
  /\ L.stride > 0 /\ s.kind \in {PRESENT, DATA, LENGTH, SECONDARY}
  /\ ~(s.kind = LENGTH /\ L.stripes[t].dict[s.col + 1])
  /\ Has(L, t, s.col, ROWINDEX)
Entries(L, t, x) ==
  LET ss == L.stripes[t].streams IN
  ss[CHOOSE y \in 1..Len(ss) : ss[y].col = ss[x].col /\ ss[y].kind = ROWINDEX].entries
(* Entry e (from 0): where the chunk begins and what is left out of it.     *)
Mark(L, t, x, e) ==
  LET s == L.stripes[t].streams[x]
      at == Before(L, t, s.col, Order(L, t, s.col), s.kind)
      q == Entries(L, t, x)[e + 1]
  IN <<s.from + q[at + 1], IF L.comp = 0 THEN 0 ELSE q[at + 2]>>

ChunkEnd(L, t, x, from) ==
  LET s == L.stripes[t].streams[x] IN
  IF L.comp = 0 THEN Min(s.to, from + PlainBlock)
  ELSE LET later == {s.chunks[j] : j \in {i \in 1..Len(s.chunks) : s.chunks[i] > from}}
       IN IF later = {} THEN s.to ELSE CHOOSE c \in later : \A d \in later : c <= d

(* Values that position e leaves out: the place is that of an earlier value. *)
Skips(L, t, x, e) ==
  LET s == L.stripes[t].streams[x]
      at == Before(L, t, s.col, Order(L, t, s.col), s.kind) + (IF L.comp = 0 THEN 1 ELSE 2)
      q == Entries(L, t, x)[e + 1]
  IN CASE How(L, t, s.col, s.kind) = "bools" -> 8 * q[at + 1] + q[at + 2]
       [] How(L, t, s.col, s.kind) = "raw" -> 0
       [] OTHER -> q[at + 1]

(* The end of what the first r rows of stripe t can need of stream x: their  *)
(* values end where an entry's place has a value that is behind them.       *)
(* vals: values of the stream before the row of every entry.                *)
UpTo(L, t, x, r) ==
  LET s == L.stripes[t].streams[x] IN
  IF ~Marked(L, t, x) THEN s.to
  ELSE LET n == Len(Entries(L, t, x))
           j == (r + L.stride - 1) \div L.stride
           later == IF j >= n THEN {} ELSE {e \in j..(n - 1) : s.vals[e + 1] - Skips(L, t, x, e) >= s.vals[j + 1]}
       IN IF later = {} THEN s.to
          ELSE ChunkEnd(L, t, x, Mark(L, t, x, CHOOSE e \in later : \A d \in later : e <= d)[1])

(* The begin of what rows from r on can need: with an index of all columns,  *)
(* the chunk the position of their stride is in.                            *)
Indexed(L, t, inc) ==
  /\ L.stride > 0
  /\ \A c \in inc : Has(L, t, c, ROWINDEX) \/ (L.schema[c + 1] = "struct" /\ ~Has(L, t, c, PRESENT))
FromOn(L, t, x, inc, r) ==
  IF Marked(L, t, x) /\ Indexed(L, t, inc) THEN Mark(L, t, x, r \div L.stride)[1] ELSE L.stripes[t].streams[x].from

------------------------------------------------------------------------------
(* A batch reader: included columns, rows delivered, and of every area       *)
(* (footer: 0, streams: 1..) of every stripe the place up to which it was    *)
(* read.                                                                    *)
Fresh(L) == [t \in 1..Len(L.stripes) |-> [x \in 0..Len(L.stripes[t].streams) |-> 0]]
IsIndexKind(k) == k \in {ROWINDEX, BLOOM, BLOOMUTF8}

(* The stripe that has row r (from 0).                                      *)
StripeOf(L, r) == CHOOSE t \in 1..Len(L.stripes) : L.stripes[t].first <= r /\ r < L.stripes[t].first + L.stripes[t].rows

(* call: [op, from, to]: "create"; "next" of rows from..to-1; "seek" to row  *)
(* from.                                                                    *)
May(L, inc, call, t, x, a, b) ==
  LET st == L.stripes[t] IN
  IF x = 0 THEN call.op = "create" /\ st.foot[1] <= a /\ b <= st.foot[2]
  ELSE LET s == st.streams[x] IN
    /\ s.from <= a /\ b <= s.to /\ s.col \in inc
    /\ CASE call.op = "create" -> s.kind = ROWINDEX
         [] call.op = "next" ->
              /\ ~IsIndexKind(s.kind)
              \* rows of the call are in the stripe, or it is the one behind them
              /\ call.from < call.to /\ call.from < st.first + st.rows /\ st.first <= call.to
              /\ b <= UpTo(L, t, x, IF call.to <= st.first THEN 0 ELSE Min(st.rows, call.to - st.first))
         [] call.op = "seek" ->
              /\ ~IsIndexKind(s.kind)
              /\ t = StripeOf(L, call.from)
              /\ a >= FromOn(L, t, x, inc, call.from - st.first)
              /\ b <= UpTo(L, t, x, call.from - st.first + 1)
==============================================================================
