------------------------------- MODULE Chunks -------------------------------
(***************************************************************************)
(* Compression chunks: a writer cuts a byte stream into chunks of at most  *)
(* Size bytes, a reader puts it together again, in pieces of any length    *)
(* and from any position <<chunk, offset in it>> that was recorded.        *)
(* Bytes are their numbers, so that a delivered byte names its origin.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS MaxBytes, Size, Piece

VARIABLES put, buf, chunks, done, rd, got, pos
vars == <<put, buf, chunks, done, rd, got, pos>>

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

RECURSIVE Cut(_, _)
Cut(n, all) == IF n = 0 \/ (~all /\ n <= Size) THEN <<>> ELSE <<Min(n, Size)>> \o Cut(n - Min(n, Size), all)

Init == put = 0 /\ buf = 0 /\ chunks = <<>> /\ done = FALSE /\ rd = [c |-> 1, o |-> 0] /\ got = <<>> /\ pos = {}

(* A value of n bytes; chunks are emitted while more than one is buffered. *)
Put(n) ==
  /\ ~done /\ put + n <= MaxBytes
  /\ pos' = pos \cup {<<Len(chunks) + 1, buf, put>>}      \* where this value starts: GetPosition
  /\ LET c == Cut(buf + n, FALSE) IN chunks' = chunks \o c /\ buf' = buf + n - Sum(c)
  /\ put' = put + n
  /\ UNCHANGED <<done, rd, got>>
Flush ==
  /\ ~done /\ done' = TRUE
  /\ chunks' = chunks \o Cut(buf, TRUE) /\ buf' = 0
  /\ UNCHANGED <<put, rd, got, pos>>

(* The byte the reader is at is number Sum(chunks before) + o + 1.         *)
At == Sum(SubSeq(chunks, 1, rd.c - 1)) + rd.o
RECURSIVE Advance(_, _, _)
Advance(c, o, n) ==
  IF c > Len(chunks) THEN <<c, o, n>>
  ELSE IF o + n < chunks[c] THEN <<c, o + n, 0>>
  ELSE Advance(c + 1, 0, n - (chunks[c] - o))

Read(n) ==
  /\ done /\ n <= put - At
  /\ got' = [first |-> At + 1, n |-> n, from |-> At]
  /\ LET a == Advance(rd.c, rd.o, n) IN rd' = [c |-> a[1], o |-> a[2]]
  /\ UNCHANGED <<put, buf, chunks, done, pos>>

(* An offset recorded while its chunk was still growing may lie in a later *)
(* chunk: the position is normalized by reading on.                        *)
Seek(p) ==
  /\ done
  /\ LET a == Advance(p[1], 0, p[2]) IN rd' = [c |-> a[1], o |-> a[2]]
  /\ got' = [first |-> p[3] + 1, n |-> 0, from |-> Sum(SubSeq(chunks, 1, rd'.c - 1)) + rd'.o]
  /\ UNCHANGED <<put, buf, chunks, done, pos>>

Next == (\E n \in 1..Piece : Put(n) \/ Read(n)) \/ Flush \/ (\E p \in pos : Seek(p))
Spec == Init /\ [][Next]_vars

SizesOk == \A c \in 1..Len(chunks) : chunks[c] \in 1..Size
NothingLost == Sum(chunks) + buf = put
PlaceOk == got # <<>> => got.first = got.from + 1
=============================================================================
