----------------------------- MODULE StripeTail -----------------------------
(***************************************************************************)
(* What the footer of a stripe says of it (C24): the encoding of every     *)
(* column and the streams, one after the other, those of indexes in the    *)
(* first part of the stripe and those of data in the second.  A batch      *)
(* reader is handed out only if the streams it may need are where the      *)
(* stripe is, and are encoded in a way that is read.                       *)
(*                                                                         *)
(* A stripe: [kinds, encs, il, dl, streams, inc]: kinds of the columns,    *)
(* encodings (numbers of the format), lengths of both parts, streams       *)
(* [col, kind, len], columns to read.  A negative number v: 2^64 + v.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Direct == 0  DirectV2 == 2  DictV2 == 3

Encodings(kind) ==
  CASE kind \in {"struct", "boolean", "byte", "float", "double"} -> {Direct}
    [] kind \in {"short", "int", "long", "binary", "date", "timestamp", "decimal"} -> {DirectV2}
    [] kind \in {"string", "char", "varchar"} -> {DirectV2, DictV2}

Present == 0  DATA == 1  LENGTH == 2  DICT == 3  SECONDARY == 5  INDEX == 6  BLOOM == 7  BLOOM8 == 8
IsIndex(k) == k \in {INDEX, BLOOM, BLOOM8}

Streams(kind, enc) ==
  CASE kind = "struct" -> {}
    [] kind \in {"timestamp", "decimal"} -> {DATA, SECONDARY}
    [] kind = "binary" -> {DATA, LENGTH}
    [] kind \in {"string", "char", "varchar"} -> IF enc = DictV2 THEN {DATA, DICT, LENGTH} ELSE {DATA, LENGTH}
    [] OTHER -> {DATA}

(* Streams of one part fit in, one after the other.                        *)
RECURSIVE Fits(_, _, _)
Fits(ss, index, left) ==
  \/ ss = <<>>
  \/ IF IsIndex(Head(ss).kind) = index
     THEN Head(ss).len >= 0 /\ Head(ss).len <= left /\ Fits(Tail(ss), index, left - Head(ss).len)
     ELSE Fits(Tail(ss), index, left)

Contradicts(t) ==
  \/ ~Fits(t.streams, TRUE, t.il)
  \/ ~Fits(t.streams, FALSE, t.dl)
  \/ \E c \in t.inc : c >= Len(t.encs)
  \/ \E c \in t.inc : c < Len(t.encs) /\ t.encs[c + 1] \notin Encodings(t.kinds[c + 1])

MayCreate(t, sound, ok) ==
  /\ sound => ok
  /\ Contradicts(t) => ~ok

------------------------------------------------------------------------------
Kinds == {"boolean", "byte", "float", "double", "short", "int", "long", "binary", "date", "timestamp", "decimal",
          "string", "char", "varchar"}

IndexLen == 7
DataLen == 8

(* In the order of the format: kinds of a column's streams as they come.   *)
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : m <= n IN <<m>> \o InOrder(S \ {m})
Of(c, kind, enc, present) ==
  LET ks == InOrder(Streams(kind, enc) \cup (IF present THEN {Present} ELSE {}))
  IN [j \in 1..Len(ks) |-> [col |-> c, kind |-> ks[j], len |-> DataLen]]

Base(kind, enc, index, present, inc) ==
  LET idx == IF index THEN [c \in 1..3 |-> [col |-> c - 1, kind |-> INDEX, len |-> IndexLen]] ELSE <<>>
      dat == Of(1, kind, enc, present) \o Of(2, "int", DirectV2, FALSE)
  IN [kinds |-> <<"struct", kind, "int">>, encs |-> <<Direct, enc, DirectV2>>,
      il |-> Len(idx) * IndexLen, dl |-> Len(dat) * DataLen, streams |-> idx \o dat, inc |-> inc]

Incs == {{0, 1, 2}, {0, 1}, {0, 2}, {1}}
Bases == {Base(x[1], x[2], x[3], x[4], inc) :
            x \in {y \in Kinds \X {Direct, DirectV2, DictV2} \X BOOLEAN \X BOOLEAN : y[2] \in Encodings(y[1])}, inc \in Incs}

Edits(t) ==
     {[t EXCEPT !.encs[k] = v] : k \in 1..Len(t.encs), v \in 0..3}
  \cup {[t EXCEPT !.encs = SubSeq(t.encs, 1, n)] : n \in 0..(Len(t.encs) - 1)}
  \cup {[t EXCEPT !.il = v] : v \in {0, t.il - 1, t.il - IndexLen, t.il + 1} \cap Nat}
  \cup {[t EXCEPT !.dl = v] : v \in {0, t.dl - 1, t.dl - DataLen, t.dl + 1} \cap Nat}
  \cup UNION {
        {[t EXCEPT !.streams[k].len = v] : v \in {t.streams[k].len + 1, t.dl, t.dl + 1, t.il, -1, -IndexLen, -DataLen}}
     \cup {[t EXCEPT !.streams[k].kind = v] : v \in {Present, DATA, LENGTH, SECONDARY, INDEX, BLOOM8}}
     \cup {[t EXCEPT !.streams[k].col = v] : v \in {0, 1, 2, 3, 1000000}}
     \cup {[t EXCEPT !.streams = SubSeq(t.streams, 1, k) \o SubSeq(t.streams, k, Len(t.streams))]}
     \cup {[t EXCEPT !.streams = SubSeq(t.streams, 1, k - 1) \o SubSeq(t.streams, k + 1, Len(t.streams))]}
       : k \in 1..Len(t.streams)}
==============================================================================
