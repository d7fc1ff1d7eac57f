------------------------------ MODULE Refusals ------------------------------
(***************************************************************************)
(* What a writer and a batch reader accept, and that a refused call has no *)
(* effect.                                                                 *)
(*                                                                         *)
(* A schema is a sequence of columns in pre-order, [kind, nullable, kids]   *)
(* with the numbers (from 1) of the children; column c has the id c - 1.    *)
(* A batch is a sequence of vectors; its first is the top one.  A vector    *)
(* is [absent, id, vals, kids]: vals are [null, type], kids are numbers of  *)
(* vectors.  type is the name of the value's Go type.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

GoType(kind) ==
  CASE kind = "boolean" -> "bool"
    [] kind = "byte" -> "uint8"
    [] kind = "short" -> "int16"
    [] kind = "int" -> "int32"
    [] kind = "long" -> "int64"
    [] kind = "float" -> "float32"
    [] kind = "double" -> "float64"
    [] kind \in {"string", "char", "varchar"} -> "string"
    [] kind = "binary" -> "[]uint8"
    [] kind = "decimal" -> "api.Decimal64"
    [] kind = "date" -> "api.Date"
    [] kind = "timestamp" -> "api.Timestamp"

(* A struct that has no nulls needs no values of its own.                  *)
Bare(col) == col.kind = "struct" /\ ~col.nullable

(* Are the vectors those of the schema's columns?                          *)
RECURSIVE Shaped(_, _, _, _)
Shaped(schema, c, batch, v) ==
  /\ ~batch[v].absent
  /\ batch[v].id = c - 1
  /\ Len(batch[v].kids) = Len(schema[c].kids)
  /\ \A j \in 1..Len(schema[c].kids) : Shaped(schema, schema[c].kids[j], batch, batch[v].kids[j])

(* Does vector v hold n rows that column c can hold? above: rows in which  *)
(* a struct above is null; what vectors below hold there does not matter.   *)
RECURSIVE Holds(_, _, _, _, _, _)
Holds(schema, c, batch, v, n, above) ==
  LET col == schema[c] vals == batch[v].vals IN
  /\ Len(vals) = n \/ (Bare(col) /\ Len(vals) = 0)
  /\ \A r \in 1..Len(vals) : r \in above \/
       IF vals[r].null THEN col.nullable ELSE col.kind = "struct" \/ vals[r].type = GoType(col.kind)
  /\ \A j \in 1..Len(col.kids) :
       Holds(schema, col.kids[j], batch, batch[v].kids[j], n,
             above \cup {r \in 1..Len(vals) : col.nullable /\ vals[r].null})

Longest(batch) == LET S == {Len(batch[v].vals) : v \in 1..Len(batch)} IN CHOOSE n \in S : \A m \in S : m <= n

(* The rows of a batch that fits, -1 if it does not.                       *)
RowsOf(schema, batch) ==
  IF Len(batch) > 0 /\ Shaped(schema, 1, batch, 1) /\ Holds(schema, 1, batch, 1, Longest(batch), {})
  THEN Longest(batch) ELSE -1

(* Vectors given to Next: those of the included columns, and room for a    *)
(* row in each that gets values. inc: the included columns, {} means all;   *)
(* a vector is [absent, id, kind, room, kids]. Columns read with nulls are  *)
(* some of those written as nullable.                                       *)
Included(inc, c) == inc = {} \/ (c - 1) \in inc
KidsIn(schema, c, inc) == SelectSeq(schema[c].kids, LAMBDA k : Included(inc, k))
RECURSIVE Asked(_, _, _, _, _)
Asked(schema, c, inc, batch, v) ==
  LET kids == KidsIn(schema, c, inc) IN
  /\ ~batch[v].absent
  /\ batch[v].id = c - 1
  /\ batch[v].kind = schema[c].kind
  /\ Len(batch[v].kids) = Len(kids)
  /\ \A j \in 1..Len(kids) : Asked(schema, kids[j], inc, batch, batch[v].kids[j])

(* Rows there is room for.                                                 *)
RECURSIVE Room(_, _, _, _, _)
Room(schema, c, inc, batch, v) ==
  LET kids == KidsIn(schema, c, inc)
      S == (IF Bare(schema[c]) THEN {} ELSE {batch[v].room}) \cup {Room(schema, kids[j], inc, batch, batch[v].kids[j]) : j \in 1..Len(kids)}
  IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : n <= m

------------------------------------------------------------------------------
(* The two objects. Content is what was accepted, by its number of rows.   *)
VARIABLES wst, rows, rst, cur
rvars == <<wst, rows, rst, cur>>

RInit == wst = "open" /\ rows = 0 /\ rst = "none" /\ cur = 0

Write(n, ok) ==                      \* n: RowsOf the batch
  /\ ok = (wst = "open" /\ n >= 0)
  /\ rows' = IF ok THEN rows + n ELSE rows
  /\ UNCHANGED <<wst, rst, cur>>

CloseWriter == wst' = "closed" /\ UNCHANGED <<rows, rst, cur>>

OpenReader == wst = "closed" /\ rst' = "open" /\ cur' = 0 /\ UNCHANGED <<wst, rows>>

(* asked: are the vectors those of the columns; room: for so many rows     *)
Deliver(asked, room, ok, n) ==
  /\ ok = (rst = "open" /\ asked /\ (room > 0 \/ cur = rows))
  /\ IF ok THEN (n = 0 /\ cur = rows) \/ (n \in 1..room /\ cur + n <= rows) ELSE n = 0
  /\ cur' = cur + n
  /\ UNCHANGED <<wst, rows, rst>>

SeekTo(k, ok) ==
  /\ ok = (rst = "open" /\ k < rows)
  /\ cur' = IF ok THEN k ELSE cur
  /\ UNCHANGED <<wst, rows, rst>>

CloseBatches == rst' = "closed" /\ UNCHANGED <<wst, rows, cur>>
==============================================================================
