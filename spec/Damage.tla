------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Reading a file whose bytes have changed since it was written (C23).     *)
(* Either the content of some columns is hurt, or meta: bytes that say     *)
(* what is where.  Whatever the bytes are,                                 *)
(*  - every call comes back with a result or an error (a call that panics, *)
(*    hangs or ends the process is no step), and takes bounded memory,     *)
(*  - a batch reader that failed delivers nothing until a Seek succeeds,   *)
(*  - rows delivered are rows the reader said the file has, the end comes  *)
(*    with the last of them, and vectors of a batch have a value per row,  *)
(*  - the same calls have the same results when made again,                *)
(* and columns that are not hurt are read, by themselves, as ever.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets

CONSTANTS Readers, Columns, MaxRows, MaxCap, MemoryBound

VARIABLES
  meta,    \* what is where may be hurt
  hurt,    \* columns with hurt content
  written, \* rows of the file as it was written
  rst,     \* reader: "none", "open", "refused", "closed"
  rows,    \* what the reader says
  br       \* batch readers

dvars == <<meta, hurt, written, rst, rows, br>>

NoBr == [st |-> "none", cur |-> 0, inc |-> {}]

TypeOK ==
  /\ meta \in BOOLEAN /\ hurt \subseteq Columns /\ written \in 0..MaxRows
  /\ rst \in {"none", "open", "refused", "closed"} /\ rows \in 0..MaxRows
  /\ br \in [Readers -> [st : {"none", "open", "failed", "closed"}, cur : 0..MaxRows, inc : SUBSET Columns]]

(* A reader that reads these columns may find out.                         *)
Touched(inc) == meta \/ inc \cap hurt # {}

Open(ok, n) ==
  /\ rst = "none"
  /\ ~ok => meta
  /\ ok /\ ~meta => n = written
  /\ rst' = IF ok THEN "open" ELSE "refused"
  /\ rows' = IF ok THEN n ELSE 0
  /\ UNCHANGED <<meta, hurt, written, br>>

Create(r, inc, ok) ==
  /\ rst = "open" /\ br[r].st \in {"none", "closed"}
  /\ ~ok => Touched(inc)
  /\ br' = [br EXCEPT ![r] = IF ok THEN [st |-> "open", cur |-> 0, inc |-> inc] ELSE NoBr]
  /\ UNCHANGED <<meta, hurt, written, rst, rows>>

(* A vector for rows of the reader's schema.                               *)
Vector(r, ok) ==
  /\ br[r].st \in {"open", "failed"}
  /\ ~ok => meta
  /\ UNCHANGED dvars

Live == {"open", "failed"}

Next_(r, cap, ok, n, end) ==
  /\ br[r].st \in Live
  /\ IF ok
     THEN /\ br[r].st = "open"
          /\ IF br[r].cur = rows
             THEN n = 0 /\ end
             ELSE n \in 1..cap /\ br[r].cur + n <= rows /\ end = (br[r].cur + n = rows)
          /\ br' = [br EXCEPT ![r].cur = @ + n]
     ELSE /\ Touched(br[r].inc)
          /\ br' = [br EXCEPT ![r].st = "failed"]
  /\ UNCHANGED <<meta, hurt, written, rst, rows>>

Seek(r, k, ok) ==
  /\ br[r].st \in Live
  /\ ok => k < rows
  /\ ~ok => k >= rows \/ Touched(br[r].inc)
  /\ br' = [br EXCEPT ![r] = IF ok THEN [@ EXCEPT !.st = "open", !.cur = k]
                             ELSE IF k >= rows THEN @ ELSE [@ EXCEPT !.st = "failed"]]
  /\ UNCHANGED <<meta, hurt, written, rst, rows>>

Close(r) ==
  /\ br[r].st \in Live
  /\ br' = [br EXCEPT ![r].st = "closed"]
  /\ UNCHANGED <<meta, hurt, written, rst, rows>>

CloseReader ==
  /\ rst' = IF rst = "open" THEN "closed" ELSE rst
  /\ UNCHANGED <<meta, hurt, written, rows, br>>

(* Columns whose delivered cells are the ones written.                     *)
Right(inc) == IF meta THEN {} ELSE inc \ hurt

Bounded(mb) == mb <= MemoryBound

------------------------------------------------------------------------------
Init ==
  /\ meta \in BOOLEAN /\ hurt \in SUBSET Columns /\ (meta => hurt = {})
  /\ written \in 0..MaxRows /\ rst = "none" /\ rows = 0
  /\ br = [r \in Readers |-> NoBr]

Next ==
  \/ \E ok \in BOOLEAN :
       \/ \E n \in 0..MaxRows : Open(ok, n)
       \/ \E r \in Readers :
            \/ \E inc \in SUBSET Columns : Create(r, inc, ok)
            \/ Vector(r, ok)
            \/ \E cap \in 1..MaxCap, n \in 0..MaxCap, end \in BOOLEAN : Next_(r, cap, ok, n, end)
            \/ \E k \in 0..MaxRows : Seek(r, k, ok)
  \/ \E r \in Readers : Close(r)
  \/ CloseReader

Spec == Init /\ [][Next]_dvars

(* What is not hurt is as if nothing were.                                 *)
UnhurtReads == \A r \in Readers : ~Touched(br[r].inc) => br[r].st # "failed"
UnhurtOpens == ~meta => rst # "refused" /\ (rst = "open" => rows = written)
InFile == \A r \in Readers : br[r].cur <= rows \/ br[r].st = "none"
FailedStays == [][\A r \in Readers : br[r].st = "failed" /\ br'[r].cur # br[r].cur => br'[r].st = "open"]_dvars
==============================================================================
