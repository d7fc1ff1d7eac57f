------------------------------ MODULE OrcFile ------------------------------
(***************************************************************************)
(* The contract of goorc at the level of its public calls: one file, its   *)
(* writer, the reader opened on it and the batch readers created from it.  *)
(* Rows are numbers 1..n in the order they were accepted; the cells of a   *)
(* row are looked at by OrcFileTrace.  OrcEngine refines this module with  *)
(* stripes and strides, the way the code works.                            *)
(*                                                                         *)
(* flt says whether an operation of the file system failed during a call.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Readers                 \* names of batch readers

VARIABLES
  wst,     \* writer: "none", "open", "closed"
  wrows,   \* rows of successful Write calls
  wpend,   \* a file operation failed and no call has returned an error since
  werr,    \* a call has returned an error
  disk,    \* "none", "partial", "complete": what a reader finds
  rst,     \* reader: "none", "open", "closed"
  br       \* batch readers: [st |-> "none" | "open" | "failed" | "closed", cur |-> rows delivered before]

vars == <<wst, wrows, wpend, werr, disk, rst, br>>

NoBr == [st |-> "none", cur |-> 0]

Init ==
  /\ wst = "none" /\ wrows = 0 /\ wpend = FALSE /\ werr = FALSE
  /\ disk = "none" /\ rst = "none"
  /\ br = [r \in Readers |-> NoBr]

------------------------------------------------------------------------------
(* Writer.  A failed file operation is reported by the call in progress or *)
(* a later one, at the latest by Close; without one no call fails.         *)

WResult(ok, flt) ==
  /\ ~ok => (flt \/ wpend \/ werr)
  /\ wpend' = (ok /\ (flt \/ wpend))
  /\ werr' = (werr \/ ~ok)

WCreate(ok, flt) ==
  /\ wst = "none"
  /\ WResult(ok, flt)
  /\ wst' = IF ok THEN "open" ELSE "closed"
  /\ disk' = "partial"
  /\ UNCHANGED <<wrows, rst, br>>

WWrite(n, ok, flt) ==
  /\ wst = "open"
  /\ WResult(ok, flt)
  /\ wrows' = IF ok THEN wrows + n ELSE wrows
  /\ UNCHANGED <<wst, disk, rst, br>>

WClose(ok, flt) ==
  /\ wst = "open"
  /\ WResult(ok, flt)
  /\ ~wpend'                                   \* nothing is left unreported
  /\ wst' = "closed"
  /\ disk' = IF ok /\ ~werr' THEN "complete" ELSE disk
  /\ UNCHANGED <<wrows, rst, br>>

(* The process may end at any moment: what is on disk is a strict prefix.  *)
Crash ==
  /\ wst = "open"
  /\ wst' = "closed"
  /\ UNCHANGED <<wrows, wpend, werr, disk, rst, br>>

------------------------------------------------------------------------------
(* Reader                                                                  *)

ROpen(ok, n, flt) ==
  /\ rst \in {"none", "closed"}                 \* a file may be opened again and again
  /\ ok => disk = "complete" /\ ~flt /\ n = wrows
  /\ ~ok => disk # "complete" \/ flt
  /\ rst' = IF ok THEN "open" ELSE rst
  /\ UNCHANGED <<wst, wrows, wpend, werr, disk, br>>

RClose ==
  /\ rst' = IF rst = "open" THEN "closed" ELSE rst
  /\ UNCHANGED <<wst, wrows, wpend, werr, disk, br>>

BCreate(r, ok, flt) ==
  /\ rst = "open"
  /\ br[r].st \in {"none", "closed"}           \* the name of a closed one may be used again
  /\ ok = ~flt
  /\ br' = [br EXCEPT ![r] = [st |-> IF ok THEN "open" ELSE "none", cur |-> 0]]
  /\ UNCHANGED <<wst, wrows, wpend, werr, disk, rst>>

(* Next delivers n rows, at most cap, and says whether rows are left.  It  *)
(* fails if a file operation failed, and may go on failing until a Seek    *)
(* has succeeded; it never delivers rows together with an error.           *)
BNext(r, cap, ok, n, end, flt) ==
  /\ br[r].st \in {"open", "failed"}
  /\ IF ok
     THEN /\ ~flt
          /\ IF br[r].cur = wrows
             THEN n = 0 /\ end
             ELSE n \in 1..cap /\ br[r].cur + n <= wrows /\ end = (br[r].cur + n = wrows)
          /\ br' = [br EXCEPT ![r] = [st |-> "open", cur |-> br[r].cur + n]]
     ELSE /\ flt \/ br[r].st = "failed"
          /\ br' = [br EXCEPT ![r].st = "failed"]
  /\ UNCHANGED <<wst, wrows, wpend, werr, disk, rst>>

(* Row k (from 0) is next after a successful Seek(k).                      *)
BSeek(r, k, ok, flt) ==
  /\ br[r].st \in {"open", "failed"}
  /\ IF ok
     THEN /\ ~flt
          /\ br' = [br EXCEPT ![r] = [st |-> "open", cur |-> IF k < wrows THEN k ELSE wrows]]
     ELSE IF k >= wrows
          THEN /\ br' = br                     \* refused, position is kept
          ELSE /\ flt
               /\ br' = [br EXCEPT ![r].st = "failed"]
  /\ UNCHANGED <<wst, wrows, wpend, werr, disk, rst>>

BClose(r) ==
  /\ br[r].st \in {"open", "failed"}
  /\ br' = [br EXCEPT ![r].st = "closed"]
  /\ UNCHANGED <<wst, wrows, wpend, werr, disk, rst>>

------------------------------------------------------------------------------
(* Closed model for TLC: MaxRows, MaxCap bound the constants.              *)
CONSTANTS MaxRows, MaxCap

Next ==
  \/ \E ok, flt \in BOOLEAN :
       \/ WCreate(ok, flt)
       \/ \E n \in 0..2 : wrows + n <= MaxRows /\ WWrite(n, ok, flt)
       \/ WClose(ok, flt)
       \/ ROpen(ok, wrows, flt)
       \/ \E r \in Readers :
            \/ BCreate(r, ok, flt)
            \/ \E cap \in 1..MaxCap, n \in 0..MaxCap, end \in BOOLEAN : BNext(r, cap, ok, n, end, flt)
            \/ \E k \in 0..(MaxRows + 1) : BSeek(r, k, ok, flt)
  \/ Crash
  \/ RClose
  \/ \E r \in Readers : BClose(r)

Spec == Init /\ [][Next]_vars

TypeOK ==
  /\ wst \in {"none", "open", "closed"} /\ wrows \in 0..MaxRows
  /\ wpend \in BOOLEAN /\ werr \in BOOLEAN
  /\ disk \in {"none", "partial", "complete"} /\ rst \in {"none", "open", "closed"}
  /\ br \in [Readers -> [st : {"none", "open", "failed", "closed"}, cur : 0..MaxRows]]

(* C15: a file whose writer reported nothing is complete.                  *)
NothingUnreported == disk = "complete" => ~wpend /\ ~werr
(* C14: a reader exists only for a complete file.                          *)
OnlyComplete == rst # "none" => disk = "complete"
(* C02, C04: positions stay in the file.                                   *)
PositionsInFile == \A r \in Readers : br[r].cur <= wrows
(* C17: a step moves at most one batch reader and never the file once it   *)
(* is complete.                                                            *)
Isolation == [][/\ \A a, b \in Readers : br'[a] # br[a] /\ br'[b] # br[b] => a = b
                /\ disk = "complete" => disk' = disk /\ wrows' = wrows]_vars
(* C02: the end is reported exactly when no row is left: by BNext's        *)
(* definition; stated again over positions that only grow by Next.         *)
==============================================================================
