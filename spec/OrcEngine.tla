----------------------------- MODULE OrcEngine -----------------------------
(***************************************************************************)
(* How goorc does it: rows are buffered and cut into stripes, every batch  *)
(* reader has a decoder per stripe, Seek positions one stripe by its row   *)
(* index (a stride) and skips the rest, later stripes that have been read  *)
(* before start over when they are entered.                                *)
(*                                                                         *)
(* pos is the row a stripe's decoder would really produce next; nothing    *)
(* but Delivered looks at it, so that a wrong position shows as a wrong    *)
(* row.  Refinement of OrcFile is checked by TLC.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Readers, MaxRows, MaxCap, Cut, Layouts   \* Layouts: set of [stride, indexed]

VARIABLES
  wst, stripes, buf,     \* writer: state, rows of written stripes, rows of the open stripe
  disk,                  \* "none", "partial", "complete"
  rst,
  lay,                   \* [stride, indexed]: how the file's row index divides stripes
  eng,                   \* batch readers: [st, si, cursor, pos, used]
  last                   \* result of the last call: [op, r, rows, end]

vars == <<wst, stripes, buf, disk, rst, lay, eng, last>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total == Sum(stripes)
StartOf(i) == Sum(SubSeq(stripes, 1, i - 1))

Idle == [st |-> "none", si |-> 1, cursor |-> 0, pos |-> <<>>, used |-> <<>>]
NoOp == [op |-> "none", r |-> 0, from |-> 0, rows |-> <<>>, end |-> FALSE]

Init ==
  /\ wst = "none" /\ stripes = <<>> /\ buf = 0 /\ disk = "none" /\ rst = "none"
  /\ lay \in Layouts
  /\ eng = [r \in Readers |-> Idle]
  /\ last = NoOp

------------------------------------------------------------------------------
WCreate ==
  /\ wst = "none" /\ wst' = "open" /\ disk' = "partial"
  /\ last' = [NoOp EXCEPT !.op = "wcreate"]
  /\ UNCHANGED <<stripes, buf, rst, lay, eng>>

(* A batch of n rows; a stripe is cut as soon as Cut rows are buffered.    *)
RECURSIVE CutRows(_, _, _)
CutRows(n, b, s) ==
  IF n = 0 THEN <<b, s>>
  ELSE IF b + 1 >= Cut THEN CutRows(n - 1, 0, Append(s, b + 1))
       ELSE CutRows(n - 1, b + 1, s)

WWrite(n) ==
  /\ wst = "open" /\ Total + buf + n <= MaxRows
  /\ LET c == CutRows(n, buf, stripes) IN buf' = c[1] /\ stripes' = c[2]
  /\ last' = [NoOp EXCEPT !.op = "write", !.from = n]
  /\ UNCHANGED <<wst, disk, rst, lay, eng>>

WClose ==
  /\ wst = "open" /\ wst' = "closed"
  /\ stripes' = IF buf > 0 THEN Append(stripes, buf) ELSE stripes   \* no empty stripe
  /\ buf' = 0 /\ disk' = "complete"
  /\ last' = [NoOp EXCEPT !.op = "wclose"]
  /\ UNCHANGED <<rst, lay, eng>>

Crash ==
  /\ wst = "open" /\ wst' = "closed" /\ buf' = 0 /\ stripes' = <<>>
  /\ last' = [NoOp EXCEPT !.op = "crash"]
  /\ UNCHANGED <<disk, rst, lay, eng>>

ROpen ==
  /\ rst = "none" /\ disk = "complete" /\ rst' = "open"
  /\ last' = [NoOp EXCEPT !.op = "open"]
  /\ UNCHANGED <<wst, stripes, buf, disk, lay, eng>>

RClose ==
  /\ rst = "open" /\ rst' = "closed"
  /\ last' = [NoOp EXCEPT !.op = "rclose"]
  /\ UNCHANGED <<wst, stripes, buf, disk, lay, eng>>

------------------------------------------------------------------------------
BCreate(r) ==
  /\ rst = "open" /\ eng[r].st \in {"none", "closed"}   \* the name of a closed one may be used again
  /\ eng' = [eng EXCEPT ![r] = [st |-> "open", si |-> 1, cursor |-> 0,
                                pos |-> [i \in 1..Len(stripes) |-> 0],
                                used |-> [i \in 1..Len(stripes) |-> FALSE]]]
  /\ last' = [NoOp EXCEPT !.op = "bcreate", !.r = r]
  /\ UNCHANGED <<wst, stripes, buf, disk, rst, lay>>

(* Position of a decoder after SeekStride(row \div Stride), Skip(rest).    *)
Positioned(row) ==
  LET stride == IF lay.indexed THEN row \div lay.stride ELSE 0
      skip == IF lay.indexed THEN row % lay.stride ELSE row
  IN stride * (IF lay.indexed THEN lay.stride ELSE 0) + skip

Enter(e, i, row) ==
  IF row # 0 \/ e.used[i]
  THEN [e EXCEPT !.si = i, !.pos[i] = Positioned(row), !.used[i] = (row # 0)]
  ELSE [e EXCEPT !.si = i]

Min(a, b) == IF a < b THEN a ELSE b

BNext(r, cap) ==
  LET e == eng[r] IN
  /\ e.st = "open"
  /\ IF e.cursor >= Total
     THEN /\ eng' = eng
          /\ last' = [op |-> "next", r |-> r, from |-> e.cursor, rows |-> <<>>, end |-> TRUE]
     ELSE LET left == stripes[e.si] - (e.cursor - StartOf(e.si))
              n == Min(cap, left)
              rows == [j \in 1..n |-> StartOf(e.si) + e.pos[e.si] + j]
              e1 == [e EXCEPT !.pos[e.si] = @ + n, !.used[e.si] = TRUE, !.cursor = @ + n]
              e2 == IF n = left /\ e.si < Len(stripes) THEN Enter(e1, e.si + 1, 0) ELSE e1
          IN /\ eng' = [eng EXCEPT ![r] = e2]
             /\ last' = [op |-> "next", r |-> r, from |-> e.cursor, rows |-> rows, end |-> (e2.cursor >= Total)]
  /\ UNCHANGED <<wst, stripes, buf, disk, rst, lay>>

StripeOf(k) == CHOOSE i \in 1..Len(stripes) : StartOf(i) <= k /\ k < StartOf(i) + stripes[i]

BSeek(r, k) ==
  LET e == eng[r] IN
  /\ e.st = "open"
  /\ IF k >= Total
     THEN /\ eng' = eng
          /\ last' = [NoOp EXCEPT !.op = "seekerr", !.r = r, !.from = k]
     ELSE /\ eng' = [eng EXCEPT ![r] = [Enter(e, StripeOf(k), k - StartOf(StripeOf(k))) EXCEPT !.cursor = k]]
          /\ last' = [NoOp EXCEPT !.op = "seek", !.r = r, !.from = k]
  /\ UNCHANGED <<wst, stripes, buf, disk, rst, lay>>

BClose(r) ==
  /\ eng[r].st = "open"
  /\ eng' = [eng EXCEPT ![r].st = "closed"]
  /\ last' = [NoOp EXCEPT !.op = "bclose", !.r = r]
  /\ UNCHANGED <<wst, stripes, buf, disk, rst, lay>>

SmallLayouts == {[stride |-> 1, indexed |-> TRUE], [stride |-> 2, indexed |-> TRUE], [stride |-> 5, indexed |-> TRUE],
                 [stride |-> 1, indexed |-> FALSE]}

Next ==
  \/ WCreate \/ WClose \/ Crash \/ ROpen \/ RClose
  \/ \E n \in 0..2 : WWrite(n)
  \/ \E r \in Readers :
       \/ BCreate(r) \/ BClose(r)
       \/ \E cap \in 1..MaxCap : BNext(r, cap)
       \/ \E k \in 0..(MaxRows + 1) : BSeek(r, k)

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Every delivered row is the row the position promises (C01, C02, C04).   *)
Delivered == last.op = "next" => last.rows = [j \in 1..Len(last.rows) |-> last.from + j]
EndExact == last.op = "next" => (last.end <=> last.from + Len(last.rows) = Total)
Progress == last.op = "next" /\ ~last.end => Len(last.rows) > 0
NoEmptyStripe == \A i \in 1..Len(stripes) : stripes[i] > 0
CutRule == \A i \in 1..Len(stripes) : stripes[i] <= Cut /\ (i < Len(stripes) => stripes[i] = Cut)
NothingHeldBack == wst = "open" => buf < Cut

(* Refinement: OrcFile with the engine's cursors.                          *)
Contract == INSTANCE OrcFile WITH
  Readers <- Readers, MaxRows <- MaxRows, MaxCap <- MaxCap,
  wrows <- IF wst = "closed" /\ disk # "complete" THEN 0 ELSE Total + buf,
  wpend <- FALSE, werr <- FALSE,
  br <- [r \in Readers |-> [st |-> eng[r].st, cur |-> eng[r].cursor]]
Refines == [][ (last'.op # "crash") => Contract!Next \/ UNCHANGED Contract!vars ]_vars
==============================================================================
