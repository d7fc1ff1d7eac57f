------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* What ORC stores for a cell. Cells are <<0>> (null) or <<1, ...>>:       *)
(* integers and mantissas as limbs, text and binary as bytes, dates as     *)
(* year, month, day, timestamps as limbs of seconds and two limbs of       *)
(* nanoseconds, floats as limbs of their bits.                             *)
(***************************************************************************)
EXTENDS Limbs

Num(cell) == SubSeq(cell, 2, 5)
Text(cell) == Tail(cell)

(* Proleptic Gregorian calendar.                                           *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
BeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
(* Days from 0001-01-01 to the first of January of year y.                 *)
BeforeYear(y) == LET z == y - 1 IN 365 * z + z \div 4 - z \div 100 + z \div 400
Epoch == BeforeYear(1970)
DaysOf(y, m, d) == BeforeYear(y) + BeforeMonth[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1 - Epoch

Signed(n) == IF n >= 0 THEN Of(n) ELSE Neg64(Of(-n))

(* Seconds of timestamps, in cells and stored, count from 2015-01-01.       *)
Base2015 == <<0, 0, 21668, 36352>>
ASSUME ToNat(<<0, 0, 0, 36352>>) + 21668 * 65536 = 16436 * 86400 /\ DaysOf(2015, 1, 1) = 16436

(* Nanoseconds: up to nine trailing zeros are taken off, if two or more;   *)
(* three low bits say how many less one.                                   *)
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 \/ n % 10 # 0 THEN 0 ELSE 1 + Zeros(n \div 10)
Ten == <<10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
PackNanos(n) ==
  IF n = 0 THEN Zero64
  ELSE LET z == Zeros(n) IN
       IF z < 2 THEN Shl(Of(n), 3)
       ELSE Add64(Shl(Of(n \div Ten[z]), 3), Of(z - 1))
Nanos(cell) == cell[6] * 65536 + cell[7]

FloatBytes(cell) == <<cell[3] % 256, cell[3] \div 256, cell[2] % 256, cell[2] \div 256>>
DoubleBytes(cell) == <<cell[5] % 256, cell[5] \div 256, cell[4] % 256, cell[4] \div 256,
                       cell[3] % 256, cell[3] \div 256, cell[2] % 256, cell[2] \div 256>>
=============================================================================
