------------------------------ MODULE Calendar ------------------------------
(* Months of the proleptic Gregorian calendar, one after the other, against *)
(* the closed formula of Values.                                            *)
EXTENDS Values

CONSTANT LastYear
VARIABLES y, m, n          \* n: days since 1970-01-01 at the first of the month

Init == y = 1 /\ m = 1 /\ n = -719162
Next == /\ y <= LastYear
        /\ n' = n + MonthDays(y, m)
        /\ IF m = 12 THEN y' = y + 1 /\ m' = 1 ELSE y' = y /\ m' = m + 1
Spec == Init /\ [][Next]_<<y, m, n>>

Formula == \A d \in {1, MonthDays(y, m)} : DaysOf(y, m, d) = n + d - 1
Epoch1970 == (y = 1970 /\ m = 1) => n = 0
(* 400 years are 146097 days *)
Cycle == y > 400 => DaysOf(y, m, 1) = DaysOf(y - 400, m, 1) + 146097
==============================================================================
