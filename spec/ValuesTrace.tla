---------------------------- MODULE ValuesTrace ----------------------------
(***************************************************************************)
(* Conversions of the library for dates, nanoseconds and times, recorded   *)
(* as runs: dates of a month whose day numbers follow one another, and     *)
(* nanoseconds in steps in which the packed numbers are in steps too.      *)
(* The runs of a trace leave nothing out between its start and its end.    *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, at       \* at: the next date, or nanosecond
vars == <<tid, i, at>>
T == Traces[tid]
E == T.events[i]

Init == tid \in 1..Len(Traces) /\ i = 1 /\ at = T.from

IsEvent(op) == i <= Len(T.events) /\ E.op = op /\ i' = i + 1 /\ tid' = tid

(* len dates from y-m-d, stored as n, n + 1, ... ; or read from them        *)
Dates ==
  /\ IsEvent("dates")
  /\ at = <<E.y, E.m, E.d>>
  /\ E.len > 0 /\ E.d + E.len - 1 <= MonthDays(E.y, E.m)
  /\ E.n = DaysOf(E.y, E.m, E.d)
  /\ at' = IF E.d + E.len - 1 < MonthDays(E.y, E.m) THEN <<E.y, E.m, E.d + E.len>>
           ELSE IF E.m < 12 THEN <<E.y, E.m + 1, 1>> ELSE <<E.y + 1, 1, 1>>

(* len nanoseconds n, n + step, ...: packed enc, enc + estep, ..., last     *)
Linear(n, step) ==
  IF n % 100 # 0 THEN IF step = 100 THEN 800 ELSE 0
  ELSE LET z == Zeros(n) IN IF z < 9 /\ step = Ten[z + 1] THEN 80 ELSE 0
Nano ==
  /\ IsEvent("nanos")
  /\ at = <<E.n>> /\ E.step = T.step /\ E.len > 0
  /\ LET last == E.n + E.step * (E.len - 1) IN
       /\ last <= 999999999
       /\ E.enc = PackNanos(E.n)
       /\ E.len > 1 => E.last = PackNanos(last) /\ E.estep = Linear(E.n, E.step)
       /\ E.dec = E.n /\ (E.len > 1 => E.dstep = E.step)
       /\ at' = <<last + E.step>>

(* A point in time of a location: civil fields there, off seconds east of   *)
(* Greenwich on 2015-01-01, delta seconds more at that time.                *)
Times86400(a) == Add64(Add64(Shl(a, 16), Shl(a, 14)), Add64(Shl(a, 12), Add64(Shl(a, 8), Shl(a, 7))))
Times1000(a) == Sub64(Sub64(Shl(a, 10), Shl(a, 4)), Shl(a, 3))
Time ==
  /\ IsEvent("time") /\ UNCHANGED at
  /\ LET c == E.civil
         sec == Sub64(Add64(Times86400(Signed(DaysOf(c[1], c[2], c[3]) - 16436)), Of(c[4] * 3600 + c[5] * 60 + c[6])), Signed(E.delta))
         ms(s) == Add64(Times1000(s), Of(E.ns \div 1000000))
     IN /\ E.sec = sec
        /\ E.nanos = E.ns
        /\ E.back = E.civil /\ E.backns = E.ns
        /\ E.ms = ms(Sub64(Add64(sec, Base2015), Signed(E.off)))
        /\ E.msutc = ms(Add64(sec, Base2015))

Next ==
  \/ Dates \/ Nano \/ Time
  \/ i > Len(T.events) /\ at = T.to /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
==============================================================================
