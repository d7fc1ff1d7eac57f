------------------------------ MODULE Batches ------------------------------
(***************************************************************************)
(* Rows are cut into stripes by their size alone: however they are split   *)
(* into Write calls, empty ones included, the stripes are those of writing *)
(* row by row (C09), none is empty, and no row is held back once the size  *)
(* is reached (C08).                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Rows, Limit, MaxSize

VARIABLES
  size,     \* size of every row
  done,     \* rows accepted
  buf,      \* rows and size of the stripe being made
  stripes,  \* rows of stripes on disk
  calls,    \* Write calls
  wst
vars == <<size, done, buf, stripes, calls, wst>>

Init == /\ size \in [1..Rows -> 0..MaxSize]
        /\ done = 0 /\ buf = <<0, 0>> /\ stripes = <<>> /\ calls = 0 /\ wst = "open"

RECURSIVE Take(_, _, _, _)
Take(b, ss, at, n) ==
  IF n = 0 THEN <<b, ss>>
  ELSE LET c == <<b[1] + 1, b[2] + size[at + 1]>> IN
       IF c[2] >= Limit THEN Take(<<0, 0>>, Append(ss, c[1]), at + 1, n - 1)
       ELSE Take(c, ss, at + 1, n - 1)

Write(n) ==
  /\ wst = "open" /\ done + n <= Rows /\ calls < Rows + 2
  /\ LET t == Take(buf, stripes, done, n) IN buf' = t[1] /\ stripes' = t[2]
  /\ done' = done + n /\ calls' = calls + 1
  /\ UNCHANGED <<size, wst>>

Close ==
  /\ wst = "open" /\ wst' = "closed"
  /\ stripes' = IF buf[1] > 0 THEN Append(stripes, buf[1]) ELSE stripes
  /\ buf' = <<0, 0>>
  /\ UNCHANGED <<size, done, calls>>

Next == Close \/ \E n \in 0..Rows : Write(n)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Stripes of the first n rows, by themselves.                             *)
RECURSIVE Greedy(_, _, _)
Greedy(from, to, n) ==       \* from: first row of the stripe, to: row looked at
  IF to > n THEN IF to > from THEN <<to - from>> ELSE <<>>
  ELSE LET RECURSIVE Sum(_)
           Sum(k) == IF k < from THEN 0 ELSE size[k] + Sum(k - 1)
       IN IF Sum(to) >= Limit THEN <<to - from + 1>> \o Greedy(to + 1, to + 1, n)
          ELSE Greedy(from, to + 1, n)

SplitDoesNotMatter ==
  Greedy(1, 1, done) = IF wst = "closed" \/ buf[1] = 0 THEN stripes ELSE Append(stripes, buf[1])
NoEmptyStripe == \A i \in 1..Len(stripes) : stripes[i] > 0
NothingHeldBack == wst = "open" => buf[2] < Limit
==============================================================================
