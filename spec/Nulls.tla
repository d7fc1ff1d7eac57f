------------------------------- MODULE Nulls -------------------------------
(***************************************************************************)
(* Where nulls live in a file: a nullable column has a present stream with *)
(* one bit per row, values are stored for rows that are not null only, a   *)
(* column below a nullable struct has neither bits nor values for rows in  *)
(* which the struct is null; every stripe has streams of its own, and a    *)
(* stripe without nulls may go without a present stream.                   *)
(*                                                                         *)
(* Rows are written and read back one by one.  Columns: s, a nullable      *)
(* struct with field x, and b, a nullable column.  With GEN every pattern  *)
(* is printed for the driver, which writes and reads it with the library.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS N, Splits, Gen

VARIABLES sn, bn,        \* the pattern: rows in which s and b are null
          split,         \* rows of the stripes
          ps, px, pb, vb,\* per stripe: present bits of s, values of x, present bits of b, values of b
          w, r,          \* rows written and read
          cs, cx, cb, cv,\* decoder positions in the stripe being read
          out            \* rows read: <<x or 0, b or 0>>

vars == <<sn, bn, split, ps, px, pb, vb, w, r, cs, cx, cb, cv, out>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
StripeOf(row) == CHOOSE i \in 1..Len(split) : Sum(SubSeq(split, 1, i - 1)) < row /\ row <= Sum(SubSeq(split, 1, i))

Quick == {<<5>>, <<2, 3>>, <<1, 3, 1>>}
Thorough == {<<6>>, <<3, 3>>, <<1, 4, 1>>, <<2, 2, 2>>}

Init ==
  /\ sn \in [1..N -> BOOLEAN] /\ bn \in [1..N -> BOOLEAN]
  /\ split \in Splits
  /\ ps = [i \in 1..Len(split) |-> <<>>] /\ px = ps /\ pb = ps /\ vb = ps
  /\ w = 0 /\ r = 0 /\ cs = 0 /\ cx = 0 /\ cb = 0 /\ cv = 0 /\ out = <<>>

Write ==
  /\ w < N
  /\ LET row == w + 1  i == StripeOf(row) IN
     /\ ps' = [ps EXCEPT ![i] = Append(@, ~sn[row])]
     /\ px' = IF sn[row] THEN px ELSE [px EXCEPT ![i] = Append(@, row)]
     /\ pb' = [pb EXCEPT ![i] = Append(@, ~bn[row])]
     /\ vb' = IF bn[row] THEN vb ELSE [vb EXCEPT ![i] = Append(@, row)]
  /\ w' = w + 1
  /\ UNCHANGED <<sn, bn, split, r, cs, cx, cb, cv, out>>

AllSet(q) == \A j \in 1..Len(q) : q[j]
(* The stripe's present stream as the reader sees it: left out if full.    *)
Bit(q, j) == IF AllSet(q) THEN TRUE ELSE q[j]

Read ==
  /\ w = N /\ r < N
  /\ LET row == r + 1
         i == StripeOf(row)
         new == r > 0 /\ StripeOf(r) # i
         s0 == IF new THEN 0 ELSE cs   x0 == IF new THEN 0 ELSE cx
         b0 == IF new THEN 0 ELSE cb   v0 == IF new THEN 0 ELSE cv
         s == Bit(ps[i], s0 + 1)       b == Bit(pb[i], b0 + 1)
     IN /\ cs' = s0 + 1 /\ cb' = b0 + 1
        /\ cx' = IF s THEN x0 + 1 ELSE x0
        /\ cv' = IF b THEN v0 + 1 ELSE v0
        /\ out' = Append(out, <<IF s THEN px[i][x0 + 1] ELSE 0, IF b THEN vb[i][v0 + 1] ELSE 0>>)
  /\ r' = r + 1
  /\ UNCHANGED <<sn, bn, split, ps, px, pb, vb, w>>

Done ==
  /\ r = N /\ Gen
  /\ PrintT("SEQ " \o ToJson([s |-> sn, b |-> bn, split |-> split]))
  /\ r' = N + 1
  /\ UNCHANGED <<sn, bn, split, ps, px, pb, vb, w, cs, cx, cb, cv, out>>

Next == Write \/ Read \/ Done
Spec == Init /\ [][Next]_vars

(* Nulls are where they were written, values are those of their row.       *)
InPlace == \A j \in 1..Len(out) : out[j] = <<IF sn[j] THEN 0 ELSE j, IF bn[j] THEN 0 ELSE j>>
=============================================================================
