------------------------------ MODULE ByteRle ------------------------------
(***************************************************************************)
(* Byte run-length encoding of ORC: a control byte c < 128 repeats the next *)
(* byte c + 3 times, c >= 128 is followed by 256 - c literal bytes.         *)
(* Booleans are bits of such bytes, first one in the high bit.              *)
(***************************************************************************)
EXTENDS Limbs

BRun(B, p) ==
  IF p > Len(B) THEN [ok |-> FALSE]
  ELSE IF B[p] < 128
       THEN [ok |-> p + 1 <= Len(B), next |-> p + 2, n |-> B[p] + 3, rep |-> TRUE]
       ELSE [ok |-> p + 256 - B[p] <= Len(B), next |-> p + 257 - B[p], n |-> 256 - B[p], rep |-> FALSE]

BByte(B, p, x, j) == IF x.rep THEN B[p + 1] ELSE B[p + j]

ByteStep(B, p, vals, k) ==
  LET x == BRun(B, p) IN
  /\ x.ok /\ k + x.n <= Len(vals)
  /\ \A j \in 1..x.n : vals[k + j] = BByte(B, p, x, j)

(* k counts bytes; bits is a sequence of 0 and 1, bits behind its end are free *)
BoolStep(B, p, bits, k) ==
  LET x == BRun(B, p) IN
  /\ x.ok /\ 8 * (k + x.n - 1) < Len(bits)
  /\ \A j \in 1..x.n :
       LET b == BByte(B, p, x, j) IN
       \A m \in 1..8 : LET at == 8 * (k + j - 1) + m
                       IN at <= Len(bits) => bits[at] = (b \div P2[8 - m]) % 2
BoolEnd(bits, k) == k = (Len(bits) + 7) \div 8
=============================================================================
