------------------------------- MODULE RleV2 -------------------------------
(***************************************************************************)
(* Integer run-length encoding version 2 of ORC, from its specification.   *)
(* A run at position p of bytes B is legal and means values; vals are the  *)
(* values a sequence is expected to have from index k on.                  *)
(***************************************************************************)
EXTENDS Limbs

Widths == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 28, 30, 32, 40, 48, 56, 64>>
Width(code) == Widths[code + 1]
Closest(w) == IF w = 0 THEN 1 ELSE Widths[CHOOSE c \in 1..32 : Widths[c] >= w /\ (c = 1 \/ Widths[c - 1] < w)]
BytesOf(bits) == (bits + 7) \div 8

RunKind(B, p) == B[p] \div 64           \* 0 short repeat, 1 direct, 2 patched base, 3 delta
Has(B, p, n) == p + n - 1 <= Len(B)
Dec(signed, w) == IF signed THEN UnZig(w) ELSE w

Bad == [ok |-> FALSE, next |-> 0, n |-> 0]

------------------------------------------------------------------------------
(* Length in bytes and values of the run; ok: it is well formed.           *)

ShortRepeat(B, p) ==
  LET w == ((B[p] \div 8) % 8) + 1  n == (B[p] % 8) + 3
  IN IF ~Has(B, p, 1 + w) THEN Bad ELSE [ok |-> TRUE, next |-> p + 1 + w, n |-> n, w |-> 8 * w]

Count9(B, p) == (B[p] % 2) * 256 + B[p + 1] + 1
Code(B, p) == (B[p] \div 2) % 32

Direct(B, p) ==
  IF ~Has(B, p, 2) THEN Bad
  ELSE LET w == Width(Code(B, p))  n == Count9(B, p)  len == 2 + BytesOf(w * n)
       IN IF ~Has(B, p, len) THEN Bad ELSE [ok |-> TRUE, next |-> p + len, n |-> n, w |-> w]

RECURSIVE PatchAt(_, _, _, _, _, _, _)
(* positions and bits of patches: <<<<index from 1, patch>>, ...>>         *)
PatchAt(B, bit, left, ew, pw, gap, acc) ==
  IF left = 0 THEN acc
  ELSE LET e == Word(B, bit, ew)
           patch == Word(B, bit + ew - pw, pw)
           g == IF ew = pw THEN 0 ELSE ToNat(Word(B, bit, ew - pw))
           at == gap + g
       IN IF patch = Zero64 THEN PatchAt(B, bit + ew, left - 1, ew, pw, at, acc)   \* only skips
          ELSE PatchAt(B, bit + ew, left - 1, ew, pw, at, Append(acc, <<at + 1, patch>>))

(* Closest widths may be wider than the patch: its bits must still fit.    *)
Fits(patch, w) == LessU(patch, Shl(One64, 64 - w))

Patched(B, p) ==
  IF ~Has(B, p, 4) THEN Bad
  ELSE LET w == Width(Code(B, p))
           n == Count9(B, p)
           bw == B[p + 2] \div 32 + 1
           pw == Width(B[p + 2] % 32)
           gw == B[p + 3] \div 32 + 1
           pl == B[p + 3] % 32
           data == p + 4 + bw
           list == data + BytesOf(w * n)
           ew == Closest(pw + gw)
           len == 4 + bw + BytesOf(w * n) + BytesOf(ew * pl)
           b == Word(B, (p + 3) * 8, 8 * bw)
           neg == Bits(B, (p + 3) * 8, 1) = 1
           base == IF neg THEN Neg64(IF bw % 2 = 0 THEN [b EXCEPT ![5 - bw \div 2] = @ - 32768]
                                     ELSE [b EXCEPT ![4 - bw \div 2] = @ - 128]) ELSE b
       IN IF ~Has(B, p, len) \/ pw + gw > 64 \/ pl = 0 THEN Bad
          ELSE LET ps == PatchAt(B, (list - 1) * 8, pl, ew, pw, 0, <<>>)
               IN IF \E j \in 1..Len(ps) : ps[j][1] > n \/ ~Fits(ps[j][2], w) THEN Bad
                  ELSE [ok |-> TRUE, next |-> p + len, n |-> n, w |-> w, data |-> data, base |-> base, ps |-> ps]

Delta(B, p) ==
  IF ~Has(B, p, 4) THEN Bad
  ELSE LET c == Code(B, p)
           w == IF c = 0 THEN 0 ELSE Width(c)
           n == Count9(B, p)
           l1 == VLen(B, p + 2)
           l2 == IF l1 = 0 THEN 0 ELSE VLen(B, p + 2 + l1)
           data == p + 2 + l1 + l2
           len == 2 + l1 + l2 + (IF w = 0 THEN 0 ELSE BytesOf(w * (n - 2)))
       IN IF ~VOk(B, p + 2, l1) \/ ~VOk(B, p + 2 + l1, l2) \/ ~Has(B, p, len) \/ (w > 0 /\ n < 2) THEN Bad
          ELSE [ok |-> TRUE, next |-> p + len, n |-> n, w |-> w, data |-> data,
                first |-> Varint(B, p + 2, l1), step |-> UnZig(Varint(B, p + 2 + l1, l2))]

Run(B, p) == CASE RunKind(B, p) = 0 -> ShortRepeat(B, p)
               [] RunKind(B, p) = 1 -> Direct(B, p)
               [] RunKind(B, p) = 2 -> Patched(B, p)
               [] OTHER -> Delta(B, p)

------------------------------------------------------------------------------
(* The run x = Run(B, p) means vals[k + 1], ..., vals[k + x.n].            *)

Means(B, p, x, signed, vals, k) ==
  CASE RunKind(B, p) = 0 ->
         LET v == Dec(signed, Word(B, p * 8, x.w)) IN \A j \in 1..x.n : vals[k + j] = v
    [] RunKind(B, p) = 1 ->
         \A j \in 1..x.n : vals[k + j] = Dec(signed, Word(B, (p + 1) * 8 + (j - 1) * x.w, x.w))
    [] RunKind(B, p) = 2 ->
         LET at == {x.ps[m][1] : m \in 1..Len(x.ps)}
             low(j) == Word(B, (x.data - 1) * 8 + (j - 1) * x.w, x.w)
             patch(j) == LET m == CHOOSE m \in 1..Len(x.ps) : x.ps[m][1] = j IN Shl(x.ps[m][2], x.w)
         IN \A j \in 1..x.n :
              vals[k + j] = Add64(x.base, IF j \in at THEN Add64(low(j), patch(j)) ELSE low(j))
    [] OTHER ->
         /\ vals[k + 1] = Dec(signed, x.first)
         /\ x.n > 1 => vals[k + 2] = Add64(vals[k + 1], x.step)
         /\ \A j \in 3..x.n :
              LET d == IF x.w = 0 THEN x.step
                       ELSE LET m == Word(B, (x.data - 1) * 8 + (j - 3) * x.w, x.w) IN IF Negative(x.step) THEN Neg64(m) ELSE m
              IN vals[k + j] = Add64(vals[k + j - 1], d)

(* One step of a decoder over B that is at byte p and value k of vals.     *)
Step(B, p, signed, vals, k) ==
  LET x == Run(B, p) IN x.ok /\ k + x.n <= Len(vals) /\ Means(B, p, x, signed, vals, k) = TRUE
=============================================================================
