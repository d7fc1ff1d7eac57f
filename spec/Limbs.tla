------------------------------- MODULE Limbs -------------------------------
(* 64-bit patterns as four 16-bit limbs, high limb first: TLC's integers    *)
(* have 32 bits.                                                           *)
EXTENDS Naturals, Integers, Sequences

P2 == [n \in 0..30 |-> 2 ^ n]
Zero64 == <<0, 0, 0, 0>>
One64 == <<0, 0, 0, 1>>

Add64(a, b) ==
  LET d == a[4] + b[4]
      c == a[3] + b[3] + (d \div 65536)
      e == a[2] + b[2] + (c \div 65536)
      f == a[1] + b[1] + (e \div 65536)
  IN <<f % 65536, e % 65536, c % 65536, d % 65536>>
Not64(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Neg64(a) == Add64(Not64(a), One64)
Sub64(a, b) == Add64(a, Neg64(b))
Negative(a) == a[1] >= 32768
Shr1(a) == <<a[1] \div 2, (a[1] % 2) * 32768 + a[2] \div 2, (a[2] % 2) * 32768 + a[3] \div 2, (a[3] % 2) * 32768 + a[4] \div 2>>
UnZig(a) == IF a[4] % 2 = 1 THEN Not64(Shr1(a)) ELSE Shr1(a)
Low(a, n) == a[4] % P2[n]

LessU(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
Flip(a) == <<(a[1] + 32768) % 65536, a[2], a[3], a[4]>>
LeqS(a, b) == ~LessU(Flip(b), Flip(a))

(* A small natural number as limbs, and limbs as one if it is small.       *)
Of(n) == <<0, 0, n \div 65536, n % 65536>>
Small(a) == a[1] = 0 /\ a[2] = 0 /\ a[3] < 16384
ToNat(a) == a[3] * 65536 + a[4]

(* Shift left by k < 64 bits.                                              *)
Shl(a, k) ==
  LET m == k \div 16  r == k % 16
      s(j) == IF j + m > 4 THEN 0 ELSE a[j + m]
      limb(j) == ((s(j) % P2[16 - r]) * P2[r] + (s(j + 1) \div P2[16 - r])) % 65536
  IN IF r = 0 THEN <<s(1), s(2), s(3), s(4)>> ELSE <<limb(1), limb(2), limb(3), limb(4)>>

(* n <= 16 bits of bytes B at bit offset b, big endian.                    *)
Byte(B, q) == IF q <= Len(B) THEN B[q] ELSE 0
Bits(B, b, n) ==
  LET q == b \div 8 + 1  r == b % 8
      x == Byte(B, q) * 65536 + Byte(B, q + 1) * 256 + Byte(B, q + 2)
  IN (x \div P2[24 - r - n]) % P2[n]
(* w <= 64 bits as limbs.                                                  *)
Word(B, b, w) ==
  IF w = 0 THEN Zero64
  ELSE IF w <= 16 THEN <<0, 0, 0, Bits(B, b, w)>>
  ELSE IF w <= 32 THEN <<0, 0, Bits(B, b, w - 16), Bits(B, b + w - 16, 16)>>
  ELSE IF w <= 48 THEN <<0, Bits(B, b, w - 32), Bits(B, b + w - 32, 16), Bits(B, b + w - 16, 16)>>
  ELSE <<Bits(B, b, w - 48), Bits(B, b + w - 48, 16), Bits(B, b + w - 32, 16), Bits(B, b + w - 16, 16)>>

(* Base 128 varint at position p: its length, 0 if there is none.          *)
RECURSIVE VLenFrom(_, _, _)
VLenFrom(B, p, n) ==
  IF n > 10 \/ p + n - 1 > Len(B) THEN 0
  ELSE IF B[p + n - 1] < 128 THEN n
  ELSE VLenFrom(B, p, n + 1)
VLen(B, p) == VLenFrom(B, p, 1)
Varint(B, p, len) ==
  LET g(j) == IF j < len THEN B[p + j] % 128 ELSE 0
      limb(k) == LET q == (16 * k) \div 7  r == (16 * k) % 7
                 IN ((g(q) + g(q + 1) * 128 + g(q + 2) * 16384 + (g(q + 3) % 8) * 2097152) \div P2[r]) % 65536
  IN <<limb(3), limb(2), limb(1), limb(0)>>
(* It fits 64 bits.                                                        *)
VOk(B, p, len) == len > 0 /\ (len = 10 => B[p + 9] <= 1)
=============================================================================
