------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* When a ColumnStatistics message is true of a column's cells.            *)
(* st is what the driver took from the message: count, hasnull, which,     *)
(* min, max (limbs, or bytes of text), hasmin, hasmax, sum, bucket,        *)
(* minutc, maxutc, lower, upper; things that are absent are <<>>.          *)
(***************************************************************************)
EXTENDS Values, SequencesExt

Filled0(cells) == SelectSeq(cells, LAMBDA v : v # <<0>>)

(* ---- integers ---- *)
(* The sum of 64-bit numbers, as five limbs: the first is signed and holds *)
(* what does not fit 64 bits.                                              *)
Sum64(vs) ==
  LET c == FoldLeft(LAMBDA a, v : <<a[1] + (IF v[1] >= 32768 THEN v[1] - 65536 ELSE v[1]), a[2] + v[2], a[3] + v[3], a[4] + v[4]>>,
                    <<0, 0, 0, 0>>, vs)
      d3 == c[3] + (c[4] \div 65536)
      d2 == c[2] + (d3 \div 65536)
      d1 == c[1] + (d2 \div 65536)
  IN [fits |-> d1 >= -32768 /\ d1 <= 32767, val |-> <<(d1 + 1073741824) % 65536, d2 % 65536, d3 % 65536, c[4] % 65536>>]
ASSUME 1073741824 % 65536 = 0
SumTrue(sum, vs) == sum = <<>> \/ (LET t == Sum64(vs) IN t.fits /\ t.val = sum)

(* A bound and one of the values.                                          *)
Bounds(st, vs, Leq(_, _)) ==
  /\ st.hasmin => /\ \A j \in 1..Len(vs) : Leq(st.min, vs[j])
                  /\ st.lower \/ \E j \in 1..Len(vs) : Leq(vs[j], st.min)
  /\ st.hasmax => /\ \A j \in 1..Len(vs) : Leq(vs[j], st.max)
                  /\ st.upper \/ \E j \in 1..Len(vs) : Leq(st.max, vs[j])

(* ---- text: bytes in lexicographic order ---- *)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, j) ==
  IF j > Len(a) THEN TRUE
  ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[j] # b[j] THEN a[j] < b[j]
  ELSE LexFrom(a, b, j + 1)
LexLeq(a, b) == LexFrom(a, b, 1)

(* ---- floating point, as the bits of a double ---- *)
Shr(a, k) ==
  LET m == k \div 16  r == k % 16
      s(j) == IF j - m < 1 THEN 0 ELSE a[j - m]
      limb(j) == (s(j) \div P2[r]) + ((s(j - 1) % P2[r]) * P2[16 - r])
  IN <<limb(1), limb(2), limb(3), limb(4)>>
RECURSIVE TopBit(_)
TopBit(n) == IF n < 2 THEN 0 ELSE 1 + TopBit(n \div 2)
(* A float's bits widened to a double's.                                   *)
Widen(hi, lo) ==
  LET sign == hi \div 32768
      e == (hi % 32768) \div 128
      m == (hi % 128) * 65536 + lo                    \* 23 bits
      make(ex, mant) ==                                \* 11 bits of exponent, 23 high bits of 52
        <<sign * 32768 + ex * 16 + (mant \div 524288), (mant \div 8) % 65536, (mant % 8) * 8192, 0>>
  IN IF e = 255 THEN make(2047, m)
     ELSE IF e > 0 THEN make(e + 896, m)
     ELSE IF m = 0 THEN make(0, 0)
     ELSE LET t == TopBit(m) IN make(t - 149 + 1023, (m - P2[t]) * P2[23 - t])
Dbl(kind, cell) == IF kind = "float" THEN Widen(cell[2], cell[3]) ELSE SubSeq(cell, 2, 5)
Exp(b) == (b[1] % 32768) \div 16
IsNaN(b) == Exp(b) = 2047 /\ ~(b[1] % 16 = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] = 0)
IsZero(b) == b[1] % 32768 = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] = 0
(* Doubles in the order of unsigned numbers.                               *)
Key(b) == IF IsZero(b) THEN <<32768, 0, 0, 0>> ELSE IF b[1] >= 32768 THEN Not64(b) ELSE Flip(b)
DblLeq(a, b) == ~LessU(Key(b), Key(a))
DblBounds(st, vs) ==
  LET real == SelectSeq(vs, LAMBDA b : ~IsNaN(b)) IN
  IF Len(real) = 0 THEN TRUE
  ELSE /\ st.hasmin => ~IsNaN(st.min)
       /\ st.hasmax => ~IsNaN(st.max)
       /\ Bounds(st, real, DblLeq)
(* Eight times the value, if that is a whole number below 2^44.            *)
FixOk(b) == IsZero(b) \/
  (/\ Exp(b) - 1023 >= -3 /\ Exp(b) - 1023 <= 40
   /\ LET M == <<16 + (b[1] % 16), b[2], b[3], b[4]>>  k == 49 - (Exp(b) - 1023) IN Shl(Shr(M, k), k) = M)
Fix(b) == IF IsZero(b) THEN Zero64
          ELSE LET m == Shr(<<16 + (b[1] % 16), b[2], b[3], b[4]>>, 49 - (Exp(b) - 1023)) IN
               IF b[1] >= 32768 THEN Neg64(m) ELSE m
(* Sums of other numbers depend on rounding and are not judged.            *)
DblSum(sum, vs) ==
  (sum # <<>> /\ \A j \in 1..Len(vs) : FixOk(vs[j]) = TRUE)
    => FixOk(sum) /\ Fix(sum) = Sum64([j \in 1..Len(vs) |-> Fix(vs[j])]).val

(* ---- decimals: magnitudes as 12 limbs of 4 digits, 18 of 48 digits      *)
(* behind the point                                                        *)
Zero48 == [j \in 1..12 |-> 0]
Tens == <<1, 10, 100, 1000>>
MulAdd(a, f, n) ==       \* a * f + n, f <= 65536
  LET r == FoldLeft(LAMBDA acc, j : LET x == a[13 - j] * f + acc.c IN
                                    [c |-> x \div 10000, d |-> <<x % 10000>> \o acc.d],
                    [c |-> n, d |-> <<>>], [j \in 1..12 |-> j])
  IN r.d
Up(a, k) == LET m == k \div 4
                b == [j \in 1..12 |-> IF j + m > 12 THEN 0 ELSE a[j + m]]
            IN MulAdd(b, Tens[(k % 4) + 1], 0)
Add48(a, b) ==
  LET r == FoldLeft(LAMBDA acc, j : LET x == a[13 - j] + b[13 - j] + acc.c IN
                                    [c |-> x \div 10000, d |-> <<x % 10000>> \o acc.d],
                    [c |-> 0, d |-> <<>>], [j \in 1..12 |-> j])
  IN r.d
Magnitude(l) == FoldLeft(LAMBDA a, x : MulAdd(a, 65536, x), Zero48, IF Negative(l) THEN Neg64(l) ELSE l)
(* A cell: mantissa, scale of at most 18.                                  *)
DecOf(cell) == [neg |-> Negative(Num(cell)), mag |-> Up(Magnitude(Num(cell)), 18 - cell[6])]
RECURSIVE Less48(_, _, _)
Less48(a, b, j) == IF j > 12 THEN FALSE ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE Less48(a, b, j + 1)
DecLeq(a, b) ==
  IF a.mag = Zero48 /\ b.mag = Zero48 THEN TRUE
  ELSE IF a.neg # b.neg THEN (IF a.mag = Zero48 THEN ~b.neg ELSE IF b.mag = Zero48 THEN a.neg ELSE a.neg)
  ELSE IF a.neg THEN ~Less48(a.mag, b.mag, 1) ELSE ~Less48(b.mag, a.mag, 1)
(* The text of a decimal: [-]digits[.digits]                               *)
Minus == 45 Point == 46
IsDigit(c) == c >= 48 /\ c <= 57
DecText(s) ==
  LET neg == Len(s) > 0 /\ s[1] = Minus
      t == IF neg THEN Tail(s) ELSE s
      at == {j \in 1..Len(t) : t[j] = Point}
      p == IF at = {} THEN Len(t) + 1 ELSE CHOOSE j \in at : TRUE
      whole == SubSeq(t, 1, p - 1)
      frac == SubSeq(t, p + 1, Len(t))
      ok == /\ at = {} \/ (\A j \in at : j = p)
            /\ Len(whole) > 0 /\ Len(whole) <= 30
            /\ \A j \in 1..Len(whole) : IsDigit(whole[j])
            /\ \A j \in 1..Len(frac) : IsDigit(frac[j]) /\ (j > 18 => frac[j] = 48)
      digit(k) ==                       \* k-th of 48
        IF k > 30 THEN (IF k - 30 <= Len(frac) THEN frac[k - 30] - 48 ELSE 0)
        ELSE LET j == Len(whole) - (30 - k) IN IF j >= 1 THEN whole[j] - 48 ELSE 0
  IN IF ~ok THEN [ok |-> FALSE, neg |-> FALSE, mag |-> Zero48]
     ELSE [ok |-> TRUE, neg |-> neg,
           mag |-> [j \in 1..12 |-> digit(4 * j - 3) * 1000 + digit(4 * j - 2) * 100 + digit(4 * j - 1) * 10 + digit(4 * j)]]
DecTrue(st, cells) ==
  LET vs == [j \in 1..Len(cells) |-> DecOf(cells[j])]
      lo == IF st.hasmin THEN DecText(st.min) ELSE [ok |-> TRUE]
      hi == IF st.hasmax THEN DecText(st.max) ELSE [ok |-> TRUE]
      s == IF st.sum # <<>> THEN DecText(st.sum) ELSE [ok |-> TRUE]
      total(neg) == FoldLeft(LAMBDA a, v : IF v.neg = neg THEN Add48(a, v.mag) ELSE a, Zero48, vs)
  IN /\ lo.ok /\ hi.ok /\ s.ok
     /\ Bounds([st EXCEPT !.min = IF st.hasmin THEN lo ELSE @, !.max = IF st.hasmax THEN hi ELSE @], vs, DecLeq)
     /\ st.sum # <<>> =>
          (IF s.neg THEN Add48(total(FALSE), s.mag) = total(TRUE) ELSE Add48(total(TRUE), s.mag) = total(FALSE))

(* ---- timestamps: milliseconds, rounded down ---- *)
Thousand(l) == Sub64(Sub64(Shl(l, 10), Shl(l, 4)), Shl(l, 3))
Millis(cell) == Add64(Thousand(Add64(Num(cell), Base2015)), Of(Nanos(cell) \div 1000000))
Near(cell) == LET l == Num(cell) IN l[1] < 16 \/ l[1] >= 65520     \* within 2^52 seconds
TimeTrue(st, cells) ==
  (\A j \in 1..Len(cells) : Near(cells[j])) =>
    LET vs == [j \in 1..Len(cells) |-> Millis(cells[j])]
        utc == [st EXCEPT !.min = st.minutc, !.max = st.maxutc, !.hasmin = st.minutc # <<>>, !.hasmax = st.maxutc # <<>>]
    IN Bounds(st, vs, LeqS) /\ Bounds(utc, vs, LeqS)

------------------------------------------------------------------------------
Expected(kind) ==
  CASE kind \in {"short", "int", "long"} -> {"int"}
    [] kind = "byte" -> {"binary"}
    [] kind \in {"float", "double"} -> {"double"}
    [] kind \in {"string", "char", "varchar"} -> {"string"}
    [] kind = "boolean" -> {"bucket"}
    [] kind = "decimal" -> {"decimal"}
    [] kind = "date" -> {"date"}
    [] kind = "binary" -> {"binary"}
    [] kind = "timestamp" -> {"timestamp"}
    [] kind = "struct" -> {"bucket"}

StatTrue(st, kind, cells, above) ==
  LET full == Filled0(cells)
      which == {st.which[j] : j \in 1..Len(st.which)}
  IN
  /\ st.count = Of(Len(full))
  /\ (\E r \in 1..Len(cells) : cells[r] = <<0>> /\ (above = <<>> \/ above[r] # <<0>>)) => st.hasnull = <<1>>
  /\ which \subseteq Expected(kind)
  /\ which # {} =>
     CASE kind \in {"short", "int", "long"} ->
            LET vs == [j \in 1..Len(full) |-> Num(full[j])] IN Bounds(st, vs, LeqS) /\ SumTrue(st.sum, vs)
       [] kind \in {"float", "double"} ->
            LET vs == [j \in 1..Len(full) |-> Dbl(kind, full[j])] IN DblBounds(st, vs) /\ DblSum(st.sum, vs)
       [] kind \in {"string", "char", "varchar"} ->
            LET vs == [j \in 1..Len(full) |-> Text(full[j])] IN
            Bounds(st, vs, LexLeq) /\ SumTrue(st.sum, [j \in 1..Len(vs) |-> Of(Len(vs[j]))])
       [] kind = "binary" -> SumTrue(st.sum, [j \in 1..Len(full) |-> Of(Len(full[j]) - 1)])
       [] kind = "byte" -> st.sum = <<>> \/ st.sum = Of(Len(full))
       [] kind = "boolean" -> st.bucket = Of(Len(SelectSeq(full, LAMBDA v : v[2] = 1)))
       [] kind = "date" ->
            Bounds(st, [j \in 1..Len(full) |-> Signed(DaysOf(full[j][2], full[j][3], full[j][4]))], LeqS)
       [] kind = "timestamp" -> TimeTrue(st, full)
       [] kind = "decimal" -> DecTrue(st, full)
       [] kind = "struct" -> TRUE
=============================================================================
