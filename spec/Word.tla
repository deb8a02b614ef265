-------------------------------- MODULE Word --------------------------------
(* Two's-complement machine words of up to 8 bytes (and exact 16-byte       *)
(* products), as little-endian tuples of bytes.  TLC's integers are 32-bit, *)
(* so every C value wider than that lives here.  A "word" below is always   *)
(* 8 bytes: a C value is stored sign- or zero-extended according to its     *)
(* type, so equality of values of one type is equality of words.            *)
EXTENDS Integers, Sequences, Bitwise

W0 == <<0,0,0,0,0,0,0,0>>
W1 == <<1,0,0,0,0,0,0,0>>

Neg8(a) == a[8] >= 128                 \* sign of the full word

RECURSIVE AddN(_, _, _, _, _)
AddN(a, b, c, k, n) ==
  IF k > n THEN <<>>
  ELSE LET s == a[k] + b[k] + c IN <<s % 256>> \o AddN(a, b, s \div 256, k + 1, n)

WAdd(a, b) == AddN(a, b, 0, 1, 8)
WNot(a)    == [k \in 1..8 |-> 255 - a[k]]
WNeg(a)    == AddN(WNot(a), W0, 1, 1, 8)
WSub(a, b) == AddN(a, WNot(b), 1, 1, 8)
WAnd(a, b) == [k \in 1..8 |-> a[k] & b[k]]
WOr(a, b)  == [k \in 1..8 |-> a[k] | b[k]]
WXor(a, b) == [k \in 1..8 |-> a[k] ^^ b[k]]

(* unsigned order: most significant byte first *)
RECURSIVE ULtAt(_, _, _)
ULtAt(a, b, k) ==
  IF k = 0 THEN FALSE
  ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE ULtAt(a, b, k - 1)
WULt(a, b) == ULtAt(a, b, 8)
WSLt(a, b) == IF Neg8(a) # Neg8(b) THEN Neg8(a) ELSE WULt(a, b)

(* exact product of two unsigned words, as 16 bytes *)
RECURSIVE ColSum(_, _, _, _, _)
ColSum(a, b, k, i, hi) ==      \* sum of a[i]*b[k+1-i] for i..hi
  IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + ColSum(a, b, k, i + 1, hi)
RECURSIVE MulN(_, _, _, _, _)
MulN(a, b, k, c, n) ==
  IF k > n THEN <<>>
  ELSE LET lo == IF k > 8 THEN k - 7 ELSE 1
           hi == IF k > 8 THEN 8 ELSE k
           s  == ColSum(a, b, k, lo, hi) + c
       IN <<s % 256>> \o MulN(a, b, k + 1, s \div 256, n)
WUMul16(a, b) == MulN(a, b, 1, 0, 16)
WMul(a, b)    == MulN(a, b, 1, 0, 8)

(* small non-negative integers *)
RECURSIVE FromNatN(_, _)
FromNatN(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o FromNatN(v \div 256, n - 1)
FromInt(v) == IF v >= 0 THEN FromNatN(v, 8) ELSE WNeg(FromNatN(-v, 8))
IsSmall(a) == a[4] < 128 /\ a[5] = 0 /\ a[6] = 0 /\ a[7] = 0 /\ a[8] = 0
ToNat(a)   == a[1] + 256 * (a[2] + 256 * (a[3] + 256 * a[4]))   \* requires IsSmall
IsSmallInt(a) == IsSmall(a) \/ (IsSmall(WNeg(a)) /\ Neg8(a))
ToInt(a)   == IF Neg8(a) THEN -ToNat(WNeg(a)) ELSE ToNat(a)      \* requires IsSmallInt

(* shifts by 0..63 *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
WShl(a, n) ==
  LET by == n \div 8  bi == n % 8  m == Pow2(bi)
      Src(k) == IF k - by >= 1 THEN a[k - by] ELSE 0
  IN [k \in 1..8 |-> ((Src(k) * m) % 256) + (IF k > 1 THEN (Src(k - 1) * m) \div 256 ELSE 0)]
ShrFill(a, n, fill) ==
  LET by == n \div 8  bi == n % 8  m == Pow2(bi)  up == Pow2(8 - bi)
      Src(k) == IF k + by <= 8 THEN a[k + by] ELSE fill
  IN [k \in 1..8 |-> (Src(k) \div m) + ((Src(k + 1) * up) % 256)]
WLShr(a, n) == ShrFill(a, n, 0)
WAShr(a, n) == ShrFill(a, n, IF Neg8(a) THEN 255 ELSE 0)

(* unsigned division: restoring, one bit at a time from bit 63 *)
BitOf(a, i) == (a[(i \div 8) + 1] \div Pow2(i % 8)) % 2
Dbl(a, bit) == AddN(a, a, bit, 1, 8)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET carry == r[8] >= 128            \* 2r would not fit: then certainly >= b
           r2 == Dbl(r, BitOf(a, i))
           ge == carry \/ ~WULt(r2, b)
       IN DivFrom(a, b, i - 1, Dbl(q, IF ge THEN 1 ELSE 0), IF ge THEN WSub(r2, b) ELSE r2)
WUDivMod(a, b) ==
  IF IsSmall(a) /\ IsSmall(b)
  THEN <<FromNatN(ToNat(a) \div ToNat(b), 8), FromNatN(ToNat(a) % ToNat(b), 8)>>
  ELSE IF WULt(a, b) THEN <<W0, a>> ELSE DivFrom(a, b, 63, W0, W0)
WAbs(a) == IF Neg8(a) THEN WNeg(a) ELSE a
(* signed: truncation towards zero, remainder has the dividend's sign *)
WSDivMod(a, b) ==
  LET qr == WUDivMod(WAbs(a), WAbs(b))
  IN << IF Neg8(a) # Neg8(b) THEN WNeg(qr[1]) ELSE qr[1],
        IF Neg8(a) THEN WNeg(qr[2]) ELSE qr[2] >>

(* keep the low n bytes, extending with sign or zero *)
SExt(a, n) == IF n = 8 THEN a ELSE [k \in 1..8 |-> IF k <= n THEN a[k] ELSE IF a[n] >= 128 THEN 255 ELSE 0]
ZExt(a, n) == IF n = 8 THEN a ELSE [k \in 1..8 |-> IF k <= n THEN a[k] ELSE 0]
(* keep the low n bits (bit-fields) *)
ZExtBits(a, n) == IF n >= 64 THEN a ELSE WAnd(a, WSub(WShl(W1, n), W1))
SExtBits(a, n) == IF n >= 64 THEN a
                  ELSE IF BitOf(a, n - 1) = 1 THEN WOr(a, WNot(WSub(WShl(W1, n), W1))) ELSE ZExtBits(a, n)
=============================================================================
