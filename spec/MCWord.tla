------------------------------- MODULE MCWord -------------------------------
(* Model check of the arithmetic of Word/CTypes against TLC's own integers  *)
(* for 8- and 16-bit values (where both can represent everything), and of   *)
(* algebraic laws at 64 bits over boundary words.                           *)
EXTENDS CTypes
Vals == {0,1,2,3,7,9,127,128,129,255,256,1000,12345,32767,32768,-1,-2,-7,-128,-129,-255,-256,-12345,-32768,-32769}
VARIABLES x, y
Init == x \in Vals /\ y \in Vals
Next == FALSE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>

Small == \A op \in {"+","-","*"} :
  LET r == WAdd(FromInt(x), FromInt(y)) IN
  /\ ToInt(WAdd(FromInt(x), FromInt(y))) = x + y
  /\ ToInt(WSub(FromInt(x), FromInt(y))) = x - y
  /\ ToInt(WMul(FromInt(x), FromInt(y))) = x * y
Abs(v) == IF v < 0 THEN -v ELSE v
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
DivOK == y # 0 =>
  LET qr == WSDivMod(FromInt(x), FromInt(y))
      big == DivFrom(WAbs(FromInt(x)), WAbs(FromInt(y)), 63, W0, W0) IN
  /\ ToInt(qr[1]) = TDiv(x, y)
  /\ ToInt(qr[2]) = x - y * TDiv(x, y)
  /\ WAbs(qr[1]) = big[1] /\ WAbs(qr[2]) = big[2]
CmpOK == /\ WSLt(FromInt(x), FromInt(y)) = (x < y)
         /\ (x >= 0 /\ y >= 0) => (WULt(FromInt(x), FromInt(y)) = (x < y))
ConvOK == \A t \in IntTypes \ {"bool"} :
  /\ InType(Conv(FromInt(x), t), t)
  /\ SizeOf(t) = 1 => ToInt(Conv(FromInt(x), t)) = LET m == x % 256 IN IF IsSigned(t) /\ m >= 128 THEN m - 256 ELSE m
  /\ SizeOf(t) = 2 => ToInt(Conv(FromInt(x), t)) = LET m == x % 65536 IN IF IsSigned(t) /\ m >= 32768 THEN m - 65536 ELSE m
ShiftOK == \A n \in 0..20 :
  /\ (x >= 0 /\ x < 1024) => ToInt(WShl(FromInt(x), n)) = x * Pow2(n)
  /\ ToInt(WAShr(FromInt(x), n)) = x \div Pow2(n)
  /\ WLShr(WShl(FromInt(x), 0), n) = IF x >= 0 THEN FromInt(x \div Pow2(n)) ELSE WLShr(FromInt(x), n)
(* 64-bit laws over "wide" words built from x and y *)
A == WXor(WShl(FromInt(x), 41), FromInt(y))
B == WXor(WShl(FromInt(y), 37), FromInt(x))
Laws == /\ WSub(WAdd(A, B), B) = A
        /\ WAdd(A, B) = WAdd(B, A) /\ WMul(A, B) = WMul(B, A)
        /\ WAdd(WAnd(A, B), WOr(A, B)) = WAdd(A, B)
        /\ (B # W0 => LET qr == WUDivMod(A, B) IN WAdd(WMul(qr[1], B), qr[2]) = A /\ WULt(qr[2], B))
        /\ LET p == WUMul16(A, B) IN [k \in 1..8 |-> p[k]] = WMul(A, B)
        /\ \A n \in {1, 7, 8, 31, 33, 63} : WLShr(WShl(A, n), n) = ZExtBits(A, 64 - n)
        /\ \A n \in {1, 7, 8, 31, 33, 63} : WAShr(WShl(A, n), n) = SExtBits(A, 64 - n)
        /\ UAC("int", "uint") = "uint" /\ UAC("long", "uint") = "long" /\ UAC("llong", "ulong") = "ullong"
=============================================================================
