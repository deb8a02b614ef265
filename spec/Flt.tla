--------------------------------- MODULE Flt ---------------------------------
(* IEEE-754 binary32 / binary64 on bit patterns (low bytes of a word), with   *)
(* round-to-nearest-even.  A number is unpacked to [c, s, m, e]: class "nan", *)
(* "inf", "zero" or "fin", sign, and value m * 2^e with m a non-zero word.    *)
(* Results that would need more than 64 exact bits are "undecided" (and       *)
(* are dropped by the harness), never guessed.                                *)
EXTENDS CTypes

Prec(t) == IF t = "float" THEN 24 ELSE 53
EMin(t) == IF t = "float" THEN -149 ELSE -1074
BiasMax(t) == IF t = "float" THEN 255 ELSE 2047
FltTypes == {"float", "double"}
IsFlt(t) == t \in FltTypes

ByteLen(b) == IF b >= 128 THEN 8 ELSE IF b >= 64 THEN 7 ELSE IF b >= 32 THEN 6 ELSE IF b >= 16 THEN 5
              ELSE IF b >= 8 THEN 4 ELSE IF b >= 4 THEN 3 ELSE IF b >= 2 THEN 2 ELSE b
RECURSIVE BitLenAt(_, _)
BitLenAt(m, k) == IF k = 0 THEN 0 ELSE IF m[k] # 0 THEN 8 * (k - 1) + ByteLen(m[k]) ELSE BitLenAt(m, k - 1)
BitLen(m) == BitLenAt(m, 8)
Odd(m) == m[1] % 2 = 1

SignBit(t, w) == IF t = "float" THEN w[4] \div 128 ELSE w[8] \div 128
ExpBits(t, w) == IF t = "float" THEN (w[4] % 128) * 2 + (w[3] \div 128) ELSE (w[8] % 128) * 16 + (w[7] \div 16)
MantBits(t, w) == ZExtBits(w, Prec(t) - 1)

Unpack(t, w) ==
  LET s == SignBit(t, w)  x == ExpBits(t, w)  f == MantBits(t, w) IN
  IF x = BiasMax(t) THEN [c |-> IF f = W0 THEN "inf" ELSE "nan", s |-> s, m |-> W0, e |-> 0]
  ELSE IF x = 0 THEN [c |-> IF f = W0 THEN "zero" ELSE "fin", s |-> s, m |-> f, e |-> EMin(t)]
  ELSE [c |-> "fin", s |-> s, m |-> WOr(f, WShl(W1, Prec(t) - 1)), e |-> EMin(t) + x - 1]

Signed(t, s, w) == IF s = 0 THEN w ELSE WOr(w, WShl(W1, IF t = "float" THEN 31 ELSE 63))
Inf(t, s) == Signed(t, s, WShl(FromInt(BiasMax(t)), Prec(t) - 1))
Zero(t, s) == Signed(t, s, W0)
NaN(t) == WOr(Inf(t, 0), WShl(W1, Prec(t) - 2))
IsNaN(t, w) == Unpack(t, w).c = "nan"

\* the format's value nearest to (-1)^s * (m + d) * 2^e, 0 <= d < 1 and d > 0 iff sticky
Pack(t, s, m, e, sticky) ==
  IF m = W0 THEN Zero(t, s)
  ELSE LET p == Prec(t)  len == BitLen(m)
           q == IF e + len - p > EMin(t) THEN e + len - p ELSE EMin(t)
           n == q - e
           r == IF n <= 0 THEN WShl(m, -n)
                ELSE IF n > 64 THEN W0
                ELSE LET hi == IF n = 64 THEN W0 ELSE WLShr(m, n)
                         half == BitOf(m, n - 1) = 1
                         low == sticky \/ ZExtBits(m, n - 1) # W0
                     IN IF half /\ (low \/ Odd(hi)) THEN WAdd(hi, W1) ELSE hi
           enc == WAdd(WShl(FromInt(q - EMin(t)), p - 1), r)
       IN IF r # W0 /\ (q - EMin(t) >= BiasMax(t) - 1 \/ ~WULt(enc, Inf(t, 0))) THEN Inf(t, s) ELSE Signed(t, s, enc)
\* n <= 0 with sticky cannot be rounded
PackOk(t, m, e, sticky) ==
  ~sticky \/ LET len == BitLen(m)  q == IF e + len - Prec(t) > EMin(t) THEN e + len - Prec(t) ELSE EMin(t) IN q - e >= 1

FToF(from, w, to) ==
  IF from = to THEN w ELSE
  LET u == Unpack(from, w) IN
  CASE u.c = "nan" -> NaN(to) [] u.c = "inf" -> Inf(to, u.s) [] u.c = "zero" -> Zero(to, u.s)
    [] OTHER -> Pack(to, u.s, u.m, u.e, FALSE)
IToF(from, w, to) == IF IsSigned(from) /\ Neg8(w) THEN Pack(to, 1, WNeg(w), 0, FALSE) ELSE Pack(to, 0, w, 0, FALSE)
\* [v, ub]
FToI(from, w, to) ==
  LET u == Unpack(from, w) IN
  IF to = "bool" THEN R(Bool(u.c # "zero"), FALSE)
  ELSE CASE u.c \in {"nan", "inf"} -> R(W0, TRUE) [] u.c = "zero" -> R(W0, FALSE)
    [] OTHER -> IF u.e > 40 \/ BitLen(u.m) + u.e > 64 THEN R(W0, TRUE)
                ELSE LET a == IF u.e >= 0 THEN WShl(u.m, u.e) ELSE IF u.e <= -64 THEN W0 ELSE WLShr(u.m, -u.e)
                     IN IF u.s = 0 THEN R(Conv(a, to), Conv(a, to) # a \/ (IsSigned(to) /\ Neg8(a)))
                        ELSE IF a = W0 THEN R(W0, FALSE)
                        ELSE LET v == WNeg(a) IN R(Conv(v, to), ~IsSigned(to) \/ ~Neg8(v) \/ Conv(v, to) # v)

\* any conversion among arithmetic types: [v, ub]
GConv(from, w, to) ==
  IF IsFlt(from) THEN (IF IsFlt(to) THEN R(FToF(from, w, to), FALSE) ELSE FToI(from, w, to))
  ELSE IF IsFlt(to) THEN R(IToF(from, w, to), FALSE) ELSE R(Conv(w, to), FALSE)
GUAC(a, b) == IF a = "double" \/ b = "double" THEN "double"
              ELSE IF a = "float" \/ b = "float" THEN "float" ELSE UAC(a, b)
GPromote(t) == IF IsFlt(t) THEN t ELSE Promote(t)
GTrue(t, w) == IF IsFlt(t) THEN Unpack(t, w).c # "zero" ELSE w # W0

\* magnitude order of two bit patterns of the same format without sign
Mag(t, w) == ZExtBits(w, IF t = "float" THEN 31 ELSE 63)
FLess(t, a, b) ==
  LET ua == Unpack(t, a)  ub == Unpack(t, b) IN
  IF ua.c = "zero" /\ ub.c = "zero" THEN FALSE
  ELSE IF ua.s # ub.s THEN ua.s = 1
  ELSE IF ua.s = 0 THEN WULt(Mag(t, a), Mag(t, b)) ELSE WULt(Mag(t, b), Mag(t, a))
FEq(t, a, b) == a = b \/ (Unpack(t, a).c = "zero" /\ Unpack(t, b).c = "zero")
FRel(op, t, a, b) ==
  LET nan == IsNaN(t, a) \/ IsNaN(t, b) IN
  Bool(CASE op = "==" -> ~nan /\ FEq(t, a, b) [] op = "!=" -> nan \/ ~FEq(t, a, b)
         [] op = "<" -> ~nan /\ FLess(t, a, b) [] op = ">" -> ~nan /\ FLess(t, b, a)
         [] op = "<=" -> ~nan /\ ~FLess(t, b, a) [] op = ">=" -> ~nan /\ ~FLess(t, a, b))

FNeg(t, w) == WXor(w, WShl(W1, IF t = "float" THEN 31 ELSE 63))
Nan1(t) == R(NaN(t), FALSE)
FAdd(t, a, b) ==
  LET x == Unpack(t, a)  y == Unpack(t, b) IN
  IF x.c = "nan" \/ y.c = "nan" THEN Nan1(t)
  ELSE IF x.c = "inf" THEN (IF y.c = "inf" /\ x.s # y.s THEN Nan1(t) ELSE R(a, FALSE))
  ELSE IF y.c = "inf" THEN R(b, FALSE)
  ELSE IF x.c = "zero" /\ y.c = "zero" THEN R(Zero(t, IF x.s = 1 /\ y.s = 1 THEN 1 ELSE 0), FALSE)
  ELSE IF x.c = "zero" THEN R(b, FALSE)
  ELSE IF y.c = "zero" THEN R(a, FALSE)
  ELSE LET e == IF x.e < y.e THEN x.e ELSE y.e IN
       IF BitLen(x.m) + x.e - e > 63 \/ BitLen(y.m) + y.e - e > 63 THEN R(W0, TRUE)     \* undecided
       ELSE LET p == WShl(x.m, x.e - e)  q == WShl(y.m, y.e - e) IN
            IF x.s = y.s THEN R(Pack(t, x.s, WAdd(p, q), e, FALSE), FALSE)
            ELSE IF p = q THEN R(Zero(t, 0), FALSE)
            ELSE IF WULt(q, p) THEN R(Pack(t, x.s, WSub(p, q), e, FALSE), FALSE)
            ELSE R(Pack(t, y.s, WSub(q, p), e, FALSE), FALSE)
RECURSIVE Strip(_, _)
Strip(m, e) == IF m[1] = 0 THEN Strip(WLShr(m, 8), e + 8) ELSE IF Odd(m) THEN <<m, e>> ELSE Strip(WLShr(m, 1), e + 1)
FMul(t, a, b) ==
  LET x == Unpack(t, a)  y == Unpack(t, b)  s == IF x.s = y.s THEN 0 ELSE 1 IN
  IF x.c = "nan" \/ y.c = "nan" THEN Nan1(t)
  ELSE IF x.c = "inf" \/ y.c = "inf" THEN (IF x.c = "zero" \/ y.c = "zero" THEN Nan1(t) ELSE R(Inf(t, s), FALSE))
  ELSE IF x.c = "zero" \/ y.c = "zero" THEN R(Zero(t, s), FALSE)
  ELSE LET p == Strip(x.m, x.e)  q == Strip(y.m, y.e) IN
       IF BitLen(p[1]) + BitLen(q[1]) > 64 THEN R(W0, TRUE)
       ELSE R(Pack(t, s, WMul(p[1], q[1]), p[2] + q[2], FALSE), FALSE)
FDiv(t, a, b) ==
  LET x == Unpack(t, a)  y == Unpack(t, b)  s == IF x.s = y.s THEN 0 ELSE 1 IN
  IF x.c = "nan" \/ y.c = "nan" THEN Nan1(t)
  ELSE IF x.c = "inf" THEN (IF y.c = "inf" THEN Nan1(t) ELSE R(Inf(t, s), FALSE))
  ELSE IF y.c = "inf" THEN R(Zero(t, s), FALSE)
  ELSE IF y.c = "zero" THEN (IF x.c = "zero" THEN Nan1(t) ELSE R(Inf(t, s), FALSE))
  ELSE IF x.c = "zero" THEN R(Zero(t, s), FALSE)
  ELSE LET p == Strip(x.m, x.e)  q == Strip(y.m, y.e)
           k == 64 - BitLen(p[1])
           dm == WUDivMod(WShl(p[1], k), q[1])
           st == dm[2] # W0
           e == p[2] - k - q[2]
       IN IF PackOk(t, dm[1], e, st) /\ (~st \/ BitLen(dm[1]) >= Prec(t) + 1) THEN R(Pack(t, s, dm[1], e, st), FALSE) ELSE R(W0, TRUE)
FOp(op, t, a, b) == CASE op = "+" -> FAdd(t, a, b) [] op = "-" -> FAdd(t, a, FNeg(t, b))
                      [] op = "*" -> FMul(t, a, b) [] op = "/" -> FDiv(t, a, b)

\* a op b on any arithmetic types: [t, v, ub]
GBinOp(op, ta, a, tb, b) ==
  IF ~IsFlt(ta) /\ ~IsFlt(tb) THEN BinOp(op, ta, a, tb, b)
  ELSE LET t == GUAC(ta, tb)  x == GConv(ta, a, t).v  y == GConv(tb, b, t).v IN
       IF op \in RelOps THEN [t |-> "int", v |-> FRel(op, t, x, y), ub |-> FALSE]
       ELSE LET r == FOp(op, t, x, y) IN [t |-> t, v |-> r.v, ub |-> r.ub]
GBinType(op, ta, tb) == IF op \in RelOps THEN "int" ELSE IF IsFlt(ta) \/ IsFlt(tb) THEN GUAC(ta, tb) ELSE BinType(op, ta, tb)
GUnOp(op, ta, a) ==
  IF ~IsFlt(ta) THEN UnOp(op, ta, a)
  ELSE CASE op = "-" -> [t |-> ta, v |-> FNeg(ta, a), ub |-> FALSE]
         [] op = "+" -> [t |-> ta, v |-> a, ub |-> FALSE]
         [] op = "!" -> [t |-> "int", v |-> Bool(~GTrue(ta, a)), ub |-> FALSE]
=============================================================================
