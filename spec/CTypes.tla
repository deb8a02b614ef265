------------------------------- MODULE CTypes -------------------------------
(* Arithmetic types of C on x86-64 LP64 and their conversions.              *)
EXTENDS Word, TLC

IntTypes == {"bool","char","schar","uchar","short","ushort","int","uint",
             "long","ulong","llong","ullong"}

SizeOf(t) == CASE t \in {"bool","char","schar","uchar"} -> 1
               [] t \in {"short","ushort"} -> 2
               [] t \in {"int","uint","float"} -> 4
               [] OTHER -> 8
Width(t)  == 8 * SizeOf(t)
IsSigned(t) == t \in {"char","schar","short","int","long","llong"}   \* plain char is signed
Rank(t) == CASE t = "bool" -> 1
             [] t \in {"char","schar","uchar"} -> 2
             [] t \in {"short","ushort"} -> 3
             [] t \in {"int","uint"} -> 4
             [] t \in {"long","ulong"} -> 5
             [] OTHER -> 6
Unsigned(t) == CASE t = "int" -> "uint" [] t = "long" -> "ulong" [] t = "llong" -> "ullong" [] OTHER -> t

(* 6.3.1.1: integer promotions *)
Promote(t) == IF Rank(t) < 4 THEN "int" ELSE t
(* 6.3.1.8: usual arithmetic conversions *)
UAC(a0, b0) ==
  LET a == Promote(a0)  b == Promote(b0) IN
  IF a = b THEN a
  ELSE IF IsSigned(a) = IsSigned(b) THEN (IF Rank(a) >= Rank(b) THEN a ELSE b)
  ELSE LET u == IF IsSigned(a) THEN b ELSE a
           s == IF IsSigned(a) THEN a ELSE b
       IN IF Rank(u) >= Rank(s) THEN u
          ELSE IF SizeOf(s) > SizeOf(u) THEN s
          ELSE Unsigned(s)

(* 6.3.1.2, 6.3.1.3: conversion of a word to an integer type *)
Conv(w, t) == IF t = "bool" THEN (IF w = W0 THEN W0 ELSE W1)
              ELSE IF IsSigned(t) THEN SExt(w, SizeOf(t)) ELSE ZExt(w, SizeOf(t))
InType(w, t) == Conv(w, t) = w /\ (t = "bool" => w \in {W0, W1})

TMin(t) == IF IsSigned(t) THEN SExt([k \in 1..8 |-> IF k = SizeOf(t) THEN 128 ELSE 0], SizeOf(t)) ELSE W0
TMax(t) == IF t = "bool" THEN W1
           ELSE [k \in 1..8 |-> IF k < SizeOf(t) THEN 255
                                ELSE IF k = SizeOf(t) THEN (IF IsSigned(t) THEN 127 ELSE 255) ELSE 0]

Bool(b) == IF b THEN W1 ELSE W0

(* result of an arithmetic operator on two words already converted to t;    *)
(* [v |-> word, ub |-> BOOLEAN].  Signed overflow is undefined.             *)
R(v, ub) == [v |-> v, ub |-> ub]
Wrap(r, t) == R(Conv(r, t), IsSigned(t) /\ Conv(r, t) # r)

ArithOp(op, t, a, b) ==
  CASE op = "+" ->
         IF IsSigned(t) /\ SizeOf(t) = 8
         THEN LET r == WAdd(a, b) IN R(r, Neg8(a) = Neg8(b) /\ Neg8(r) # Neg8(a))
         ELSE Wrap(WAdd(a, b), t)
    [] op = "-" ->
         IF IsSigned(t) /\ SizeOf(t) = 8
         THEN LET r == WSub(a, b) IN R(r, Neg8(a) # Neg8(b) /\ Neg8(r) # Neg8(a))
         ELSE Wrap(WSub(a, b), t)
    [] op = "*" ->
         IF IsSigned(t) /\ SizeOf(t) = 8
         THEN LET p  == WUMul16(WAbs(a), WAbs(b))
                  lo == [k \in 1..8 |-> p[k]]
                  ng == Neg8(a) # Neg8(b)
                  hi == \E k \in 9..16 : p[k] # 0
                  r  == IF ng THEN WNeg(lo) ELSE lo
              IN R(r, hi \/ (r # W0 /\ Neg8(r) # ng) \/ (r = W0 /\ lo # W0))
         ELSE Wrap(WMul(a, b), t)
    [] op \in {"/", "%"} ->
         IF b = W0 THEN R(W0, TRUE)
         ELSE IF IsSigned(t) /\ a = TMin(t) /\ b = FromInt(-1) THEN R(W0, TRUE)
         ELSE LET qr == IF IsSigned(t) THEN WSDivMod(a, b) ELSE WUDivMod(a, b)
              IN R(Conv(IF op = "/" THEN qr[1] ELSE qr[2], t), FALSE)
    [] op = "&" -> R(WAnd(a, b), FALSE)
    [] op = "|" -> R(WOr(a, b), FALSE)
    [] op = "^" -> R(WXor(a, b), FALSE)

Less(t, a, b) == IF IsSigned(t) THEN WSLt(a, b) ELSE WULt(a, b)
RelOp(op, t, a, b) ==
  Bool(CASE op = "==" -> a = b [] op = "!=" -> a # b
         [] op = "<" -> Less(t, a, b) [] op = ">" -> Less(t, b, a)
         [] op = "<=" -> ~Less(t, b, a) [] op = ">=" -> ~Less(t, a, b))

(* shifts: t is the promoted type of the left operand, the count is the     *)
(* (converted) right operand, of type ct.  strict: left-shifting a negative *)
(* or overflowing signed value is undefined.                                *)
ShiftOp(op, t, a, ct, c) ==
  IF (IsSigned(ct) /\ Neg8(c)) \/ ~IsSmall(c) THEN R(W0, TRUE)
  ELSE IF ToNat(c) >= Width(t) THEN R(W0, TRUE)
  ELSE LET n == ToNat(c) IN
    IF op = "<<"
    THEN LET r == Conv(WShl(a, n), t)
         IN R(r, IsSigned(t) /\ (Neg8(a) \/ WAShr(r, n) # a))
    ELSE R(IF IsSigned(t) THEN WAShr(a, n) ELSE WLShr(a, n), FALSE)

RelOps == {"==","!=","<",">","<=",">="}
ShiftOps == {"<<",">>"}
ArithOps == {"+","-","*","/","%","&","|","^"}

BinType(op, ta, tb) == IF op \in RelOps THEN "int"
                       ELSE IF op \in ShiftOps THEN Promote(ta) ELSE UAC(ta, tb)
(* a op b with C's conversions: [t, v, ub] *)
BinOp(op, ta, a, tb, b) ==
  IF op \in RelOps
  THEN LET t == UAC(ta, tb) IN [t |-> "int", v |-> RelOp(op, t, Conv(a, t), Conv(b, t)), ub |-> FALSE]
  ELSE IF op \in ShiftOps
  THEN LET t == Promote(ta)  r == ShiftOp(op, t, Conv(a, t), Promote(tb), Conv(b, Promote(tb)))
       IN [t |-> t, v |-> r.v, ub |-> r.ub]
  ELSE LET t == UAC(ta, tb)  r == ArithOp(op, t, Conv(a, t), Conv(b, t))
       IN [t |-> t, v |-> r.v, ub |-> r.ub]
UnOp(op, ta, a) ==
  LET t == Promote(ta)  w == Conv(a, t) IN
  CASE op = "!" -> [t |-> "int", v |-> Bool(w = W0), ub |-> FALSE]
    [] op = "~" -> [t |-> t, v |-> Conv(WNot(w), t), ub |-> FALSE]
    [] op = "+" -> [t |-> t, v |-> w, ub |-> FALSE]
    [] op = "-" -> LET r == ArithOp("-", t, W0, w) IN [t |-> t, v |-> r.v, ub |-> r.ub]
=============================================================================
