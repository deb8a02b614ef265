------------------------------ MODULE Sanitize ------------------------------
(* What -ftrapv and the undefined-behaviour sanitisers promise: a program,   *)
(* here a sequence of operations, stops at the first operation that has an   *)
(* enabled kind of undefined behaviour and at no other, and every other      *)
(* operation has its ordinary value.  An operation with undefined behaviour  *)
(* of a kind that is not enabled makes the rest of the program meaningless   *)
(* (st = "drop").  Also the overflow builtins, by exact 17-byte arithmetic.  *)
EXTENDS CEval, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)

(* ---- kinds of undefined behaviour of one operator application *)
KBin(op, ta, a, tb, b) ==
  LET r == BinOp(op, ta, a, tb, b) IN
  IF ~r.ub THEN {}
  ELSE IF op \in {"+","-","*"} THEN {"ovf"}
  ELSE IF op \in {"/","%"} THEN {"div"}
  ELSE LET t == Promote(ta)  c == Conv(b, Promote(tb))
           range == (IsSigned(Promote(tb)) /\ Neg8(c)) \/ ~IsSmall(c) \/ ToNat(c) >= Width(t)
       IN IF range \/ (op = "<<" /\ Neg8(Conv(a, t)) /\ IsSigned(t)) THEN {"shift"} ELSE {"lsh"}

RECURSIVE Kinds(_)
Kinds(e) ==
  CASE e.k \in {"var","lit","num","sizeof","sizeoft","bf"} -> {}
    [] e.k = "un" -> LET k == Kinds(e.e) IN IF k # {} THEN k
                     ELSE LET x == Eval(e.e) IN IF UnOp(e.op, x.t, x.v).ub THEN {"ovf"} ELSE {}
    [] e.k = "bin" -> LET k == Kinds(e.l) \cup Kinds(e.r) IN IF k # {} THEN k
                     ELSE LET x == Eval(e.l)  y == Eval(e.r) IN KBin(e.op, x.t, x.v, y.t, y.v)
    [] e.k \in {"and","or"} ->
         LET k == Kinds(e.l) IN IF k # {} THEN k
         ELSE LET x == Eval(e.l) IN IF (e.k = "and") = (x.v = W0) THEN {} ELSE Kinds(e.r)
    [] e.k = "cond" -> LET k == Kinds(e.c) IN IF k # {} THEN k
         ELSE IF Eval(e.c).v # W0 THEN Kinds(e.l) ELSE Kinds(e.r)
    [] e.k = "elvis" -> LET k == Kinds(e.l) IN IF k # {} THEN k
         ELSE IF Eval(e.l).v # W0 THEN {} ELSE Kinds(e.r)
    [] e.k = "comma" -> LET k == Kinds(e.l) IN IF k # {} THEN k ELSE Kinds(e.r)
    [] e.k \in {"cast","asg","truth"} -> Kinds(e.e)
    [] e.k = "cas" -> LET k == Kinds(e.e) IN IF k # {} THEN k
         ELSE LET x == Eval(e.e) IN KBin(e.op, e.t, e.v, x.t, x.v)
    [] e.k \in {"pre","post"} -> KBin(e.op, e.t, e.v, "int", W1)

(* ---- exact arithmetic: 17-byte two's complement *)
Ext17(w, t) == [k \in 1..17 |-> IF k <= 8 THEN w[k] ELSE IF IsSigned(t) /\ Neg8(w) THEN 255 ELSE 0]
Not17(a) == [k \in 1..17 |-> 255 - a[k]]
Z17 == [k \in 1..17 |-> 0]
Neg17(a) == AddN(Not17(a), Z17, 1, 1, 17)
Exact(op, ta, a, tb, b) ==
  LET x == Ext17(a, ta)  y == Ext17(b, tb) IN
  CASE op = "+" -> AddN(x, y, 0, 1, 17)
    [] op = "-" -> AddN(x, Not17(y), 1, 1, 17)
    [] op = "*" -> LET nx == IsSigned(ta) /\ Neg8(a)  ny == IsSigned(tb) /\ Neg8(b)
                       p == WUMul16(IF nx THEN WNeg(a) ELSE a, IF ny THEN WNeg(b) ELSE b) \o <<0>>
                   IN IF nx # ny THEN Neg17(p) ELSE p
OvfBuiltin(op, ta, a, tb, b, tr) ==
  LET x == Exact(op, ta, a, tb, b)  w == Conv([k \in 1..8 |-> x[k]], tr)
  IN [of |-> Ext17(w, tr) # x, v |-> w]

(* ---- one operation: [ub: kinds, out: sequence of words logged] *)
Out(k, o) == [ub |-> k, out |-> o]
SN(o) == ToInt(o)
Op(o) ==
  CASE o.k = "expr" -> LET ks == Kinds(o.e) IN
         IF ks # {} THEN Out(ks, <<>>) ELSE LET r == Eval(o.e) IN Out({}, <<r.v>> \o [j \in 1..Len(r.eff) |-> r.eff[j][2]])
    [] o.k = "ovfb" -> LET r == OvfBuiltin(o.op, o.ta, o.a, o.tb, o.b, o.tr) IN Out({}, <<Bool(r.of), r.v>>)
    \* array of o.n elements, element j holds 10 + j; index value o.i (small); at = address only
    [] o.k = "idx" -> IF o.i < 0 \/ o.i > o.n THEN Out({"bounds"}, <<>>)
         ELSE IF o.at THEN Out({}, <<FromInt(o.i * o.sz)>>)
         ELSE IF o.i = o.n THEN Out({"end"}, <<>>) ELSE Out({}, <<FromInt(10 + o.i)>>)
    [] o.k = "load" -> IF o.null THEN Out({"null"}, <<>>)
         ELSE IF o.off % o.align # 0 THEN Out({"align"}, <<>>) ELSE Out({}, <<o.v>>)
    [] o.k = "bool" -> IF o.byte > 1 THEN Out({"bool"}, <<>>) ELSE Out({}, <<FromInt(o.byte)>>)
    [] o.k = "vla" -> IF o.n <= 0 THEN Out({"vla"}, <<>>) ELSE Out({}, <<FromInt(o.n * o.sz)>>)
    [] o.k = "unreach" -> IF o.c THEN Out({"unreach"}, <<>>) ELSE Out({}, <<W1>>)
    [] o.k = "nonnull" -> IF o.null THEN Out({"nonnull"}, <<>>) ELSE Out({}, <<FromInt(7)>>)
    [] o.k = "retnn" -> IF o.null THEN Out({"retnn"}, <<>>) ELSE Out({}, <<FromInt(8)>>)

VARIABLES i, pc, log, st
vars == <<i, pc, log, st>>
C == Cases[i]
En == {C.on[k] : k \in 1..Len(C.on)}
Init == i \in 1..Len(Cases) /\ pc = 1 /\ log = <<>> /\ st = "run"
Step == /\ st = "run" /\ pc <= Len(C.ops)
        /\ LET r == Op(C.ops[pc]) IN
             /\ st' = IF r.ub = {} THEN "run" ELSE IF r.ub \subseteq En THEN "trap" ELSE "drop"
             /\ log' = log \o r.out
        /\ pc' = pc + 1 /\ UNCHANGED i
Finish == /\ st \in {"trap","drop"} \/ (st = "run" /\ pc > Len(C.ops))
          /\ st' = "end" /\ PrintT("@@" \o ToJson(<<i, [st |-> st, log |-> log]>>))
          /\ UNCHANGED <<i, pc, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* stopping is exact: nothing is logged after a trap, and a run that does    *)
(* not stop logged something for every operation                            *)
StopsExactly == st = "run" => Len(log) >= pc - 1
(* the builtins agree with the defined cases of the ordinary operators       *)
Agree == \A k \in 1..Len(C.ops) : LET o == C.ops[k] IN
  (o.k = "ovfb" /\ o.ta = o.tb /\ o.ta = o.tr /\ o.ta = Promote(o.ta))
   => LET r == ArithOp(o.op, o.ta, o.a, o.b)  s == OvfBuiltin(o.op, o.ta, o.a, o.tb, o.b, o.tr)
      IN (~r.ub => r.v = s.v) /\ (IsSigned(o.ta) => (r.ub <=> s.of))
=============================================================================
