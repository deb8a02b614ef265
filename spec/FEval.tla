------------------------------- MODULE FEval --------------------------------
(* Evaluation of expressions over all arithmetic types, floating ones         *)
(* included: the rules of CEval with the conversions and operators of Flt.    *)
(* (See CEval for the shape of expressions.)                                  *)
EXTENDS Flt, Json, IOUtils

\* Two known departures of the implementation (its own tests ask for both) are
\* part of the model, so that everything around them is still decided:
\*  - where control branches on a NaN, the NaN is taken for false;
\*  - unsigned int and floating types are converted as if through int at run time.
\* With alt, an expression is evaluated that way; qn and qu count the places
\* where it makes a difference.
NaNVal(t, v) == IsFlt(t) /\ Unpack(t, v).c = "nan"
CTrue(alt, t, v) == IF alt /\ NaNVal(t, v) THEN FALSE ELSE GTrue(t, v)
QN(t, v) == IF NaNVal(t, v) THEN 1 ELSE 0
IntMin32 == SExt(<<0, 0, 0, 128, 0, 0, 0, 0>>, 4)
HasQU(t, v, to) == \/ t = "uint" /\ IsFlt(to) /\ v[4] >= 128
                   \/ to = "uint" /\ IsFlt(t) /\ LET y == GConv(t, v, "uint") IN ~y.ub /\ y.v[4] >= 128
QU(t, v, to) == IF HasQU(t, v, to) THEN 1 ELSE 0
QConv(alt, t, v, to) ==
  IF alt /\ HasQU(t, v, to)
  THEN IF t = "uint" THEN GConv("int", SExt(v, 4), to) ELSE [v |-> ZExt(IntMin32, 4), ub |-> FALSE]
  ELSE GConv(t, v, to)
QBin(alt, op, xt, xv, yt, yv) ==
  IF ~alt \/ op \in {"<<", ">>"} \/ ~(IsFlt(xt) \/ IsFlt(yt)) THEN GBinOp(op, xt, xv, yt, yv)
  ELSE LET ct == GUAC(xt, yt) IN GBinOp(op, ct, QConv(alt, xt, xv, ct).v, ct, QConv(alt, yt, yv, ct).v)
QUBin(op, xt, xv, yt, yv) ==
  IF IsFlt(xt) \/ IsFlt(yt) THEN QU(xt, xv, GUAC(xt, yt)) + QU(yt, yv, GUAC(xt, yt)) ELSE 0

Res(t, v, ub, eff, q) == [t |-> t, v |-> v, ub |-> ub, eff |-> eff, q |-> q]
Q0 == <<0, 0>>
QAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE Eval(_, _), TypeOf(_)
TypeOf(e) ==
  CASE e.k = "var" -> e.t
    [] e.k = "lit" -> e.t
    [] e.k = "num" -> "int"
    [] e.k = "un"  -> IF e.op = "!" THEN "int" ELSE GPromote(TypeOf(e.e))
    [] e.k = "bin" -> GBinType(e.op, TypeOf(e.l), TypeOf(e.r))
    [] e.k \in {"and","or"} -> "int"
    [] e.k = "cond" -> GUAC(TypeOf(e.l), TypeOf(e.r))
    [] e.k = "elvis" -> GUAC(TypeOf(e.l), TypeOf(e.r))
    [] e.k = "comma" -> TypeOf(e.r)
    [] e.k \in {"cast","asg","cas","pre","post"} -> e.t
    [] e.k \in {"sizeof","sizeoft"} -> "ulong"
    [] e.k = "truth" -> "int"

Eval(e, alt) ==
  CASE e.k \in {"var","lit"} -> Res(e.t, e.v, FALSE, <<>>, Q0)
    [] e.k = "num" -> Res("int", e.v, FALSE, <<>>, Q0)
    [] e.k = "un" ->
         LET x == Eval(e.e, alt)  r == GUnOp(e.op, x.t, x.v) IN Res(r.t, r.v, x.ub \/ r.ub, x.eff, x.q)
    [] e.k = "bin" ->
         LET x == Eval(e.l, alt)  y == Eval(e.r, alt)
         IN IF x.ub \/ y.ub THEN Res(GBinType(e.op, x.t, y.t), W0, TRUE, <<>>, Q0)
            ELSE LET r == QBin(alt, e.op, x.t, x.v, y.t, y.v)
                 IN Res(r.t, r.v, r.ub, x.eff \o y.eff,
                        QAdd(QAdd(x.q, y.q), <<0, QUBin(e.op, x.t, x.v, y.t, y.v)>>))
    [] e.k \in {"and","or"} ->
         LET x == Eval(e.l, alt)
             stop == IF e.k = "and" THEN ~CTrue(alt, x.t, x.v) ELSE CTrue(alt, x.t, x.v)
         IN IF x.ub THEN Res("int", W0, TRUE, <<>>, Q0)
            ELSE IF stop THEN Res("int", Bool(CTrue(alt, x.t, x.v)), FALSE, x.eff, QAdd(x.q, <<QN(x.t, x.v), 0>>))
            ELSE LET y == Eval(e.r, alt)
                 IN Res("int", Bool(CTrue(alt, y.t, y.v)), y.ub, x.eff \o y.eff,
                        QAdd(QAdd(x.q, y.q), <<QN(x.t, x.v) + QN(y.t, y.v), 0>>))
    [] e.k = "cond" ->
         LET c == Eval(e.c, alt)
             t == GUAC(TypeOf(e.l), TypeOf(e.r))
         IN IF c.ub THEN Res(t, W0, TRUE, <<>>, Q0)
            ELSE LET x == IF CTrue(alt, c.t, c.v) THEN Eval(e.l, alt) ELSE Eval(e.r, alt)
                     y == QConv(alt, x.t, x.v, t)
                 IN Res(t, y.v, x.ub \/ y.ub, c.eff \o x.eff,
                        QAdd(QAdd(c.q, x.q), <<QN(c.t, c.v), QU(x.t, x.v, t)>>))
    [] e.k = "elvis" ->
         LET c == Eval(e.l, alt)
             t == GUAC(c.t, TypeOf(e.r))
         IN IF c.ub THEN Res(t, W0, TRUE, <<>>, Q0)
            ELSE IF CTrue(alt, c.t, c.v)
            THEN LET y == QConv(alt, c.t, c.v, t)
                 IN Res(t, y.v, y.ub, c.eff, QAdd(c.q, <<QN(c.t, c.v), QU(c.t, c.v, t)>>))
            ELSE LET x == Eval(e.r, alt)     y == QConv(alt, x.t, x.v, t)
                 IN Res(t, y.v, x.ub \/ y.ub, c.eff \o x.eff,
                        QAdd(QAdd(c.q, x.q), <<QN(c.t, c.v), QU(x.t, x.v, t)>>))
    [] e.k = "comma" ->
         LET x == Eval(e.l, alt)  y == Eval(e.r, alt) IN Res(y.t, y.v, x.ub \/ y.ub, x.eff \o y.eff, QAdd(x.q, y.q))
    [] e.k = "cast" ->
         LET x == Eval(e.e, alt)  y == QConv(alt, x.t, x.v, e.t)
         IN Res(e.t, y.v, x.ub \/ y.ub, x.eff, QAdd(x.q, <<0, QU(x.t, x.v, e.t)>>))
    [] e.k = "truth" ->
         LET x == Eval(e.e, alt) IN Res("int", Bool(CTrue(alt, x.t, x.v)), x.ub, x.eff, QAdd(x.q, <<QN(x.t, x.v), 0>>))
    [] e.k = "asg" ->
         LET x == Eval(e.e, alt)  y == QConv(alt, x.t, x.v, e.t)
         IN Res(e.t, y.v, x.ub \/ y.ub, x.eff \o << <<e.id, y.v>> >>, QAdd(x.q, <<0, QU(x.t, x.v, e.t)>>))
    [] e.k = "cas" ->
         LET x == Eval(e.e, alt)
         IN IF x.ub THEN Res(e.t, W0, TRUE, <<>>, Q0)
            ELSE LET r == QBin(alt, e.op, e.t, e.v, x.t, x.v)
                     y == QConv(alt, r.t, r.v, e.t)
                 IN Res(e.t, y.v, r.ub \/ y.ub, x.eff \o << <<e.id, y.v>> >>,
                        QAdd(x.q, <<0, QUBin(e.op, e.t, e.v, x.t, x.v) + QU(r.t, r.v, e.t)>>))
    [] e.k \in {"pre","post"} ->
         LET r == GBinOp(e.op, e.t, e.v, "int", W1)
             y == GConv(r.t, r.v, e.t)
         IN Res(e.t, IF e.k = "pre" THEN y.v ELSE e.v, r.ub \/ y.ub, << <<e.id, y.v>> >>, Q0)
    [] e.k = "sizeof" -> Res("ulong", FromInt(SizeOf(TypeOf(e.e))), FALSE, <<>>, Q0)
    [] e.k = "sizeoft" -> Res("ulong", FromInt(SizeOf(e.t)), FALSE, <<>>, Q0)
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, res
vars == <<i, res>>
None == [t |-> "none"]
Init == i \in 1..Len(Cases) /\ res = None
Next == /\ res = None
        /\ LET r == Eval(Cases[i], FALSE)
                   a == IF r.q = Q0 THEN r ELSE Eval(Cases[i], TRUE)
               IN res' = [t |-> r.t, v |-> r.v, ub |-> r.ub, eff |-> r.eff, q |-> r.q,
                          av |-> a.v, aub |-> a.ub, aeff |-> a.eff]
        /\ PrintT("@@" \o ToJson(<<i, res'>>))
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
InFmt(w, t) == IF IsFlt(t) THEN (t = "float" => ZExt(w, 4) = w) ELSE InType(w, t)
TypeOK == res = None \/ res.ub \/ (InFmt(res.v, res.t) /\ res.t = TypeOf(Cases[i]))
\* laws of the formats, checked on every leaf value explored
RECURSIVE Leafs(_)
Leafs(e) == IF e.k \in {"var", "lit"} THEN {e} ELSE
   UNION {Leafs(x) : x \in {e[f] : f \in (DOMAIN e) \cap {"e", "l", "r", "c"}}}
FltLaws == (res = None /\ i % 8 = 0) => \A x \in Leafs(Cases[i]) :
   IF IsFlt(x.t)
   THEN LET u == Unpack(x.t, x.v) IN
        /\ u.c = "fin" => Pack(x.t, u.s, u.m, u.e, FALSE) = x.v                       \* unpacking loses nothing
        /\ (x.t = "float" /\ u.c # "nan") => FToF("double", FToF("float", x.v, "double"), "float") = x.v
        /\ u.c # "nan" => FEq(x.t, x.v, x.v) /\ ~FLess(x.t, x.v, x.v) /\ FNeg(x.t, FNeg(x.t, x.v)) = x.v
        /\ u.c = "fin" => FAdd(x.t, x.v, FNeg(x.t, x.v)).v = Zero(x.t, 0)
        /\ u.c = "fin" => LET d == FDiv(x.t, x.v, x.v) IN d.ub \/ d.v = IToF("int", W1, x.t)
   ELSE /\ (SizeOf(x.t) <= 4 /\ x.t # "bool") => FToI("double", IToF(x.t, x.v, "double"), x.t) = R(x.v, FALSE)
        /\ LET f == IToF(x.t, x.v, "float")  d == IToF(x.t, x.v, "double") IN FToF("double", d, "float") = f \/ SizeOf(x.t) > 4
=============================================================================
