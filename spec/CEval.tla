-------------------------------- MODULE CEval --------------------------------
(* Evaluation of integer expressions.  An expression is a record (as read   *)
(* from JSON); every variable leaf carries its object id, type and current  *)
(* value, and occurs once, so the effects of nested assignments commute and *)
(* no sequencing question arises here (CMachine.tla decides sequencing).    *)
(*   [k |-> "var", id, t, v]             rvalue of an object                *)
(*   [k |-> "lit", t, v]                 literal of known type              *)
(*   [k |-> "num", base, suf, v]         literal whose type the rules give  *)
(*   [k |-> "un", op, e] [k |-> "bin", op, l, r]                            *)
(*   [k |-> "and"|"or", l, r] [k |-> "cond", c, l, r] [k |-> "elvis", l, r] *)
(*   [k |-> "comma", l, r] [k |-> "cast", t, e]                             *)
(*   [k |-> "asg", id, t, e] [k |-> "cas", op, id, t, v, e]                 *)
(*   [k |-> "pre"|"post", op, id, t, v]  ++ / --                            *)
(*   [k |-> "sizeof", e] [k |-> "sizeoft", t] [k |-> "truth", e]            *)
(*   [k |-> "bf", id, t, w, v]           rvalue of a bit-field of width w   *)
(* Result: [t, v, ub, eff], eff the sequence of <<object id, new value>>.   *)
EXTENDS CTypes

(* 6.4.4.1: type of an integer constant *)
LitTypes(base, suf) ==
  CASE suf = "" -> IF base = 10 THEN <<"int","long","llong">> ELSE <<"int","uint","long","ulong","llong","ullong">>
    [] suf = "u" -> <<"uint","ulong","ullong">>
    [] suf = "l" -> IF base = 10 THEN <<"long","llong">> ELSE <<"long","ulong","llong","ullong">>
    [] suf = "ul" -> <<"ulong","ullong">>
    [] suf = "ll" -> IF base = 10 THEN <<"llong">> ELSE <<"llong","ullong">>
    [] suf = "ull" -> <<"ullong">>
Fits(w, t) == IF IsSigned(t) THEN ~Neg8(w) /\ Conv(w, t) = w ELSE Conv(w, t) = w
RECURSIVE FirstFit(_, _, _)
FirstFit(w, ts, k) == IF k > Len(ts) THEN "none" ELSE IF Fits(w, ts[k]) THEN ts[k] ELSE FirstFit(w, ts, k + 1)
LitType(w, base, suf) == FirstFit(w, LitTypes(base, suf), 1)

Res(t, v, ub, eff) == [t |-> t, v |-> v, ub |-> ub, eff |-> eff]
(* 6.3.1.1p2 for a bit-field of declared type t and width w; wider than int  *)
(* (an extension) it keeps its declared type                                *)
BfType(t, w) == IF w < 32 THEN "int"
                ELSE IF w = 32 THEN (IF IsSigned(t) THEN "int" ELSE "uint")
                ELSE t

RECURSIVE Eval(_), TypeOf(_)
TypeOf(e) ==
  CASE e.k = "var" -> e.t
    [] e.k = "lit" -> e.t
    [] e.k = "num" -> LitType(e.v, e.base, e.suf)
    [] e.k = "bf"  -> e.t
    [] e.k = "un"  -> IF e.op = "!" THEN "int" ELSE Promote(TypeOf(e.e))
    [] e.k = "bin" -> BinType(e.op, TypeOf(e.l), TypeOf(e.r))
    [] e.k \in {"and","or"} -> "int"
    [] e.k = "cond" -> UAC(TypeOf(e.l), TypeOf(e.r))
    [] e.k = "elvis" -> UAC(TypeOf(e.l), TypeOf(e.r))
    [] e.k = "comma" -> TypeOf(e.r)
    [] e.k \in {"cast","asg","cas","pre","post"} -> e.t
    [] e.k \in {"sizeof","sizeoft"} -> "ulong"
    [] e.k = "truth" -> "int"

Eval(e) ==
  CASE e.k \in {"var","lit"} -> Res(e.t, e.v, FALSE, <<>>)
    [] e.k = "bf" -> Res(BfType(e.t, e.w), e.v, FALSE, <<>>)
    [] e.k = "num" -> Res(LitType(e.v, e.base, e.suf), e.v, FALSE, <<>>)
    [] e.k = "un" ->
         LET x == Eval(e.e)  r == UnOp(e.op, x.t, x.v) IN Res(r.t, r.v, x.ub \/ r.ub, x.eff)
    [] e.k = "bin" ->
         LET x == Eval(e.l)  y == Eval(e.r)
             u == x.ub \/ y.ub
         IN IF u THEN Res(BinType(e.op, x.t, y.t), W0, TRUE, <<>>)
            ELSE LET r == BinOp(e.op, x.t, x.v, y.t, y.v) IN Res(r.t, r.v, r.ub, x.eff \o y.eff)
    [] e.k \in {"and","or"} ->
         LET x == Eval(e.l)
             stop == IF e.k = "and" THEN x.v = W0 ELSE x.v # W0
         IN IF x.ub THEN Res("int", W0, TRUE, <<>>)
            ELSE IF stop THEN Res("int", Bool(x.v # W0), FALSE, x.eff)
            ELSE LET y == Eval(e.r) IN Res("int", Bool(y.v # W0), y.ub, x.eff \o y.eff)
    [] e.k = "cond" ->
         LET c == Eval(e.c)
             t == UAC(TypeOf(e.l), TypeOf(e.r))
         IN IF c.ub THEN Res(t, W0, TRUE, <<>>)
            ELSE LET x == IF c.v # W0 THEN Eval(e.l) ELSE Eval(e.r)
                 IN Res(t, Conv(x.v, t), x.ub, c.eff \o x.eff)
    [] e.k = "elvis" ->
         LET c == Eval(e.l)
             t == UAC(c.t, TypeOf(e.r))
         IN IF c.ub THEN Res(t, W0, TRUE, <<>>)
            ELSE IF c.v # W0 THEN Res(t, Conv(c.v, t), FALSE, c.eff)
            ELSE LET x == Eval(e.r) IN Res(t, Conv(x.v, t), x.ub, c.eff \o x.eff)
    [] e.k = "comma" ->
         LET x == Eval(e.l)  y == Eval(e.r) IN Res(y.t, y.v, x.ub \/ y.ub, x.eff \o y.eff)
    [] e.k = "cast" -> LET x == Eval(e.e) IN Res(e.t, Conv(x.v, e.t), x.ub, x.eff)
    [] e.k = "truth" -> LET x == Eval(e.e) IN Res("int", Bool(x.v # W0), x.ub, x.eff)
    [] e.k = "asg" ->
         LET x == Eval(e.e)  w == Conv(x.v, e.t) IN Res(e.t, w, x.ub, x.eff \o << <<e.id, w>> >>)
    [] e.k = "cas" ->
         LET x == Eval(e.e)
             r == BinOp(e.op, e.t, e.v, x.t, x.v)
             w == Conv(r.v, e.t)
         IN IF x.ub THEN Res(e.t, W0, TRUE, <<>>) ELSE Res(e.t, w, r.ub, x.eff \o << <<e.id, w>> >>)
    [] e.k \in {"pre","post"} ->
         LET r == BinOp(e.op, e.t, e.v, "int", W1)
             w == Conv(r.v, e.t)
         IN Res(e.t, IF e.k = "pre" THEN w ELSE e.v, r.ub, << <<e.id, w>> >>)
    [] e.k = "sizeof" -> Res("ulong", FromInt(SizeOf(TypeOf(e.e))), FALSE, <<>>)
    [] e.k = "sizeoft" -> Res("ulong", FromInt(SizeOf(e.t)), FALSE, <<>>)
=============================================================================
