------------------------------ MODULE CppCond ------------------------------
(* Conditional inclusion (6.10.1).  A translation unit is a sequence of      *)
(* lines (text, conditional directives, #define/#undef, #error, ...); the    *)
(* state is the stack of open conditionals, the macros defined so far and    *)
(* the text emitted.  Controlling expressions are token sequences: defined   *)
(* is replaced, object-like macros are expanded, remaining identifiers are   *)
(* zero, and the result is parsed by precedence and evaluated in             *)
(* intmax_t/uintmax_t with C's unevaluated operands.                         *)
EXTENDS Word, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

Num(v, u) == [k |-> "num", v |-> v, u |-> u, s |-> ""]
IsId(t) == t.k = "id"
Is(t, s) == t.k = "op" /\ t.s = s

(* ---- macro expansion (object-like; function-like macros are C16's) *)
Def(defs, n) == n \in DOMAIN defs
RECURSIVE Expand(_, _, _)
Expand(ts, defs, hide) ==
  IF ts = <<>> THEN <<>>
  ELSE LET h == Head(ts) IN
       (IF IsId(h) /\ Def(defs, h.s) /\ h.s \notin hide
        THEN Expand(defs[h.s], defs, hide \cup {h.s}) ELSE <<h>>)
       \o Expand(Tail(ts), defs, hide)

(* defined X, defined ( X ); an ill-formed use leaves the operator behind,   *)
(* which no expression accepts                                               *)
RECURSIVE Defined(_, _)
Defined(ts, defs) ==
  IF ts = <<>> THEN <<>>
  ELSE IF IsId(ts[1]) /\ ts[1].s = "defined"
       THEN IF Len(ts) >= 2 /\ IsId(ts[2])
            THEN <<Num(FromInt(IF Def(defs, ts[2].s) THEN 1 ELSE 0), FALSE)>> \o Defined(SubSeq(ts, 3, Len(ts)), defs)
            ELSE IF Len(ts) >= 4 /\ Is(ts[2], "(") /\ IsId(ts[3]) /\ Is(ts[4], ")")
            THEN <<Num(FromInt(IF Def(defs, ts[3].s) THEN 1 ELSE 0), FALSE)>> \o Defined(SubSeq(ts, 5, Len(ts)), defs)
            ELSE <<[k |-> "bad", s |-> "defined"]>> \o Defined(Tail(ts), defs)
       ELSE <<ts[1]>> \o Defined(Tail(ts), defs)

(* ---- values: [v, u (unsigned), e ("" | "div" | "ub"), p (next token), ok] *)
Val(v, u, e, p) == [v |-> v, u |-> u, e |-> e, p |-> p, ok |-> TRUE]
Bad(p) == [v |-> W0, u |-> FALSE, e |-> "", p |-> p, ok |-> FALSE]
IntOf(b) == IF b THEN W1 ELSE W0
Join(a, b) == IF "ub" \in {a, b} THEN "ub" ELSE IF a # "" THEN a ELSE b

Prec(t) == IF t.k # "op" THEN 99
  ELSE CASE t.s \in {"*","/","%"} -> 1 [] t.s \in {"+","-"} -> 2 [] t.s \in {"<<",">>"} -> 3
         [] t.s \in {"<","<=",">",">="} -> 4 [] t.s \in {"==","!="} -> 5 [] t.s = "&" -> 6
         [] t.s = "^" -> 7 [] t.s = "|" -> 8 [] t.s = "&&" -> 9 [] t.s = "||" -> 10
         [] t.s = "?" -> 11 [] OTHER -> 99

MinW == <<0,0,0,0,0,0,0,128>>
(* signed results that do not fit are undefined *)
SAddOv(a, b) == Neg8(a) = Neg8(b) /\ Neg8(WAdd(a, b)) # Neg8(a)
SMulOv(a, b) == LET p == WUMul16(WAbs(a), WAbs(b))  neg == Neg8(a) # Neg8(b)
                    hi == \E k \in 9..16 : p[k] # 0
                    lo == [k \in 1..8 |-> p[k]]
                IN hi \/ (Neg8(lo) /\ ~(neg /\ lo = MinW))
Arith(op, a, b, u) ==       \* [v, e]
  CASE op = "+" -> [v |-> WAdd(a, b), e |-> IF ~u /\ SAddOv(a, b) THEN "ub" ELSE ""]
    [] op = "-" -> [v |-> WSub(a, b), e |-> IF ~u /\ Neg8(a) # Neg8(b) /\ Neg8(WSub(a, b)) # Neg8(a) THEN "ub" ELSE ""]
    [] op = "*" -> [v |-> WMul(a, b), e |-> IF ~u /\ SMulOv(a, b) THEN "ub" ELSE ""]
    [] op \in {"/","%"} ->
         IF b = W0 THEN [v |-> W0, e |-> "div"]
         ELSE IF ~u /\ a = MinW /\ b = WNot(W0) THEN [v |-> W0, e |-> "ub"]
         ELSE LET q == IF u THEN WUDivMod(a, b) ELSE WSDivMod(a, b)
              IN [v |-> IF op = "/" THEN q[1] ELSE q[2], e |-> ""]
    [] op = "&" -> [v |-> WAnd(a, b), e |-> ""]
    [] op = "|" -> [v |-> WOr(a, b), e |-> ""]
    [] op = "^" -> [v |-> WXor(a, b), e |-> ""]
Shift(op, a, b, u, bu) ==
  IF (~bu /\ Neg8(b)) \/ ~IsSmall(b) THEN [v |-> W0, e |-> "ub"]
  ELSE IF ToNat(b) >= 64 THEN [v |-> W0, e |-> "ub"]
  ELSE IF op = "<<" THEN [v |-> WShl(a, ToNat(b)),
         e |-> IF ~u /\ (Neg8(a) \/ WAShr(WShl(a, ToNat(b)), ToNat(b)) # a) THEN "ub" ELSE ""]
  ELSE [v |-> IF u THEN WLShr(a, ToNat(b)) ELSE WAShr(a, ToNat(b)), e |-> ""]
Less(a, b, u) == IF u THEN WULt(a, b) ELSE WSLt(a, b)

Bin(op, l, r) ==
  LET u == l.u \/ r.u  e == Join(l.e, r.e) IN
  CASE op = "&&" -> Val(IntOf(l.v # W0 /\ r.v # W0), FALSE, IF l.v = W0 THEN l.e ELSE e, r.p)
    [] op = "||" -> Val(IntOf(l.v # W0 \/ r.v # W0), FALSE, IF l.v # W0 THEN l.e ELSE e, r.p)
    [] op = "==" -> Val(IntOf(l.v = r.v), FALSE, e, r.p)
    [] op = "!=" -> Val(IntOf(l.v # r.v), FALSE, e, r.p)
    [] op = "<"  -> Val(IntOf(Less(l.v, r.v, u)), FALSE, e, r.p)
    [] op = ">"  -> Val(IntOf(Less(r.v, l.v, u)), FALSE, e, r.p)
    [] op = "<=" -> Val(IntOf(~Less(r.v, l.v, u)), FALSE, e, r.p)
    [] op = ">=" -> Val(IntOf(~Less(l.v, r.v, u)), FALSE, e, r.p)
    [] op \in {"<<",">>"} -> LET s == Shift(op, l.v, r.v, l.u, r.u) IN Val(s.v, l.u, Join(e, s.e), r.p)
    [] OTHER -> LET a == Arith(op, l.v, r.v, u) IN Val(a.v, u, Join(e, a.e), r.p)

RECURSIVE Prim(_, _)
RECURSIVE Climb(_, _, _)
Prim(t, p) ==
  IF p > Len(t) THEN Bad(p)
  ELSE LET h == t[p] IN
    CASE h.k = "num" -> Val(h.v, h.u, "", p + 1)
      [] h.k = "id" -> Val(W0, FALSE, "", p + 1)
      [] Is(h, "(") -> LET x == Climb(t, Prim(t, p + 1), 11) IN
           IF ~x.ok \/ x.p > Len(t) THEN Bad(p)
           ELSE IF Is(t[x.p], ")") THEN [x EXCEPT !.p = @ + 1] ELSE Bad(p)
      [] h.k = "op" /\ h.s \in {"-","+","!","~"} ->
           LET x == Prim(t, p + 1) IN
           IF ~x.ok THEN x
           ELSE (CASE h.s = "-" -> [x EXCEPT !.v = WNeg(@), !.e = IF ~x.u /\ x.v = MinW THEN "ub" ELSE @]
                  [] h.s = "+" -> x
                  [] h.s = "~" -> [x EXCEPT !.v = WNot(@)]
                  [] h.s = "!" -> [x EXCEPT !.v = IntOf(@ = W0), !.u = FALSE])
      [] OTHER -> Bad(p)
Climb(t, l, max) ==
  IF ~l.ok \/ l.p > Len(t) THEN l
  ELSE IF Prec(t[l.p]) > max THEN l
  ELSE IF Is(t[l.p], "?")
  THEN LET a == Climb(t, Prim(t, l.p + 1), 11) IN
       IF ~a.ok \/ a.p > Len(t) THEN Bad(l.p)
       ELSE IF ~Is(t[a.p], ":") THEN Bad(l.p)
       ELSE LET b == Climb(t, Prim(t, a.p + 1), 11)  u == a.u \/ b.u
                e == Join(l.e, IF l.v # W0 THEN a.e ELSE b.e)
            IN IF ~b.ok THEN b
               ELSE Climb(t, Val(IF l.v # W0 THEN a.v ELSE b.v, u, e, b.p), max)
  ELSE LET r == Climb(t, Prim(t, l.p + 1), Prec(t[l.p]) - 1) IN
       IF ~r.ok THEN r ELSE Climb(t, Bin(t[l.p].s, l, r), max)

(* "true" | "false" | "reject" | "drop" *)
Cond(toks, defs) ==
  LET x == Expand(Defined(toks, defs), defs, {}) IN
  IF \E k \in 1..Len(x) : IsId(x[k]) /\ x[k].s = "defined" THEN "drop"
  ELSE LET r == Climb(x, Prim(x, 1), 11) IN
       IF ~r.ok \/ r.p <= Len(x) THEN "reject"
       ELSE IF r.e = "div" THEN "reject" ELSE IF r.e = "ub" THEN "drop"
       ELSE IF r.v # W0 THEN "true" ELSE "false"

(* ---- the machine *)
VARIABLES i, pc, stk, defs, out, st
vars == <<i, pc, stk, defs, out, st>>
L == Cases[i].lines
Live == stk = <<>> \/ stk[Len(stk)].cur
NoDefs == [n \in {} |-> <<>>]
CmdDefs(c) == [n \in {c.defs[k].n : k \in 1..Len(c.defs)} |->
                 LET js == {k \in 1..Len(c.defs) : c.defs[k].n = n} IN c.defs[CHOOSE k \in js : \A j \in js : j <= k].b]
Init == /\ i \in 1..Len(Cases) /\ pc = 1 /\ stk = <<>> /\ out = <<>> /\ st = "run"
        /\ defs = CmdDefs(Cases[i])

Top == stk[Len(stk)]
SetTop(f) == [stk EXCEPT ![Len(stk)] = f]
Push(c) == Append(stk, [outer |-> Live, cur |-> Live /\ c, taken |-> c, els |-> FALSE, cnt |-> IF Live /\ c THEN 1 ELSE 0])
Stop(s) == st' = s /\ UNCHANGED <<stk, defs, out>>
Keep == UNCHANGED st

If(c) ==      \* c: "true" | "false" | "reject" | "drop"
  IF c \in {"reject","drop"} THEN Stop(c)
  ELSE stk' = Push(c = "true") /\ Keep /\ UNCHANGED <<defs, out>>
Elif(toks) ==
  IF stk = <<>> THEN Stop("reject")
  ELSE IF Top.els THEN Stop("reject")
  ELSE IF ~Top.outer \/ Top.taken THEN stk' = SetTop([Top EXCEPT !.cur = FALSE]) /\ Keep /\ UNCHANGED <<defs, out>>
  ELSE LET c == Cond(toks, defs) IN
       IF c \in {"reject","drop"} THEN Stop(c)
       ELSE /\ stk' = SetTop([Top EXCEPT !.cur = (c = "true"), !.taken = (c = "true"), !.cnt = @ + (IF c = "true" THEN 1 ELSE 0)])
            /\ Keep /\ UNCHANGED <<defs, out>>
Else ==
  IF stk = <<>> THEN Stop("reject")
  ELSE IF Top.els THEN Stop("reject")
  ELSE LET g == Top.outer /\ ~Top.taken IN
       /\ stk' = SetTop([Top EXCEPT !.cur = g, !.taken = TRUE, !.els = TRUE, !.cnt = @ + (IF g THEN 1 ELSE 0)])
       /\ Keep /\ UNCHANGED <<defs, out>>
Endif == IF stk = <<>> THEN Stop("reject")
         ELSE stk' = SubSeq(stk, 1, Len(stk) - 1) /\ Keep /\ UNCHANGED <<defs, out>>

Step ==
  /\ st = "run" /\ pc <= Len(L)
  /\ LET l == L[pc] IN
     CASE l.k = "if"     -> IF Live THEN If(Cond(l.t, defs)) ELSE If("false")
       [] l.k = "ifdef"  -> IF Live /\ l.n = "" THEN Stop("reject") ELSE If(IF Def(defs, l.n) THEN "true" ELSE "false")
       [] l.k = "ifndef" -> IF Live /\ l.n = "" THEN Stop("reject") ELSE If(IF Def(defs, l.n) THEN "false" ELSE "true")
       [] l.k = "elif"   -> Elif(l.t)
       [] l.k = "else"   -> Else
       [] l.k = "endif"  -> Endif
       [] l.k = "define" -> /\ defs' = IF Live THEN [n \in DOMAIN defs \cup {l.n} |-> IF n = l.n THEN l.b ELSE defs[n]] ELSE defs
                            /\ Keep /\ UNCHANGED <<stk, out>>
       [] l.k = "undef"  -> /\ defs' = IF Live THEN [n \in DOMAIN defs \ {l.n} |-> defs[n]] ELSE defs
                            /\ Keep /\ UNCHANGED <<stk, out>>
       [] l.k = "text"   -> /\ out' = IF Live THEN out \o LET x == Expand(l.t, defs, {}) IN [k \in 1..Len(x) |-> x[k].s] ELSE out
                            /\ Keep /\ UNCHANGED <<stk, defs>>
       [] l.k = "fatal"  -> IF Live THEN Stop("reject") ELSE Stop("run")
       [] l.k = "noise"  -> IF Live THEN Stop("drop") ELSE Stop("run")
       [] l.k = "null"   -> Stop("run")
  /\ pc' = pc + 1 /\ UNCHANGED i
Finish ==
  /\ st \in {"reject","drop"} \/ (st = "run" /\ pc > Len(L))
  /\ LET r == IF st = "run" /\ stk # <<>> THEN "reject" ELSE st IN
     st' = "end" /\ PrintT("@@" \o ToJson(<<i, [st |-> r, out |-> out, at |-> pc - 1]>>))
  /\ UNCHANGED <<i, pc, stk, defs, out>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- what the machine guarantees *)
Opens(n) == Len(SelectSeq(SubSeq(L, 1, n), LAMBDA l : l.k \in {"if","ifdef","ifndef"}))
Closes(n) == Len(SelectSeq(SubSeq(L, 1, n), LAMBDA l : l.k = "endif"))
Depth == st = "run" => Len(stk) = Opens(pc - 1) - Closes(pc - 1)
(* at most one group of a conditional is processed, exactly one once #else   *)
(* was met in a processed context, and none when the context is skipped      *)
OneGroup == \A k \in 1..Len(stk) : LET f == stk[k] IN
              /\ f.cnt <= 1 /\ (~f.outer => f.cnt = 0 /\ ~f.cur) /\ (f.els /\ f.outer => f.cnt = 1)
              /\ (f.cur => f.cnt = 1)
Nested == \A k \in 2..Len(stk) : stk[k].cur => stk[k - 1].cur
(* skipped groups have no effect *)
SkipInert == [][(st = "run" /\ ~Live) => (defs' = defs /\ out' = out)]_vars
=============================================================================
