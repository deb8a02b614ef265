------------------------------- MODULE Macro -------------------------------
(* Macro definition and expansion (6.10.3) as a small-step rewriting system  *)
(* on token sequences, after Prosser: every token carries a hide set hs of   *)
(* the macros it came out of.  Frames are the top-level line and, above it,  *)
(* the arguments being completely expanded before they are substituted.      *)
(* Where the standard leaves open whether a replacement is nested, mode "A"  *)
(* and "B" take the two readings.  Mode "K" is B but for the one deviation   *)
(* recorded as a known finding: __VA_ARGS__ is spelled with ", " between     *)
(* arguments, whatever the white space of the call was.                      *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
MaxTok == 250
MaxStep == 500

VARIABLES i, mode, pc, defs, frames, out, st, steps
vars == <<i, mode, pc, defs, frames, out, st, steps>>
L == Cases[i].lines

Min(a, b) == IF a < b THEN a ELSE b
From(s, k) == SubSeq(s, k, Len(s))
IsP(t, s) == t.k = "p" /\ t.s = s
Range(s) == {s[k] : k \in 1..Len(s)}
Tok(t) == [k |-> t.k, s |-> t.s, ws |-> t.ws, w |-> t.w, hs |-> {}]
Toks(ts) == [k \in 1..Len(ts) |-> Tok(ts[k])]
PM(ws) == [k |-> "pm", s |-> "", ws |-> ws, w |-> TRUE, hs |-> {}]
BADT == [k |-> "bad", s |-> "", ws |-> 0, w |-> FALSE, hs |-> {}]

(* an argument (or macro) replacing a token takes over its white space; if   *)
(* nothing is left, whether the next token is preceded by space is open (2)  *)
Lead(ts, ws) == IF ts = <<>> THEN ts ELSE [ts EXCEPT ![1].ws = ws]
After(ts, ws) == IF ts = <<>> \/ ws = 0 THEN ts ELSE IF ts[1].ws = 0 THEN [ts EXCEPT ![1].ws = 2] ELSE ts

(* ---- pasting *)
Puncts == {"<<",">>","<=",">=","==","!=","+=","-=","*=","/=","%=","&=","|=","^=","&&","||","++","--","->","<<=",">>=","##"}
Paste(x, y) ==
  IF x.k = "pm" THEN [y EXCEPT !.ws = x.ws]
  ELSE IF y.k = "pm" THEN x
  ELSE LET r(k, w) == [k |-> k, s |-> x.s \o y.s, ws |-> x.ws, w |-> w, hs |-> x.hs \cap y.hs] IN
       IF x.k = "id" /\ y.k = "id" THEN r("id", TRUE)
       ELSE IF x.k = "id" /\ y.k = "num" /\ y.w THEN r("id", TRUE)
       ELSE IF x.k = "num" /\ y.k = "id" THEN r("num", x.w)
       ELSE IF x.k = "num" /\ y.k = "num" THEN r("num", x.w /\ y.w)
       ELSE IF x.k = "num" /\ IsP(y, ".") THEN r("num", FALSE)
       ELSE IF x.k = "p" /\ y.k = "p" /\ x.s \o y.s \in Puncts THEN r("p", FALSE)
       ELSE BADT
Glue(os, ts) == SubSeq(os, 1, Len(os) - 1) \o <<Paste(os[Len(os)], ts[1])>> \o Tail(ts)

(* ---- stringising *)
RECURSIVE Esc(_)
Esc(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN
          (IF c = "\"" \/ c = "\\" THEN "\\" \o c ELSE c) \o Esc(SubSeq(s, 2, Len(s)))
Wordy(t) == t.k \in {"id", "num"}
Adj(x, y) == \/ Wordy(x) /\ Wordy(y)
             \/ x.k = "num" /\ y.k = "p" /\ y.s \in {".","+","-","++","--","->","+=","-="}
             \/ IsP(x, ".") /\ (y.k = "num" \/ IsP(y, "."))
             \/ x.k = "id" /\ y.k \in {"str","chr"}
             \/ x.k = "p" /\ y.k = "p" /\ (x.s \o y.s \in Puncts \/ x.s \o y.s \in {"//","/*","<:","%:","<%","..","%>",":>"})
             \/ x.k = "p" /\ y.k = "p" /\ x.s \in {"<<",">>","<","#"} /\ y.s \in {"=","<","<=","#","##"}
(* "bad" when the spelling depends on open points *)
RECURSIVE Spell(_, _)
Spell(ts, k) ==
  IF k > Len(ts) THEN ""
  ELSE (IF k = 1 \/ ts[k].ws = 0 THEN "" ELSE " ")
       \o (IF ts[k].k \in {"str","chr"} THEN Esc(ts[k].s) ELSE ts[k].s) \o Spell(ts, k + 1)
Open(ts) == \E k \in 2..Len(ts) : ts[k].ws = 2 \/ (ts[k].ws = 0 /\ Adj(ts[k-1], ts[k]))
Str(ts, ws) == IF Open(ts) THEN BADT
               ELSE [k |-> "str", s |-> "\"" \o Spell(ts, 1) \o "\"", ws |-> ws, w |-> FALSE, hs |-> {}]

(* ---- substitution.  m: definition; raw, exp: arguments per parameter *)
NPar(m) == Len(m.ps) + (IF m.va THEN 1 ELSE 0)
Par(m, t) ==           \* index of the parameter t names, or 0
  IF ~m.fn \/ t.k # "id" THEN 0
  ELSE IF m.va /\ t.s = "__VA_ARGS__" THEN Len(m.ps) + 1
  ELSE IF \E k \in 1..Len(m.ps) : m.ps[k] = t.s THEN CHOOSE k \in 1..Len(m.ps) : m.ps[k] = t.s ELSE 0
Raw(raw, p, ws) == IF raw[p] = <<>> THEN <<PM(ws)>> ELSE Lead(raw[p], ws)
RECURSIVE Sub(_, _, _, _, _)
Sub(m, raw, exp, is, os) ==
  IF is = <<>> THEN os
  ELSE LET h == is[1]  n == Len(is) IN
    IF m.fn /\ IsP(h, "#") /\ n >= 2 /\ Par(m, is[2]) > 0
    THEN Sub(m, raw, exp, From(is, 3), Append(os, Str(raw[Par(m, is[2])], h.ws)))
    ELSE IF IsP(h, "##") /\ n >= 2 /\ os # <<>>
    THEN IF Par(m, is[2]) > 0
         THEN Sub(m, raw, exp, From(is, 3), Glue(os, Raw(raw, Par(m, is[2]), 0)))
         ELSE IF m.fn /\ n >= 3 /\ IsP(is[2], "#") /\ Par(m, is[3]) > 0
         THEN Sub(m, raw, exp, From(is, 4), Glue(os, <<Str(raw[Par(m, is[3])], 0)>>))
         ELSE Sub(m, raw, exp, From(is, 3), Glue(os, <<is[2]>>))
    ELSE IF Par(m, h) > 0
    THEN IF n >= 2 /\ IsP(is[2], "##")
         THEN Sub(m, raw, exp, Tail(is), os \o Raw(raw, Par(m, h), h.ws))
         ELSE IF exp[Par(m, h)] = <<>>
              THEN Sub(m, raw, exp, Tail(is), Append(os, PM(h.ws)))
              ELSE Sub(m, raw, exp, Tail(is), os \o Lead(exp[Par(m, h)], h.ws))
    ELSE Sub(m, raw, exp, Tail(is), Append(os, h))
RECURSIVE NoPM(_)
NoPM(ts) == IF ts = <<>> THEN <<>>
            ELSE IF ts[1].k = "pm" THEN NoPM(After(Tail(ts), ts[1].ws)) ELSE <<ts[1]>> \o NoPM(Tail(ts))
Hide(ts, h) == [k \in 1..Len(ts) |-> [ts[k] EXCEPT !.hs = @ \cup h]]
Replace(m, raw, exp, h, hs, rest) ==
  LET b == Sub(m, raw, exp, m.b, <<>>)
      r == Lead(Hide(NoPM(b), hs), h.ws)
  IN r \o (IF r = <<>> THEN After(rest, h.ws) ELSE rest)
(* parameters substituted in expanded form *)
Needs(m, p) == \E k \in 1..Len(m.b) : /\ Par(m, m.b[k]) = p
                 /\ ~(k > 1 /\ (IsP(m.b[k-1], "##") \/ IsP(m.b[k-1], "#")))
                 /\ ~(k < Len(m.b) /\ IsP(m.b[k+1], "##"))

(* ---- invocation: todo[2] is "("; position of the matching ")" or 0 *)
RECURSIVE Close(_, _, _)
Close(ts, k, d) == IF k > Len(ts) THEN 0
  ELSE IF IsP(ts[k], "(") THEN Close(ts, k + 1, d + 1)
  ELSE IF IsP(ts[k], ")") THEN (IF d = 1 THEN k ELSE Close(ts, k + 1, d - 1))
  ELSE Close(ts, k + 1, d)
RECURSIVE Split(_, _, _, _, _)
Split(ts, k, d, cur, max) ==   \* at most max arguments: the last takes the commas
  IF k > Len(ts) THEN <<cur>>
  ELSE IF IsP(ts[k], ",") /\ d = 0 /\ max > 1 THEN <<cur>> \o Split(ts, k + 1, d, <<>>, max - 1)
  ELSE Split(ts, k + 1, IF IsP(ts[k], "(") THEN d + 1 ELSE IF IsP(ts[k], ")") THEN d - 1 ELSE d, Append(cur, ts[k]), max)

RECURSIVE Norm(_, _, _)
Norm(ts, k, d) == IF k > Len(ts) THEN ts
  ELSE IF IsP(ts[k], ",") /\ d = 0
  THEN Norm([j \in 1..Len(ts) |-> IF j = k THEN [ts[j] EXCEPT !.ws = IF k > 1 /\ IsP(ts[k-1], ",") THEN 1 ELSE 0] ELSE IF j = k + 1 THEN [ts[j] EXCEPT !.ws = 1] ELSE ts[j]], k + 1, d)
  ELSE Norm(ts, k + 1, IF IsP(ts[k], "(") THEN d + 1 ELSE IF IsP(ts[k], ")") THEN d - 1 ELSE d)
Top == frames[Len(frames)]
SetTop(f) == [frames EXCEPT ![Len(frames)] = f]
Size == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k-1) + Len(frames[k].todo) + Len(frames[k].done) IN S(Len(frames))
Def(n) == n \in DOMAIN defs
NoDefs == [n \in {} |-> <<>>]
Put(d, n, m) == [x \in DOMAIN d \cup {n} |-> IF x = n THEN m ELSE d[x]]
Mac(l) == [fn |-> l.fn, ps |-> l.ps, va |-> l.va, b |-> Toks(l.b)]

Init == /\ i \in 1..Len(Cases) /\ mode \in {"A", "B"} \cup (IF \E k \in 1..Len(L) : L[k].k = "define" /\ L[k].va THEN {"K"} ELSE {}) /\ pc = 1 /\ out = <<>> /\ st = "run" /\ steps = 0
        /\ defs = NoDefs /\ frames = <<>>

Stop(s) == st' = s /\ UNCHANGED <<defs, frames, out, pc>>
Line ==
  /\ st = "run" /\ frames = <<>> /\ pc <= Len(L) /\ steps' = 0
  /\ LET l == L[pc] IN
     CASE l.k = "define" -> defs' = Put(defs, l.n, Mac(l)) /\ UNCHANGED <<frames, out, st>>
       [] l.k = "undef"  -> defs' = [n \in DOMAIN defs \ {l.n} |-> defs[n]] /\ UNCHANGED <<frames, out, st>>
       [] l.k = "text"   -> frames' = <<[todo |-> Toks(l.t), done |-> <<>>, call |-> <<>>]>> /\ UNCHANGED <<defs, out, st>>
  /\ pc' = IF L[pc].k = "text" THEN pc ELSE pc + 1
  /\ UNCHANGED <<i, mode>>

(* next argument of the call in progress that has to be expanded, 0 if none *)
NextArg(m, p) == LET s == {k \in (p+1)..NPar(m) : Needs(m, k)} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : \A j \in s : k <= j
Call(m, h, args, hs, rest) ==
  LET none == [k \in 1..NPar(m) |-> <<>>]
      p == NextArg(m, 0) IN
  IF p = 0 THEN frames' = SetTop([Top EXCEPT !.todo = Replace(m, args, none, h, hs, rest)])
  ELSE frames' = Append(frames, [todo |-> args[p], done |-> <<>>,
                 call |-> [m |-> m, h |-> h, args |-> args, exp |-> none, p |-> p, hs |-> hs, rest |-> rest]])

Expand ==
  LET h == Top.todo[1]  rest == Tail(Top.todo) IN
  IF h.k = "bad" THEN Stop("drop")
  ELSE IF h.k # "id" \/ ~Def(h.s) \/ h.s \in h.hs
  THEN frames' = SetTop([Top EXCEPT !.todo = rest, !.done = Append(@, h)]) /\ UNCHANGED <<defs, out, st, pc>>
  ELSE LET m == defs[h.s] IN
    IF ~m.fn
    THEN frames' = SetTop([Top EXCEPT !.todo = Replace(m, <<>>, <<>>, h, h.hs \cup {h.s}, rest)]) /\ UNCHANGED <<defs, out, st, pc>>
    ELSE IF rest = <<>> \/ ~IsP(rest[1], "(")
    THEN frames' = SetTop([Top EXCEPT !.todo = rest, !.done = Append(@, h)]) /\ UNCHANGED <<defs, out, st, pc>>
    ELSE LET c == Close(rest, 1, 0) IN
      IF c = 0 THEN Stop("drop")
      ELSE LET in == SubSeq(rest, 2, c - 1)
               n == NPar(m)
               got == Split(in, 1, 0, <<>>, IF m.va THEN n ELSE 9999)
               args == IF n = 0 /\ in = <<>> THEN <<>>
                       ELSE IF m.va /\ Len(got) = n - 1 THEN Append(got, <<>>) ELSE got
               sp == IF mode = "K" /\ m.va /\ Len(args) = n THEN [args EXCEPT ![n] = Norm(@, 1, 0)] ELSE args
               hs == (IF mode = "A" THEN h.hs \cap rest[c].hs ELSE h.hs) \cup {h.s}
           IN IF Len(args) # n THEN Stop("reject")
              ELSE Call(m, h, sp, hs, From(rest, c + 1)) /\ UNCHANGED <<defs, out, st, pc>>

Return ==      \* the top frame is completely expanded
  IF Len(frames) = 1
  THEN /\ out' = out \o [k \in 1..Len(Top.done) |-> Top.done[k].s] /\ frames' = <<>> /\ pc' = pc + 1 /\ UNCHANGED <<defs, st>>
  ELSE LET c == Top.call  e == [c.exp EXCEPT ![c.p] = Top.done]  p == NextArg(c.m, c.p)
           up == SubSeq(frames, 1, Len(frames) - 1)  u == up[Len(up)] IN
       /\ frames' = IF p # 0 THEN Append(up, [todo |-> c.args[p], done |-> <<>>, call |-> [c EXCEPT !.p = p, !.exp = e]])
                    ELSE [up EXCEPT ![Len(up)] = [u EXCEPT !.todo = Replace(c.m, c.args, e, c.h, c.hs, c.rest)]]
       /\ UNCHANGED <<defs, out, st, pc>>

Step == /\ st = "run" /\ frames # <<>> /\ steps' = steps + 1
        /\ IF steps > MaxStep \/ Size > MaxTok \/ Len(out) > MaxTok THEN Stop("drop")
           ELSE IF Top.todo = <<>> THEN Return ELSE Expand
        /\ UNCHANGED <<i, mode>>
Finish ==
  /\ st \in {"reject","drop"} \/ (st = "run" /\ frames = <<>> /\ pc > Len(L))
  /\ st' = "end" /\ PrintT("@@" \o ToJson(<<i, [st |-> st, out |-> out, mode |-> mode]>>))
  /\ UNCHANGED <<i, mode, pc, defs, frames, out, steps>>
Next == Line \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what the system guarantees *)
(* a token never comes out of a macro whose name it bears unless it stays *)
HiddenStays == frames # <<>> /\ st = "run" => \A f \in Range(frames) : \A t \in Range(f.done) :
   t.k = "id" /\ Def(t.s) /\ ~defs[t.s].fn => t.s \in t.hs
HideKnown == \A f \in Range(frames) : \A t \in Range(f.todo) \cup Range(f.done) : t.hs \subseteq DOMAIN defs
(* calls nest: an argument frame's call is of a macro its own tokens may use again *)
CallOk == \A k \in 2..Len(frames) : frames[k].call.p \in 1..NPar(frames[k].call.m) /\ Len(frames[k].call.args) = NPar(frames[k].call.m)
(* what was emitted is final, and definitions change only at their lines *)
Final == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
Scoped == [][defs' # defs => frames = <<>>]_vars
Terminates == <>(st = "end")
=============================================================================
