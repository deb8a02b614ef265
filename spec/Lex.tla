--------------------------------- MODULE Lex ---------------------------------
(* The C lexer as a machine reading one character at a time (translation      *)
(* phases 3, 5, 6 and 7 for a text free of directives), and what its literal  *)
(* tokens mean.  A case is [id, text]: a sequence of character codes.         *)
(*                                                                            *)
(* State: the position, what is being read, where it began, and the tokens    *)
(* completed so far, each [k, a, b] (kind, first and last position).          *)
EXTENDS CTypes, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

Digits == 48..57
Lower == 97..122
Upper == 65..90
IdStart == Lower \cup Upper \cup {95}
IdChar == IdStart \cup Digits
Space == {32, 9, 10, 11, 12, 13}
NL == 10  BSl == 92  DQ == 34  SQ == 39  Dot == 46  Slash == 47  Star == 42  UcL == 76
Puncts == {  \* 6.4.6, as codes; # and ## belong to the preprocessor
  <<91>>,<<93>>,<<40>>,<<41>>,<<123>>,<<125>>,<<46>>,<<45,62>>,<<43,43>>,<<45,45>>,<<38>>,<<42>>,<<43>>,<<45>>,<<126>>,<<33>>,
  <<47>>,<<37>>,<<60,60>>,<<62,62>>,<<60>>,<<62>>,<<60,61>>,<<62,61>>,<<61,61>>,<<33,61>>,<<94>>,<<124>>,<<38,38>>,<<124,124>>,
  <<63>>,<<58>>,<<59>>,<<46,46,46>>,<<61>>,<<42,61>>,<<47,61>>,<<37,61>>,<<43,61>>,<<45,61>>,<<60,60,61>>,<<62,62,61>>,
  <<38,61>>,<<94,61>>,<<124,61>>,<<44>>,<<60,58>>,<<58,62>>,<<60,37>>,<<37,62>> }
PunctStart == { x[1] : x \in Puncts }

VARIABLES i, p, mode, st, toks
vars == <<i, p, mode, st, toks>>
X == Cases[i].text
N == Len(X)
At(q) == IF q >= 1 /\ q <= N THEN X[q] ELSE NL     \* a text ends with a newline
Init == i \in 1..Len(Cases) /\ p = 1 /\ mode = "start" /\ st = 0 /\ toks = <<>>

(* each step consumes the character at p, or ends the token before it *)
Eat(m) == p <= N /\ p' = p + 1 /\ mode' = m /\ UNCHANGED <<i, st, toks>>
Begin(m) == p <= N /\ p' = p + 1 /\ mode' = m /\ st' = p /\ UNCHANGED <<i, toks>>
(* the character at p is the last of the token *)
Last(k) == p <= N /\ p' = p + 1 /\ mode' = "start" /\ st' = 0 /\ toks' = Append(toks, [k |-> k, a |-> st, b |-> p]) /\ UNCHANGED i
(* the token ended before p *)
EndTok(k) == p' = p /\ mode' = "start" /\ st' = 0 /\ toks' = Append(toks, [k |-> k, a |-> st, b |-> p - 1]) /\ UNCHANGED i
Fail == mode' = "bad" /\ UNCHANGED <<i, p, st, toks>>

c == At(p)
Starting == mode = "start" /\
  IF p > N THEN FALSE
  ELSE IF c \in Space THEN Eat("start")
  ELSE IF c = Slash /\ At(p + 1) = Star THEN p' = p + 2 /\ mode' = "block" /\ UNCHANGED <<i, st, toks>>
  ELSE IF c = Slash /\ At(p + 1) = Slash THEN Eat("line")
  ELSE IF c = UcL /\ At(p + 1) \in {SQ, DQ} THEN p' = p + 2 /\ st' = p /\ mode' = (IF At(p + 1) = DQ THEN "str" ELSE "chr") /\ UNCHANGED <<i, toks>>
  ELSE IF c = DQ THEN Begin("str")
  ELSE IF c = SQ THEN Begin("chr")
  ELSE IF c \in IdStart THEN Begin("id")
  ELSE IF c \in Digits \/ (c = Dot /\ At(p + 1) \in Digits) THEN Begin("num")
  ELSE IF c \in PunctStart THEN Begin("punct")
  ELSE Fail
InLine == mode = "line" /\ p <= N /\ (IF c = NL THEN Eat("start") ELSE Eat("line"))
InBlock == mode = "block" /\ IF p > N THEN Fail
   ELSE IF c = Star /\ At(p + 1) = Slash THEN p' = p + 2 /\ mode' = "start" /\ UNCHANGED <<i, st, toks>> ELSE Eat("block")
InId == mode = "id" /\ (IF p <= N /\ c \in IdChar THEN Eat("id") ELSE EndTok("id"))
Exp == {101, 69, 112, 80}
InNum == mode = "num" /\ (IF p <= N /\ (c \in IdChar \/ c = Dot \/ (c \in {43, 45} /\ At(p - 1) \in Exp)) THEN Eat("num") ELSE EndTok("num"))
InPunct == mode = "punct" /\
  LET so == SubSeq(X, st, p - 1) IN
  IF p <= N /\ (Append(so, c) \in Puncts \/ (so = <<Dot>> /\ c = Dot /\ At(p + 1) = Dot) \/ Append(so, c) = <<Dot, Dot, Dot>>) THEN Eat("punct")
  ELSE EndTok("punct")
InQuote == mode \in {"str", "chr"} /\
  LET q == IF mode = "str" THEN DQ ELSE SQ IN
  IF p > N \/ c = NL THEN Fail
  ELSE IF c = BSl THEN (IF p + 1 > N THEN Fail ELSE p' = p + 2 /\ UNCHANGED <<i, mode, st, toks>>)
  ELSE IF c = q THEN Last(mode)
  ELSE Eat(mode)
Lexing == Starting \/ InLine \/ InBlock \/ InId \/ InNum \/ InPunct \/ InQuote
AtEnd == p > N /\ mode \in {"start", "line"}

(* ---- meanings -------------------------------------------------------------- *)
Text(t) == SubSeq(X, t.a, t.b)
DigVal(d) == IF d \in Digits THEN d - 48 ELSE IF d \in Lower THEN d - 87 ELSE d - 55
W10(b) == FromInt(b)
(* digits to a word; <<overflowed, word>> *)
RECURSIVE Number(_, _, _, _)
Number(s, b, acc, ov) ==
  IF s = <<>> THEN <<ov, acc>>
  ELSE LET m == WUMul16(acc, FromInt(b))
           lo == [k \in 1..8 |-> m[k]]
           r == WAdd(lo, FromInt(DigVal(Head(s))))
       IN Number(Tail(s), b, r, ov \/ (\E k \in 9..16 : m[k] # 0) \/ WULt(r, lo))
(* the suffix starts at the first character that is no digit of the base *)
DigitOk(b, d) ==
  IF b = 16 THEN d \in Digits \cup 97..102 \cup 65..70 ELSE d \in 48..(47 + b)
RECURSIVE Span(_, _)
Span(b, s) == IF s = <<>> \/ ~DigitOk(b, Head(s)) THEN 0 ELSE 1 + Span(b, Tail(s))
Sub(s, a) == SubSeq(s, a, Len(s))
Suffix(s) ==
  LET U == {117, 85} IN
  CASE s = <<>> -> "" [] Len(s) = 1 /\ s[1] \in U -> "u" [] s \in {<<108>>, <<76>>} -> "l" [] s \in {<<108,108>>, <<76,76>>} -> "ll"
    [] Len(s) = 2 /\ ((s[1] \in U /\ s[2] \in {108, 76}) \/ (s[2] \in U /\ s[1] \in {108, 76})) -> "ul"
    [] Len(s) = 3 /\ ((s[1] \in U /\ Sub(s, 2) \in {<<108,108>>, <<76,76>>}) \/ (s[3] \in U /\ SubSeq(s, 1, 2) \in {<<108,108>>, <<76,76>>})) -> "ull"
    [] OTHER -> "bad"
Candidates(dec, sf) ==
  CASE sf = ""    -> IF dec THEN <<"int", "long", "llong">> ELSE <<"int", "uint", "long", "ulong", "llong", "ullong">>
    [] sf = "u"   -> <<"uint", "ulong", "ullong">>
    [] sf = "l"   -> IF dec THEN <<"long", "llong">> ELSE <<"long", "ulong", "llong", "ullong">>
    [] sf = "ul"  -> <<"ulong", "ullong">>
    [] sf = "ll"  -> IF dec THEN <<"llong">> ELSE <<"llong", "ullong">>
    [] sf = "ull" -> <<"ullong">>
    [] OTHER      -> <<>>
RECURSIVE FirstFit(_, _)
FirstFit(v, cs) == IF cs = <<>> THEN "none" ELSE IF ~WULt(TMax(Head(cs)), v) THEN Head(cs) ELSE FirstFit(v, Tail(cs))
IntMeaning(s) ==
  LET b  == IF Len(s) > 1 /\ s[1] = 48 /\ s[2] \in {120, 88} THEN 16 ELSE IF Len(s) > 1 /\ s[1] = 48 /\ s[2] \in {98, 66} THEN 2 ELSE IF s[1] = 48 THEN 8 ELSE 10
      ds == IF b \in {16, 2} THEN Sub(s, 3) ELSE s
      n  == Span(b, ds)
      nv == Number(SubSeq(ds, 1, n), b, W0, FALSE)
      sf == Suffix(Sub(ds, n + 1))
      t  == FirstFit(nv[2], Candidates(b = 10, sf))
  IN IF n = 0 \/ sf = "bad" \/ nv[1] \/ t = "none" THEN [m |-> "none"] ELSE [m |-> "int", v |-> nv[2], t |-> t]

(* characters of a literal between its quotes: a sequence of code units, raw *)
(* escape values being at most a word *)
Simple == [x \in {110, 116, 98, 114, 118, 102, 97, 92, 39, 63, 34} |->
  CASE x = 110 -> 10 [] x = 116 -> 9 [] x = 98 -> 8 [] x = 114 -> 13 [] x = 118 -> 11 [] x = 102 -> 12 [] x = 97 -> 7 [] OTHER -> x]
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Units(_)
Units(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # BSl THEN <<FromInt(s[1])>> \o Units(Tail(s))
  ELSE IF s[2] = 120 THEN LET n == Span(16, Sub(s, 3)) IN <<Number(SubSeq(s, 3, n + 2), 16, W0, FALSE)[2]>> \o Units(Sub(s, n + 3))
  ELSE IF s[2] \in 48..55 THEN LET n == Min(3, Span(8, Sub(s, 2))) IN <<Number(SubSeq(s, 2, n + 1), 8, W0, FALSE)[2]>> \o Units(Sub(s, n + 2))
  ELSE <<FromInt(Simple[s[2]])>> \o Units(Sub(s, 3))
IsWide(s) == s[1] = UcL
Body(s) == SubSeq(s, IF IsWide(s) THEN 3 ELSE 2, Len(s) - 1)
Fits(u, wide) == \A k \in 1..Len(u) : \A b \in (IF wide THEN 5 ELSE 2)..8 : u[k][b] = 0
Bytes(u, wide) == [k \in 1..Len(u) |-> SubSeq(u[k], 1, IF wide THEN 4 ELSE 1)]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
ChrMeaning(s) ==
  LET u == Units(Body(s))  w == IsWide(s) IN
  IF Len(u) # 1 \/ ~Fits(u, w) THEN [m |-> "none"]
  ELSE [m |-> "int", t |-> "int", v |-> IF w THEN SExt(u[1], 4) ELSE SExt(u[1], 1)]
(* adjacent string literals, wide if any is *)
StrMeaning(ts) ==
  LET w == \E k \in 1..Len(ts) : IsWide(Text(ts[k]))
      u == Flat([k \in 1..Len(ts) |-> Units(Body(Text(ts[k])))])
      ok == \A k \in 1..Len(ts) : Fits(Units(Body(Text(ts[k]))), IsWide(Text(ts[k])))
  IN IF ~ok \/ ~Fits(u, w) THEN [m |-> "none"] ELSE [m |-> "str", wide |-> w, n |-> Len(u) + 1, bytes |-> Flat(Bytes(u, w)) \o (IF w THEN <<0,0,0,0>> ELSE <<0>>)]
RECURSIVE Meanings(_)
Meanings(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE CASE Head(ts).k = "num" -> <<IntMeaning(Text(Head(ts)))>> \o Meanings(Tail(ts))
         [] Head(ts).k = "chr" -> <<ChrMeaning(Text(Head(ts)))>> \o Meanings(Tail(ts))
         [] Head(ts).k = "str" ->
              LET n == IF \A k \in 1..Len(ts) : ts[k].k = "str" THEN Len(ts) ELSE (CHOOSE k \in 1..Len(ts) : ts[k].k # "str" /\ \A q \in 1..(k - 1) : ts[q].k = "str") - 1
              IN <<StrMeaning(SubSeq(ts, 1, n))>> \o Meanings(Sub(ts, n + 1))
         [] OTHER -> Meanings(Tail(ts))
Done == /\ AtEnd /\ mode' = "done" /\ UNCHANGED <<i, p, st, toks>>
        /\ PrintT("@@" \o ToJson(<<i, [toks |-> [k \in 1..Len(toks) |-> <<toks[k].k, toks[k].a, toks[k].b>>],
                                       means |-> IF Cases[i].mean THEN Meanings(toks) ELSE <<>>]>>))
Next == (~AtEnd /\ Lexing) \/ Done
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------------- *)
TypeOK == p \in 1..(N + 2) /\ mode \in {"start", "line", "block", "id", "num", "punct", "str", "chr", "bad", "done"}
(* tokens are in order, and nothing but white space and comments is between   *)
Ordered == \A a \in 1..Len(toks) : toks[a].a <= toks[a].b /\ (a > 1 => toks[a - 1].b < toks[a].a)
(* longest match: no token could have been one character longer *)
Maximal == \A a \in 1..Len(toks) :
  LET t == toks[a]  n == At(t.b + 1) IN
  CASE t.k = "id" -> n \notin IdChar
    [] t.k = "num" -> n \notin IdChar /\ n # Dot
    [] t.k = "punct" -> Append(Text(t), n) \notin Puncts
    [] OTHER -> TRUE
Known == \A a \in 1..Len(toks) : toks[a].k = "punct" => Text(toks[a]) \in Puncts
(* the machine never stops half way *)
NotStuck == mode \in {"done", "bad"} \/ ENABLED Next
=============================================================================
