--------------------------------- MODULE Scope ---------------------------------
(* Scopes and name spaces (6.2.1, 6.2.3): a machine reads the declarations and *)
(* uses of a program in order. Its state is a stack of scopes, each with its   *)
(* ordinary identifiers and its tags, and the labels of the current function.  *)
(* For every use it decides which declaration is denoted: every declaration    *)
(* has a size and a value of its own. A step that uses a name that isn't in    *)
(* scope or that declares it twice is bad and has no effect.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, sc, labels, outs, res, fdepth
vars == <<c, pc, sc, labels, outs, res, fdepth>>
K == Cases[c]

(* ---- the stack of scopes: functions of the names declared in each *)
Empty == [ord |-> <<>>, tag |-> <<>>, kind |-> "block"]
None == [k |-> "none", n |-> 0, v |-> 0]
Put(f, x, e) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN e ELSE f[y]]
RECURSIVE FindOrd(_, _, _)
FindOrd(s, i, x) == IF i = 0 THEN None ELSE IF x \in DOMAIN s[i].ord THEN s[i].ord[x] ELSE FindOrd(s, i - 1, x)
Ord(s, x) == FindOrd(s, Len(s), x)
RECURSIVE FindTag(_, _, _)
FindTag(s, i, x) == IF i = 0 THEN [k |-> "none", n |-> 0, at |-> 0] ELSE IF x \in DOMAIN s[i].tag THEN [k |-> s[i].tag[x].k, n |-> s[i].tag[x].n, at |-> i] ELSE FindTag(s, i - 1, x)
Tag(s, x) == FindTag(s, Len(s), x)
HereOrd(s, x) == x \in DOMAIN s[Len(s)].ord
HereTag(s, x) == x \in DOMAIN s[Len(s)].tag
DefOrd(s, x, e) == [s EXCEPT ![Len(s)].ord = Put(@, x, e)]
DefTag(s, x, k, n) == [s EXCEPT ![Len(s)].tag = Put(@, x, [k |-> k, n |-> n])]
Push(s) == Append(s, Empty)
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Worst(a, b) == IF "imp" \in {a, b} THEN "imp" ELSE IF "bad" \in {a, b} THEN "bad" ELSE IF "any" \in {a, b} THEN "any" ELSE "ok"

(* kinds of ordinary identifiers: arr (char [n], the first element is v), sc (scalar of size n and value v),
   ptr (to something of size n), parr (char *, pointing to v), td (char [n]), tdi (unsigned integer of size n),
   ec (enumerator of value v), fn (function that returns v); v = 0: unknown *)
Ent(k, n, v) == [k |-> k, n |-> n, v |-> v]
Size(e) == CASE e.k \in {"arr", "sc", "td", "tdi"} -> e.n [] e.k \in {"ptr", "parr"} -> 8 [] e.k = "ec" -> 4 [] OTHER -> 1
Pointee(e) == IF e.k \in {"arr", "parr"} THEN 1 ELSE e.n
(* the verdict of declaring x in the innermost scope *)
Redecl(s, x, e) == IF ~HereOrd(s, x) THEN "ok"
                   ELSE LET o == Ord(s, x) IN
                        IF o.k \in {"td", "tdi"} /\ e.k = o.k /\ e.n = o.n THEN "any"
                        ELSE IF Len(s) = 1 /\ o.k # "ec" /\ e.k # "ec" /\ (o.k \in {"td", "tdi"}) = (e.k \in {"td", "tdi"}) THEN "any"
                        ELSE IF o.k = "fn" /\ e.k = "fn" THEN "any" ELSE "bad"

R(v, st, s, aux) == [v |-> v, st |-> st, sc |-> s, aux |-> aux]
B(v) == 1 + (v % 509)
V(v) == 1 + (v % 100)
(* declaring a tag by struct t { char c[n]; }: the tag is in scope, incomplete, from the brace on *)
BeginTag(s, k, t) == IF ~HereTag(s, t) THEN [st |-> "ok", sc |-> DefTag(s, t, k, 0)]
                     ELSE LET o == Tag(s, t) IN [st |-> IF o.k # k \/ o.n # 0 THEN "bad" ELSE "ok", sc |-> s]

Twice(s, t) == IF Tag(s, t).n # 0 THEN "bad" ELSE "ok"   (* it was also defined within its own definition *)

RECURSIVE Sum(_, _, _), Term(_, _, _), Params(_, _, _), Enums(_, _)
(* const: in a constant expression *)
Sum(ts, s, const) ==
  IF ts = <<>> THEN R(0, "ok", s, <<>>)
  ELSE LET a == Term(Head(ts), s, const) b == Sum(Tail(ts), a.sc, const) IN R(a.v + b.v, Worst(a.st, b.st), b.sc, a.aux \o b.aux)
Term(t, s, const) ==
  CASE t[1] = "num" -> R(t[2], "ok", s, <<>>)
    [] t[1] = "sz" -> LET e == Ord(s, t[2]) IN R(Size(e), IF e.k = "none" THEN "bad" ELSE IF e.k = "fn" THEN "any" ELSE "ok", s, <<>>)
    [] t[1] = "szd" -> LET e == Ord(s, t[2]) IN R(Pointee(e), IF e.k \in {"arr", "parr", "ptr"} THEN "ok" ELSE IF e.k = "fn" THEN "any" ELSE "bad", s, <<>>)
    [] t[1] = "elem" -> LET e == Ord(s, t[2]) IN R(e.v, IF e.k \in {"arr", "parr"} THEN (IF const \/ e.v = 0 THEN "any" ELSE "ok") ELSE IF e.k = "fn" THEN "any" ELSE "bad", s, <<>>)
    [] t[1] = "ec" -> LET e == Ord(s, t[2]) IN R(e.v, IF e.k = "ec" THEN "ok" ELSE IF e.k = "sc" THEN (IF const \/ e.v = 0 THEN "any" ELSE "ok") ELSE "bad", s, <<>>)
    [] t[1] = "neg" -> LET e == Ord(s, t[2]) IN CASE e.k = "tdi" -> R(IF e.n = 1 THEN 255 ELSE 65535, "ok", s, <<>>)
                                                 [] e.k = "ec" -> R(e.v - 1, "ok", s, <<>>)
                                                 [] e.k = "sc" -> R(e.v - 1, IF const \/ e.v = 0 THEN "any" ELSE "ok", s, <<>>)
                                                 [] e.k \in {"td", "none"} -> R(0, "bad", s, <<>>)
                                                 [] OTHER -> R(0, "any", s, <<>>)
    [] t[1] = "szt" -> LET g == Tag(s, t[3]) IN R(g.n, IF g.at = 0 /\ t[2] = "enum" THEN "any" ELSE IF g.at = 0 \/ g.k # t[2] \/ g.n = 0 THEN "bad" ELSE "ok", s, <<>>)
    [] t[1] = "szdef" -> LET b == BeginTag(s, t[2], t[3]) m == Sum(t[4], b.sc, TRUE) IN R(B(m.v), Worst(b.st, Worst(m.st, Twice(m.sc, t[3]))), DefTag(m.sc, t[3], t[2], B(m.v)), m.aux)
    [] t[1] = "szen" -> LET m == Enums(<<<<t[2], t[3]>>>>, s) IN R(4, m.st, m.sc, m.aux)
    [] t[1] = "szmem" -> LET m == Sum(t[3], s, TRUE) IN R(B(m.v), m.st, m.sc, m.aux)
    [] t[1] = "call" -> LET e == Ord(s, t[2]) IN R(e.v, IF e.k = "fn" THEN (IF const THEN "any" ELSE "ok") ELSE IF e.k = "none" THEN "imp" ELSE "bad", s, <<>>)
    [] t[1] = "gen" -> LET p == Params(t[2], Push(s), TRUE) IN R(1, p.st, Pop(p.sc), p.aux)     (* a prototype's scope *)
    [] t[1] = "se" -> LET b == Sum(t[3], Push(s), TRUE)                                          (* ({ char x[b] = { i }; u; }) *)
                          d == Redecl(b.sc, t[2], Ent("arr", B(b.v), 0))
                          i == Sum(t[4], DefOrd(b.sc, t[2], Ent("arr", B(b.v), 0)), FALSE)
                          u == Sum(t[5], DefOrd(i.sc, t[2], Ent("arr", B(b.v), V(i.v))), FALSE)
                      IN R(u.v, Worst(Worst(b.st, d), Worst(Worst(i.st, u.st), IF const THEN "any" ELSE "ok")), Pop(u.sc), b.aux \o i.aux \o u.aux)
(* parameters, each <<style, name, terms>>: a parameter is in scope from the end of its declarator *)
Params(ps, s, proto) ==
  IF ps = <<>> THEN R(0, "ok", s, <<>>)
  ELSE LET p == Head(ps) m == Sum(p[3], s, TRUE)
           e == CASE p[1] = "pa" -> Ent("ptr", B(m.v), 0) [] p[1] = "parr" -> Ent("parr", 8, IF proto THEN 0 ELSE p[4]) [] OTHER -> Ent("sc", 4, IF proto THEN 0 ELSE p[4])
           d == Redecl(m.sc, p[2], e)
           z == Params(Tail(ps), DefOrd(m.sc, p[2], e), proto)
       IN R(0, Worst(m.st, Worst(IF HereOrd(m.sc, p[2]) THEN "bad" ELSE "ok", z.st)), z.sc, m.aux \o (IF p[1] = "pa" THEN <<B(m.v)>> ELSE <<0>>) \o z.aux)
(* an enumerator is in scope from the end of its own definition *)
Enums(es, s) ==
  IF es = <<>> THEN R(0, "ok", s, <<>>)
  ELSE LET e == Head(es) m == Sum(e[2], s, TRUE) d == Redecl(m.sc, e[1], Ent("ec", 4, B(m.v)))
           z == Enums(Tail(es), DefOrd(m.sc, e[1], Ent("ec", 4, B(m.v))))
       IN R(0, Worst(Worst(m.st, d), z.st), z.sc, m.aux \o z.aux)

(* ---- the steps: each gives [st, sc, out, aux]; a step that isn't ok leaves the state as it was *)
It == K[pc]
File == Len(sc) = 1
S(st, s, out, aux) == [st |-> st, sc |-> s, out |-> out, aux |-> aux]
VarStep == LET b == Sum(It.b, sc, TRUE) d == Redecl(b.sc, It.x, Ent("arr", B(b.v), 0))
               i == Sum(It.i, DefOrd(b.sc, It.x, Ent("arr", B(b.v), 0)), File)
           IN S(Worst(Worst(b.st, d), i.st), DefOrd(i.sc, It.x, Ent("arr", B(b.v), V(i.v))), <<>>, b.aux \o i.aux)
ScalStep == LET d == Redecl(sc, It.x, Ent("sc", 2, 0)) i == Sum(It.i, DefOrd(sc, It.x, Ent("sc", 2, 0)), File)
            IN S(Worst(d, i.st), DefOrd(i.sc, It.x, Ent("sc", 2, V(i.v))), <<>>, i.aux)
TdStep == LET b == Sum(It.b, sc, TRUE) d == Redecl(b.sc, It.x, Ent("td", B(b.v), 0)) IN S(Worst(b.st, d), DefOrd(b.sc, It.x, Ent("td", B(b.v), 0)), <<>>, b.aux)
TdiStep == S(Redecl(sc, It.x, Ent("tdi", It.n, 0)), DefOrd(sc, It.x, Ent("tdi", It.n, 0)), <<>>, <<>>)
EnumStep == IF It.t = "" THEN LET m == Enums(It.es, sc) IN S(m.st, m.sc, <<>>, m.aux)
            ELSE LET b == BeginTag(sc, "enum", It.t) m == Enums(It.es, b.sc) IN S(Worst(b.st, Worst(m.st, Twice(m.sc, It.t))), DefTag(m.sc, It.t, "enum", 4), <<>>, m.aux)
TagDef == LET b == BeginTag(sc, It.t, It.x) m == Sum(It.b, b.sc, TRUE)
              nest == It.nest # <<>>
              b2 == BeginTag(m.sc, It.nest[1], It.nest[2]) m2 == Sum(It.nest[3], b2.sc, TRUE)
              n1 == B(m.v) n2 == B(m2.v)
          IN IF ~nest THEN S(Worst(b.st, Worst(m.st, Twice(m.sc, It.x))), DefTag(m.sc, It.x, It.t, n1), <<>>, m.aux)
             ELSE S(Worst(Worst(b.st, m.st), Worst(b2.st, IF It.nest[2] = It.x THEN "bad" ELSE Worst(m2.st, Worst(Twice(m2.sc, It.nest[2]), Twice(m2.sc, It.x))))),
                    DefTag(DefTag(m2.sc, It.nest[2], It.nest[1], n2), It.x, It.t, IF It.t = "struct" THEN n1 + n2 ELSE IF n1 > n2 THEN n1 ELSE n2), <<>>, m.aux \o m2.aux)
TagFwd == IF HereTag(sc, It.x) THEN S(IF Tag(sc, It.x).k = It.t THEN "ok" ELSE "bad", sc, <<>>, <<>>) ELSE S("ok", DefTag(sc, It.x, It.t, 0), <<>>, <<>>)
(* struct t *p; refers to a visible tag, or declares one *)
TagRef == LET g == Tag(sc, It.x) IN IF g.at = 0 THEN S("ok", DefTag(sc, It.x, It.t, 0), <<>>, <<>>) ELSE S(IF g.k = It.t THEN "ok" ELSE "bad", sc, <<>>, <<>>)
OfType(e, v) == IF e.k = "td" THEN Ent("arr", e.n, v) ELSE Ent("sc", e.n, v)
VarTd == LET e == Ord(sc, It.y) d == Redecl(sc, It.x, OfType(e, 0)) i == Sum(It.i, DefOrd(sc, It.x, OfType(e, 0)), File)
         IN IF e.k \notin {"td", "tdi"} THEN S("bad", sc, <<>>, i.aux) ELSE S(Worst(d, i.st), DefOrd(i.sc, It.x, OfType(e, V(i.v))), <<>>, i.aux)
VarTyp == LET e == Ord(sc, It.y) n == Size(e)
              f == CASE e.k \in {"td", "arr"} -> Ent("arr", e.n, 0) [] e.k \in {"sc", "tdi"} -> Ent("sc", e.n, 0) [] e.k = "ec" -> Ent("sc", 4, 0) [] e.k = "ptr" -> Ent("ptr", e.n, 0) [] OTHER -> Ent("parr", 8, 0)
          IN S(IF e.k = "none" THEN "bad" ELSE IF e.k = "fn" THEN "any" ELSE Redecl(sc, It.x, f), DefOrd(sc, It.x, f), <<>>, <<>>)
(* x (y); declares y, if x names a type *)
Paren == LET e == Ord(sc, It.x) IN
         IF e.k \in {"td", "tdi"} THEN S(Redecl(sc, It.y, OfType(e, 0)), DefOrd(sc, It.y, OfType(e, 0)), <<>>, <<>>)
         ELSE S(IF e.k \in {"fn", "none"} THEN "any" ELSE "bad", sc, <<>>, <<>>)
(* x * y; declares y, if x names a type *)
Arith(e) == e.k \in {"ec", "sc"}
Mul == LET e == Ord(sc, It.x) f == Ord(sc, It.y) IN
       IF e.k \in {"td", "tdi"} THEN S(Redecl(sc, It.y, Ent("ptr", e.n, 0)), DefOrd(sc, It.y, Ent("ptr", e.n, 0)), <<>>, <<>>)
       ELSE S(IF ~File /\ Arith(e) /\ Arith(f) THEN "ok" ELSE "bad", sc, <<>>, <<>>)
Use == LET u == Sum(It.u, sc, FALSE) IN S(IF File THEN "any" ELSE u.st, u.sc, <<u.v>>, u.aux)
Open == S("ok", Push(sc), <<>>, <<>>)
Close == S("ok", Pop(sc), <<>>, <<>>)
(* for(char x[b] = { i }; u; ) { : the declaration is in a scope around the body's *)
For == LET s == Push(sc) b == Sum(It.b, s, TRUE) i == Sum(It.i, DefOrd(b.sc, It.x, Ent("arr", B(b.v), 0)), FALSE)
           u == Sum(It.u, DefOrd(i.sc, It.x, Ent("arr", B(b.v), V(i.v))), FALSE)
           (* the declaration part shall only declare objects (6.8.5), which isn't judged *)
           only == IF DOMAIN i.sc[Len(i.sc)].tag # {} \/ DOMAIN i.sc[Len(i.sc)].ord # {It.x} THEN "any" ELSE "ok"
       IN S(Worst(Worst(only, Worst(b.st, IF HereOrd(b.sc, It.x) THEN "bad" ELSE i.st)), u.st), Push(u.sc), <<u.v>>, b.aux \o i.aux \o u.aux)
(* if(u) {, and the like: the statement is a block of its own, and so is its body *)
Ctl == LET u == Sum(It.u, Push(sc), FALSE) IN S(u.st, Push(u.sc), <<u.v>>, u.aux)
(* if(int x = i) { *)
CtlDecl == LET s == Push(sc) i == Sum(It.i, DefOrd(s, It.x, Ent("sc", 4, 0)), FALSE)
           IN S(Worst(i.st, IF HereOrd(i.sc, It.x) /\ i.sc[Len(i.sc)].ord[It.x].k = "ec" THEN "bad" ELSE "ok"), Push(DefOrd(i.sc, It.x, Ent("sc", 4, V(i.v)))), <<>>, i.aux)
Close2 == S("ok", Pop(Pop(sc)), <<>>, <<>>)
(* if(u) rec(w); without braces *)
Bare == LET u == Sum(It.u, Push(sc), FALSE) w == Sum(It.w, Push(u.sc), FALSE) IN S(Worst(u.st, w.st), sc, <<u.v, w.v>>, u.aux \o w.aux)
Func == LET p == Params(It.p, Push(sc), FALSE) IN S(p.st, p.sc, <<>>, p.aux)
EndFunc == S("ok", <<sc[1]>>, <<>>, <<>>)
Label == S(IF It.x \in labels THEN "bad" ELSE "ok", sc, <<>>, <<>>)
(* a label is in scope throughout its function *)
FuncStart == CHOOSE j \in 1..pc : K[j].k = "func" /\ \A m \in (j + 1)..pc : K[m].k # "func"
FuncEnd == CHOOSE j \in pc..Len(K) : K[j].k = "endfunc" /\ \A m \in pc..(j - 1) : K[m].k # "endfunc"
Goto == S(IF \E j \in FuncStart..FuncEnd : K[j].k = "label" /\ K[j].x = It.x THEN "ok" ELSE "bad", sc, <<>>, <<>>)
FnDef == S(IF HereOrd(sc, It.x) THEN (IF Ord(sc, It.x).k = "fn" THEN "bad" ELSE Redecl(sc, It.x, Ent("ec", 0, 0))) ELSE "ok", DefOrd(sc, It.x, Ent("fn", 0, It.n)), <<>>, <<>>)
(* a declaration of a function in a block is of the one at file scope *)
FnDecl == LET e == IF It.x \in DOMAIN sc[1].ord THEN sc[1].ord[It.x] ELSE None IN
          S(IF HereOrd(sc, It.x) /\ Ord(sc, It.x).k # "fn" THEN "bad" ELSE IF e.k # "fn" \/ HereOrd(sc, It.x) THEN "any" ELSE "ok", DefOrd(sc, It.x, e), <<>>, <<>>)

Result == CASE It.k = "var" -> VarStep [] It.k = "scal" -> ScalStep [] It.k = "td" -> TdStep [] It.k = "tdi" -> TdiStep [] It.k = "enum" -> EnumStep
            [] It.k = "tagdef" -> TagDef [] It.k = "tagfwd" -> TagFwd [] It.k = "tagref" -> TagRef [] It.k = "vartd" -> VarTd [] It.k = "vartyp" -> VarTyp
            [] It.k = "paren" -> Paren [] It.k = "mul" -> Mul [] It.k = "use" -> Use [] It.k = "open" -> Open [] It.k = "close" -> Close
            [] It.k = "for" -> For [] It.k = "ctl" -> Ctl [] It.k = "ctldecl" -> CtlDecl [] It.k = "close2" -> Close2 [] It.k = "bare" -> Bare
            [] It.k = "func" -> Func [] It.k = "endfunc" -> EndFunc [] It.k = "label" -> Label [] It.k = "goto" -> Goto
            [] It.k = "fndef" -> FnDef [] It.k = "fndecl" -> FnDecl
(* the block a bad opening step would have opened is still there, empty of declarations *)
Opens == It.k \in {"for", "ctl", "ctldecl", "func"}
Init == c \in 1..Len(Cases) /\ pc = 1 /\ sc = <<Empty>> /\ labels = {} /\ outs = <<>> /\ res = <<>> /\ fdepth = 0
Step == /\ pc <= Len(K)
        /\ LET r == Result IN
           /\ res' = Append(res, [st |-> r.st, out |-> IF r.st = "ok" THEN r.out ELSE <<>>, aux |-> r.aux])
           /\ sc' = IF r.st = "ok" THEN r.sc ELSE IF It.k = "func" THEN Push(sc) ELSE IF Opens THEN Push(Push(sc)) ELSE sc
           /\ labels' = IF It.k \in {"func", "endfunc"} THEN {} ELSE IF It.k = "label" THEN labels \cup {It.x} ELSE labels
           /\ pc' = pc + 1 /\ UNCHANGED <<c, outs, fdepth>>
        /\ (pc = Len(K) => PrintT("@@" \o ToJson(<<c, res'>>)))
Next == Step \/ (pc > Len(K) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* ---- what the scopes keep to *)
Balanced == Len(sc) >= 1 /\ (pc > Len(K) => Len(sc) = 1)
(* leaving a block gives back exactly the enclosing scopes *)
Restores == [][Len(sc') < Len(sc) => \A i \in 1..Len(sc') : sc'[i] = sc[i]]_vars
(* a declaration changes only the innermost scope (or those it opens) *)
Innermost == [][\A i \in 1..(Len(sc) - 1) : i <= Len(sc') => sc'[i] = sc[i]]_vars
Terminates == <>(pc > Len(K))
================================================================================
