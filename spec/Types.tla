-------------------------------- MODULE Types --------------------------------
(* The type C gives an expression, and the constraints on it.  The machine     *)
(* builds an expression's type bottom-up, node by node, on a stack; a verdict  *)
(* is "ok", "diag" (a diagnostic is required), "error" (it has no meaning) or  *)
(* "any" (an extension, which is not judged).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, pc, stk, fin
vars == <<c, pc, stk, fin>>
K == Cases[c]

(* ---- types: [k, q] and n (name) for "i"nteger, "f"loating, "e"num, "r"ecord; t, l for "a"rray; t for "p"ointer; t, a, va for "fn"; "v"oid ---- *)
I(n) == [k |-> "i", q |-> "", n |-> n]
TInt == I("int")
Void == [k |-> "v", q |-> ""]
P(t) == [k |-> "p", q |-> "", t |-> t]
QU(a, b) == IF a = b \/ b = "" THEN a ELSE IF a = "" THEN b ELSE "cv"
Sub(a, b) == a = "" \/ a = b \/ b = "cv"          \* qualifiers a are among b
RECURSIVE AddQ(_, _)
AddQ(t, q) == IF t.k = "a" THEN [t EXCEPT !.t = AddQ(@, q)] ELSE IF t.k = "fn" THEN t ELSE [t EXCEPT !.q = QU(@, q)]
RECURSIVE Quals(_)
Quals(t) == IF t.k = "a" THEN Quals(t.t) ELSE t.q
RECURSIVE Strip(_)
Strip(t) == IF t.k = "a" THEN [t EXCEPT !.t = Strip(@)] ELSE [t EXCEPT !.q = ""]
Decay(t) == CASE t.k = "a" -> P(t.t) [] t.k = "fn" -> P(t) [] OTHER -> [t EXCEPT !.q = ""]
IsInt(t) == t.k \in {"i", "e"}
Arith(t) == t.k \in {"i", "e", "f"}
Scalar(t) == Arith(t) \/ t.k = "p"
Rank(n) == CASE n = "_Bool" -> 0 [] n \in {"char", "signed char", "unsigned char"} -> 1 [] n \in {"short", "unsigned short"} -> 2 [] n \in {"int", "unsigned"} -> 3 [] n \in {"long", "unsigned long"} -> 4 [] OTHER -> 5
Unsigned == {"unsigned", "unsigned long", "unsigned long long"}
ToUns(n) == CASE n = "int" -> "unsigned" [] n = "long" -> "unsigned long" [] n = "long long" -> "unsigned long long" [] OTHER -> n
(* an enumeration is compatible with int or unsigned: which is not judged *)
Promote(x) == IF x.t.k = "e" THEN [k |-> "e", q |-> "", n |-> x.t.n]
              ELSE IF x.t.k = "f" THEN Strip(x.t)
              ELSE IF x.bf # 0 THEN (IF x.bf < 32 \/ x.t.n = "int" THEN TInt ELSE Strip(x.t))
              ELSE IF Rank(x.t.n) < 3 THEN TInt ELSE Strip(x.t)
Usual(a, b) ==   \* of promoted types
  IF a.k = "f" \/ b.k = "f" THEN (IF (a.k = "f" /\ a.n = "double") \/ (b.k = "f" /\ b.n = "double") THEN [k |-> "f", q |-> "", n |-> "double"] ELSE [k |-> "f", q |-> "", n |-> "float"])
  ELSE IF a.k = "e" /\ b.k = "e" THEN a
  ELSE IF a.k = "e" THEN (IF b.n = "int" THEN a ELSE b)
  ELSE IF b.k = "e" THEN (IF a.n = "int" THEN b ELSE a)
  ELSE IF a.n = b.n THEN a
  ELSE LET ua == a.n \in Unsigned ub == b.n \in Unsigned IN
       IF ua = ub THEN (IF Rank(a.n) >= Rank(b.n) THEN a ELSE b)
       ELSE LET u == IF ua THEN a ELSE b s == IF ua THEN b ELSE a IN
            IF Rank(u.n) >= Rank(s.n) THEN u ELSE IF Rank(s.n) > 3 /\ Rank(u.n) = 3 THEN s ELSE I(ToUns(s.n))

(* compatible, apart from the outermost qualifiers; and the composite type *)
RECURSIVE Compat(_, _), CompatX(_, _), Composite(_, _)
CompatX(a, b) == Quals(a) = Quals(b) /\ Compat(a, b)
Compat(a, b) ==
  CASE a.k = "i" /\ b.k = "e" -> a.n \in {"int", "unsigned"} [] a.k = "e" /\ b.k = "i" -> b.n \in {"int", "unsigned"}
    [] a.k # b.k -> FALSE
    [] a.k \in {"i", "f", "e", "r"} -> a.n = b.n
    [] a.k = "v" -> TRUE
    [] a.k = "p" -> CompatX(a.t, b.t)
    [] a.k = "a" -> (a.l = b.l \/ a.l = 0 \/ b.l = 0) /\ Compat(a.t, b.t)
    [] a.k = "fn" -> CompatX(a.t, b.t) /\ Len(a.a) = Len(b.a) /\ a.va = b.va /\ \A j \in 1..Len(a.a) : Compat(a.a[j], b.a[j])
RECURSIVE HasEnum(_)
HasEnum(t) == t.k = "e" \/ (t.k \in {"p", "a", "fn"} /\ HasEnum(t.t))
Composite(a, b) == IF a.k = "a" THEN [a EXCEPT !.l = IF a.l = 0 THEN b.l ELSE a.l, !.t = Composite(a.t, b.t)] ELSE IF a.k = "p" THEN [a EXCEPT !.t = Composite(a.t, b.t)] ELSE a
Incomplete(t) == t.k = "v" \/ (t.k = "r" /\ t.n = "struct I") \/ (t.k = "a" /\ t.l = 0)
ConstMember == {"struct C", "union U", "struct D", "struct K", "struct N", "struct M"}

(* ---- an operand: type, lvalue?, bit-field width, null pointer constant?, verdict so far ---- *)
V(t, z) == [t |-> t, lv |-> FALSE, bf |-> 0, z |-> z, st |-> "ok"]
L(t) == [t |-> t, lv |-> TRUE, bf |-> 0, z |-> "no", st |-> "ok"]
Bad(s) == [t |-> TInt, lv |-> FALSE, bf |-> 0, z |-> "no", st |-> s]
Err == Bad("error")
Rv(x) == Decay(x.t)
Qrec(x) == x.t.k = "r" /\ x.t.q # ""   \* whether its value keeps the qualifiers is only visible to typeof, and not judged
Zc(xs) == IF \A j \in 1..Len(xs) : xs[j].z # "no" THEN "maybe" ELSE "no"
Worst(a, b) == IF "error" \in {a, b} THEN "error" ELSE IF "any" \in {a, b} THEN "any" ELSE IF "diag" \in {a, b} THEN "diag" ELSE "ok"
With(x, s) == [x EXCEPT !.st = Worst(@, s)]
Modifiable(x) == x.lv /\ x.t.k \notin {"a", "fn", "v"} /\ ~Incomplete(x.t) /\ x.t.q \notin {"c", "cv"} /\ ~(x.t.k = "r" /\ x.t.n \in ConstMember)

(* what assigning, passing, returning or initialising with x to type t is *)
Assign(t, x) ==
  LET r == Rv(x) IN
  CASE r.k = "v" -> "error"
    [] Arith(t) /\ Arith(r) -> "ok"
    [] t.k = "i" /\ t.n = "_Bool" /\ r.k = "p" -> "ok"
    [] t.k = "p" /\ r.k = "p" ->
         (IF x.z = "yes" THEN "ok"
          ELSE IF Compat(t.t, r.t) \/ (t.t.k = "v" /\ r.t.k # "fn") \/ (r.t.k = "v" /\ t.t.k # "fn") THEN
               (IF x.z = "maybe" THEN "any"
                ELSE IF Sub(Quals(r.t), Quals(t.t)) THEN (IF HasEnum(t) # HasEnum(r) /\ t.t.k # "v" /\ r.t.k # "v" THEN "any" ELSE "ok") ELSE "diag")
          ELSE IF t.t.k = "v" \/ r.t.k = "v" THEN "any" ELSE "diag")
    [] t.k = "p" /\ IsInt(r) -> (CASE x.z = "yes" -> "ok" [] x.z = "maybe" -> "any" [] OTHER -> "diag")
    [] IsInt(t) /\ r.k = "p" -> "diag"
    [] t.k = "r" /\ r.k = "r" -> IF t.n = r.n THEN "ok" ELSE "error"
    [] OTHER -> "error"

Pointee(t) == IF Incomplete(t) /\ t.k # "v" THEN "error" ELSE IF t.k \in {"v", "fn"} THEN "any" ELSE "ok"
Additive(op, x, y) ==
  LET a == Rv(x) b == Rv(y) z == Zc(<<x, y>>) IN
  CASE Arith(a) /\ Arith(b) -> V(Usual(Promote(x), Promote(y)), z)
    [] a.k = "p" /\ IsInt(b) -> With(V(a, "no"), Pointee(a.t))
    [] op = "+" /\ IsInt(a) /\ b.k = "p" -> With(V(b, "no"), Pointee(b.t))
    [] op = "-" /\ a.k = "p" /\ b.k = "p" -> IF Compat(a.t, b.t) THEN (IF HasEnum(a) # HasEnum(b) THEN Bad("any") ELSE With(With(V(I("long"), "no"), Pointee(a.t)), IF Pointee(b.t) = "ok" THEN "ok" ELSE "any")) ELSE IF a.t.k = "v" \/ b.t.k = "v" THEN Bad("any") ELSE Bad("diag")
    [] OTHER -> Err
Equality(op, x, y) ==
  LET a == Rv(x) b == Rv(y) ok == V(TInt, Zc(<<x, y>>)) IN
  CASE Arith(a) /\ Arith(b) -> ok
    [] a.k = "p" /\ b.k = "p" ->
         IF "yes" \in {x.z, y.z} \/ Compat(a.t, b.t) THEN (IF HasEnum(a) # HasEnum(b) THEN Bad("any") ELSE ok)
         ELSE IF "maybe" \in {x.z, y.z} THEN Bad("any")
         ELSE IF a.t.k = "v" \/ b.t.k = "v" THEN (IF "fn" \in {a.t.k, b.t.k} \/ op \notin {"==", "!="} THEN Bad("any") ELSE ok) ELSE Bad("diag")
    [] a.k = "p" /\ IsInt(b) -> IF op \in {"==", "!="} /\ y.z = "yes" THEN ok ELSE IF y.z \in {"yes", "maybe"} THEN Bad("any") ELSE Bad("diag")
    [] b.k = "p" /\ IsInt(a) -> IF op \in {"==", "!="} /\ x.z = "yes" THEN ok ELSE IF x.z \in {"yes", "maybe"} THEN Bad("any") ELSE Bad("diag")
    [] OTHER -> Err
Binary(op, x, y) ==
  LET a == Rv(x) b == Rv(y) z == Zc(<<x, y>>) IN
  CASE op \in {"+", "-"} -> Additive(op, x, y)
    [] op \in {"*", "/"} -> IF Arith(a) /\ Arith(b) THEN V(Usual(Promote(x), Promote(y)), z) ELSE Err
    [] op \in {"%", "&", "|", "^"} -> IF IsInt(a) /\ IsInt(b) THEN V(Usual(Promote(x), Promote(y)), z) ELSE Err
    [] op \in {"<<", ">>"} -> IF IsInt(a) /\ IsInt(b) THEN V(Promote(x), z) ELSE Err
    [] op \in {"<", "<=", ">", ">=", "==", "!="} -> Equality(op, x, y)
    [] op \in {"&&", "||"} -> IF Scalar(a) /\ Scalar(b) THEN V(TInt, z) ELSE Err
    [] op = "," -> IF Qrec(y) THEN Bad("any") ELSE [V(b, IF y.z = "no" THEN "no" ELSE "maybe") EXCEPT !.bf = y.bf] \* whether a bit-field is promoted by this isn't clear
CondPtr(a, b) == P(AddQ(IF a.t.k = "v" THEN Strip(a.t) ELSE IF b.t.k = "v" THEN Strip(b.t) ELSE Composite(Strip(a.t), Strip(b.t)), QU(Quals(a.t), Quals(b.t))))
Cond(x, y, w) ==
  LET s == Rv(x) a == Rv(y) b == Rv(w) z == Zc(<<x, y, w>>) IN
  IF ~Scalar(s) THEN Err ELSE
  CASE Arith(a) /\ Arith(b) -> V(Usual(Promote(y), Promote(w)), z)
    [] a.k = "r" /\ b.k = "r" -> IF Qrec(y) \/ Qrec(w) THEN Bad(IF a.n = b.n THEN "any" ELSE "error") ELSE IF a.n = b.n THEN V(a, "no") ELSE Err
    [] a.k = "v" /\ b.k = "v" -> V(Void, "no")
    [] a.k = "v" \/ b.k = "v" -> Bad("any")
    [] a.k = "p" /\ b.k = "p" ->
         IF "maybe" \in {y.z, w.z} THEN Bad("any")
         ELSE IF y.z = "yes" /\ w.z = "yes" THEN Bad("any")
         ELSE IF y.z = "yes" THEN V(b, "no") ELSE IF w.z = "yes" THEN V(a, "no")
         ELSE IF Compat(a.t, b.t) THEN (IF HasEnum(a) # HasEnum(b) \/ (a.t.k = "a" /\ Quals(a.t) # Quals(b.t)) THEN Bad("any") ELSE V(CondPtr(a, b), "no"))
         ELSE IF a.t.k = "v" \/ b.t.k = "v" THEN (IF "fn" \in {a.t.k, b.t.k} \/ ("a" \in {a.t.k, b.t.k} /\ Quals(a.t) # Quals(b.t)) THEN Bad("any") ELSE V(CondPtr(a, b), "no")) ELSE Bad("diag")
    [] a.k = "p" /\ IsInt(b) -> CASE w.z = "yes" -> V(a, "no") [] w.z = "maybe" -> Bad("any") [] OTHER -> Bad("diag")
    [] b.k = "p" /\ IsInt(a) -> CASE y.z = "yes" -> V(b, "no") [] y.z = "maybe" -> Bad("any") [] OTHER -> Bad("diag")
    [] OTHER -> Err
Unary(op, x) ==
  LET a == Rv(x) IN
  CASE op \in {"-", "+"} -> IF Arith(a) THEN V(Promote(x), IF x.z = "no" THEN "no" ELSE "maybe") ELSE Err
    [] op = "~" -> IF IsInt(a) THEN V(Promote(x), IF x.z = "no" THEN "no" ELSE "maybe") ELSE Err
    [] op = "!" -> IF Scalar(a) THEN V(TInt, IF x.z = "no" THEN "no" ELSE "maybe") ELSE Err
    [] op = "*" -> IF a.k # "p" THEN Err ELSE IF a.t.k = "v" THEN Bad("any") ELSE IF a.t.k = "fn" THEN V(a.t, "no") ELSE L(a.t)
    [] op = "&" -> IF x.t.k = "fn" THEN V(P(x.t), "no") ELSE IF x.lv /\ x.bf = 0 THEN V(P(x.t), "no") ELSE Err
    [] op \in {"++", "--", "p++", "p--"} ->
         IF ~Modifiable(x) THEN Err ELSE IF Arith(x.t) THEN V(Strip(x.t), "no") ELSE IF x.t.k = "p" THEN With(V(Strip(x.t), "no"), Pointee(x.t.t)) ELSE Err
    [] op = "sizeof" -> IF x.bf # 0 /\ ~x.lv THEN Bad("any") ELSE IF x.bf # 0 \/ (Incomplete(x.t) /\ x.t.k # "v") THEN Err ELSE IF x.t.k \in {"fn", "v"} THEN Bad("any") ELSE V(I("unsigned long"), "maybe")
    [] op = "({" -> IF Qrec(x) THEN Bad("any") ELSE [V(a, "no") EXCEPT !.bf = x.bf]
    [] op = "(" -> x
BaseOp(op) == CASE op = "+=" -> "+" [] op = "-=" -> "-" [] op = "*=" -> "*" [] op = "/=" -> "/" [] op = "%=" -> "%" [] op = "&=" -> "&" [] op = "|=" -> "|" [] op = "^=" -> "^" [] op = "<<=" -> "<<" [] op = ">>=" -> ">>"
AssignOp(op, x, y) ==
  IF ~Modifiable(x) THEN Err
  ELSE IF op = "=" THEN With(V(Strip(x.t), "no"), Assign(x.t, y))
  ELSE LET r == Binary(BaseOp(op), x, y) IN
       IF r.st = "error" THEN Err
       ELSE IF Rv(y).k = "p" /\ ~(op = "-=" /\ Rv(x).k = "p" /\ FALSE) THEN Bad("diag")
       ELSE [V(Strip(x.t), "no") EXCEPT !.st = r.st]
Cast(t, x) ==
  LET r == Rv(x) IN
  IF t.k = "v" THEN V(Void, "no")
  ELSE IF t.k \in {"a", "fn"} THEN Err
  ELSE IF t.k = "r" THEN (IF r.k = "r" /\ r.n = t.n THEN Bad("any") ELSE Err)
  ELSE IF ~Scalar(r) THEN Err
  ELSE IF (t.k = "f" /\ r.k = "p") \/ (t.k = "p" /\ r.k = "f") THEN Err
  ELSE V(Strip(t), IF x.z = "yes" /\ (IsInt(t) \/ (t.k = "p" /\ t.t.k = "v" /\ t.t.q = "")) /\ r.k # "p" THEN "yes" ELSE IF x.z = "no" THEN "no" ELSE "maybe")
Member(x, m, ms) ==   \* ms: the members of the record's type: name, type, width
  IF x.t.k # "r" \/ x.t.n \notin DOMAIN ms \/ ~(\E j \in 1..Len(ms[x.t.n]) : ms[x.t.n][j].n = m) THEN Err
  ELSE LET f == ms[x.t.n][CHOOSE j \in 1..Len(ms[x.t.n]) : ms[x.t.n][j].n = m]
       IN [t |-> AddQ(f.t, x.t.q), lv |-> x.lv, bf |-> f.bf, z |-> "no", st |-> IF ~x.lv /\ (f.t.k = "a" \/ f.t.q # "") THEN "any" ELSE "ok"]
RECURSIVE Args(_, _, _)
Args(ps, xs, j) == IF j > Len(ps) THEN "ok" ELSE Worst(Assign(ps[j], xs[j]), Args(ps, xs, j + 1))
Call(xs) ==
  LET f == Rv(xs[1]) as == SubSeq(xs, 2, Len(xs)) IN
  IF ~(f.k = "p" /\ f.t.k = "fn") THEN Err
  ELSE IF Len(as) < Len(f.t.a) \/ (Len(as) > Len(f.t.a) /\ ~f.t.va) THEN Bad("diag")
  ELSE IF \E j \in 1..Len(as) : Rv(as[j]).k = "v" THEN Err
  ELSE IF \E j \in 1..Len(as) : Rv(as[j]).k = "r" THEN Bad("any")
  ELSE With(V(Strip(f.t.t), "no"), Args(f.t.a, as, 1))

Records == IOEnv.RECORDS
Ms == JsonDeserialize(IOEnv.RECORDS)

(* one node, whose operands are the last of the stack *)
Node(n, xs) ==
  CASE n.k = "leaf" -> [t |-> n.t, lv |-> n.lv, bf |-> n.bf, z |-> n.z, st |-> "ok"]
    [] n.k = "bin" -> Binary(n.op, xs[1], xs[2])
    [] n.k = "un" -> Unary(n.op, xs[1])
    [] n.k = "as" -> AssignOp(n.op, xs[1], xs[2])
    [] n.k = "cond" -> IF Len(xs) = 2 THEN Cond(xs[1], xs[1], xs[2]) ELSE Cond(xs[1], xs[2], xs[3])
    [] n.k = "cast" -> Cast(n.t, xs[1])
    [] n.k = "idx" -> LET p == Additive("+", xs[1], xs[2]) IN IF p.st # "ok" THEN p ELSE IF p.t.k # "p" THEN Err ELSE L(p.t.t)
    [] n.k = "mem" -> Member(xs[1], n.m, Ms)
    [] n.k = "arrow" -> LET a == Rv(xs[1]) IN IF a.k # "p" \/ a.t.k # "r" THEN Err ELSE Member(L(a.t), n.m, Ms)
    [] n.k = "call" -> Call(xs)
    [] n.k = "choose" -> xs[n.i]
    [] n.k = "init" -> With(V(Void, "no"), Assign(n.t, xs[1]))        \* T x = e; return e; of T
    [] n.k = "test" -> IF Scalar(Rv(xs[1])) THEN V(Void, "no") ELSE Err   \* if, while, for
    [] n.k = "switch" -> IF IsInt(Rv(xs[1])) THEN V(Void, "no") ELSE Err
Apply(n, xs) ==
  LET s == IF \E j \in 1..Len(xs) : xs[j].st = "error" THEN "error" ELSE IF \E j \in 1..Len(xs) : xs[j].st # "ok" THEN "any" ELSE "ok"
      inc == \E j \in 1..Len(xs) : xs[j].t.k = "r" /\ Incomplete(xs[j].t) /\ ~(n.k = "un" /\ n.op \in {"&", "("}) \* the value of an incomplete object
  IN IF s # "ok" THEN Bad(s) ELSE LET r == Node(n, xs) IN IF inc /\ r.st # "error" THEN Bad("any") ELSE r

Init == c \in 1..Len(Cases) /\ pc = 1 /\ stk = <<>> /\ fin = FALSE
Step == /\ pc <= Len(K.e) /\ UNCHANGED <<c, fin>>
        /\ LET n == K.e[pc] b == Len(stk) - n.n IN stk' = Append(SubSeq(stk, 1, b), Apply(n, SubSeq(stk, b + 1, Len(stk))))
        /\ pc' = pc + 1
Done == /\ pc > Len(K.e) /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<c, pc, stk>>
        /\ PrintT("@@" \o ToJson(<<c, stk[1]>>))
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

OneResult == fin => Len(stk) = 1
(* a value is unqualified, and neither an array nor a function unless it designates one *)
Values == \A j \in 1..Len(stk) : (stk[j].st = "ok" /\ ~stk[j].lv /\ stk[j].t.k # "fn") => stk[j].t.k # "a" /\ stk[j].t.q = ""
(* the arithmetic conversions are symmetric, and their result is never narrower than int *)
ITs == {I(n) : n \in {"int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"}}
Symmetric == pc = 1 /\ c = 1 => \A a \in ITs, b \in ITs : Usual(a, b) = Usual(b, a) /\ Rank(Usual(a, b).n) >= 3
Error == \A j \in 1..Len(stk) : stk[j].st \in {"ok", "diag", "error", "any"}
=============================================================================
