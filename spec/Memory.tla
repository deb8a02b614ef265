------------------------------- MODULE Memory --------------------------------
(* The abstract memory that loads, stores, pointer arithmetic and copies work *)
(* on: objects are sequences of bytes, every access designates some of them.  *)
(* A byte is 0..255, unspecified (-1) or the k-th byte of a pointer (>= 1000).*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, lay, pc, mem, out, st
vars == <<c, lay, pc, mem, out, st>>
K == Cases[c]

(* ---- layout of the case's types, in order of their numbers ---- *)
Up(n, a) == ((n + a - 1) \div a) * a
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Rec(_, _, _, _), LayAll(_, _)
Rec(L, ms, k, r) ==
  IF k > Len(ms) THEN [r EXCEPT !.sz = Up(Max(r.sz, 1), r.al)]
  ELSE LET m == L[ms[k]] o == Up(r.sz, m.al)
       IN Rec(L, ms, k + 1, [sz |-> o + m.sz, al |-> Max(r.al, m.al), offs |-> Append(r.offs, o), cov |-> r.cov \cup {o + x : x \in m.cov}])
Lay1(L, t) ==
  CASE t.k = "i" -> [sz |-> t.n, al |-> t.n, offs |-> <<>>, cov |-> 0..(t.n - 1)]
    [] t.k = "p" -> [sz |-> 8, al |-> 8, offs |-> <<>>, cov |-> 0..7]
    [] t.k = "a" -> LET e == L[t.t] IN [sz |-> t.n * e.sz, al |-> e.al, offs |-> <<>>, cov |-> {j * e.sz + x : j \in 0..(t.n - 1), x \in e.cov}]
    [] t.k = "r" -> Rec(L, t.ms, 1, [sz |-> 0, al |-> 1, offs |-> <<>>, cov |-> {}])
    [] t.k = "u" -> LET S == {L[t.ms[k]] : k \in 1..Len(t.ms)}
                        al == CHOOSE a \in {x.al : x \in S} : \A x \in S : x.al <= a
                        sz == CHOOSE a \in {x.sz : x \in S} : \A x \in S : x.sz <= a
                    IN [sz |-> Up(sz, al), al |-> al, offs |-> [k \in 1..Len(t.ms) |-> 0], cov |-> 0..(sz - 1)]
LayAll(L, k) == IF k > Len(K.types) THEN L ELSE LayAll(Append(L, Lay1(L, K.types[k])), k + 1)
Ty(t) == K.types[t]
Sz(t) == lay[t].sz

(* ---- bytes ---- *)
Ptr(o, off) == [k \in 1..8 |-> 1000 + (o * 4096 + off) * 8 + k - 1]
IsPtr(b) == b[1] >= 1000 /\ (b[1] - 1000) % 8 = 0 /\ \A k \in 1..8 : b[k] = b[1] + k - 1
Null == [k \in 1..8 |-> 0]
Po(b) == (b[1] - 1000) \div 32768
Poff(b) == ((b[1] - 1000) \div 8) % 4096
Plain(b) == \A k \in 1..Len(b) : b[k] \in 0..255
Ext(b, sg, n) == [k \in 1..n |-> IF k <= Len(b) THEN b[k] ELSE IF sg = 1 /\ b[Len(b)] >= 128 THEN 255 ELSE 0]
RECURSIVE AddB(_, _, _, _), NatB(_, _)
AddB(a, b, k, cy) == IF k > Len(a) THEN <<>> ELSE LET s == a[k] + b[k] + cy IN <<s % 256>> \o AddB(a, b, k + 1, s \div 256)
Add(a, b) == AddB(a, b, 1, 0)
Inv(b) == [k \in 1..Len(b) |-> 255 - b[k]]
Sub(a, b) == AddB(a, Inv(b), 1, 1)
NatB(n, k) == IF k = 0 THEN <<>> ELSE <<n % 256>> \o NatB(n \div 256, k - 1)
Bytes(n, k) == IF n >= 0 THEN NatB(n, k) ELSE Sub(NatB(0, k), NatB(-n, k))
RECURSIVE Val(_, _)
Val(b, k) == IF k = 0 THEN 0 ELSE b[k] * (CASE k = 1 -> 1 [] k = 2 -> 256 [] k = 3 -> 65536) + Val(b, k - 1)
Small(b) == (\A k \in 4..Len(b) : b[k] = 0) \/ (\A k \in 4..Len(b) : b[k] = 255)
(* the value of an index, which is small *)
Idx(b, sg) == LET x == Ext(b, sg, 8) IN IF x[8] = 255 THEN -(Val(Sub(Null, x), 3)) ELSE Val(x, 3)

(* ---- expressions: an lvalue designates (o, off); a value is bytes; w are the stores made ---- *)
Lv(o, off, t, w) == [ok |-> TRUE, lv |-> TRUE, o |-> o, off |-> off, t |-> t, b |-> <<>>, w |-> w]
Rv(b, t, w) == [ok |-> TRUE, lv |-> FALSE, o |-> 0, off |-> 0, t |-> t, b |-> b, w |-> w]
Undef == [ok |-> FALSE, lv |-> FALSE, o |-> 0, off |-> 0, t |-> 1, b |-> <<>>, w |-> <<>>]
Inside(o, off) == o \in 1..Len(mem) /\ off \in 0..Len(mem[o])
At(o, off, t, w) == IF Inside(o, off) /\ Inside(o, off + Sz(t)) /\ off % lay[t].al = 0 THEN Lv(o, off, t, w) ELSE Undef
Read(l) == [k \in 1..Sz(l.t) |-> mem[l.o][l.off + k]]
Scalar(t) == Ty(t).k \in {"i", "p"}
Move(b, t, n, w) == IF IsPtr(b) /\ Inside(Po(b), Poff(b) + n * Sz(Ty(t).t)) THEN Rv(Ptr(Po(b), Poff(b) + n * Sz(Ty(t).t)), t, w) ELSE Undef
Conv(b, from, to) ==   \* a scalar value of type from, converted
  CASE Ty(to).k = "p" \/ Ty(from).k = "p" -> IF Sz(to) = 8 THEN b ELSE <<>>
    [] OTHER -> Ext(b, Ty(from).sg, Sz(to))
Written(l, b) == [k \in 1..Len(b) |-> IF (k - 1) \in lay[l.t].cov THEN b[k] ELSE -1]
Sel(b, off, n) == [k \in 1..n |-> b[off + k]]

RECURSIVE Ev(_)
Ev(e) ==
  LET n == Len(e.a)
      x == IF n >= 1 THEN Ev(e.a[1]) ELSE Undef
      y == IF n >= 2 /\ e.k # "cond" THEN Ev(e.a[2]) ELSE Undef
      w == x.w \o y.w
      bad == \/ n >= 1 /\ ~x.ok
             \/ n >= 2 /\ e.k # "cond" /\ ~y.ok
  IN IF bad THEN Undef ELSE
  CASE e.k = "var" -> Lv(e.o, 0, e.t, <<>>)
    [] e.k = "mem" -> Lv(x.o, x.off + lay[x.t].offs[e.m], Ty(x.t).ms[e.m], w)
    [] e.k = "idx" -> LET i == Idx(y.b, Ty(y.t).sg) IN IF i \in 0..(Ty(x.t).n - 1) THEN Lv(x.o, x.off + i * Sz(Ty(x.t).t), Ty(x.t).t, w) ELSE Undef
    [] e.k = "deref" -> IF IsPtr(x.b) THEN At(Po(x.b), Poff(x.b), Ty(x.t).t, w) ELSE Undef
    [] e.k = "pidx" -> LET p == Move(x.b, x.t, Idx(y.b, Ty(y.t).sg), w) IN IF p.ok THEN At(Po(p.b), Poff(p.b), Ty(x.t).t, w) ELSE Undef
    [] e.k = "load" -> LET b == Read(x) IN
         IF ~Scalar(x.t) \/ (IF Ty(x.t).k = "p" THEN b = Null \/ IsPtr(b) ELSE Plain(b)) THEN Rv(b, x.t, w) ELSE Undef
    [] e.k = "rmem" -> Rv(Sel(x.b, lay[x.t].offs[e.m], Sz(Ty(x.t).ms[e.m])), Ty(x.t).ms[e.m], w)
    [] e.k \in {"addr", "decay"} -> Rv(Ptr(x.o, x.off), e.t, w)
    [] e.k = "padd" -> Move(x.b, x.t, e.s * Idx(y.b, Ty(y.t).sg), w)
    [] e.k = "cast" -> Rv(Conv(x.b, x.t, e.t), e.t, w)
    [] e.k = "lit" -> Rv(e.b, e.t, <<>>)
    [] e.k = "diff" -> IF IsPtr(x.b) /\ IsPtr(y.b) /\ Po(x.b) = Po(y.b) /\ (Poff(x.b) - Poff(y.b)) % Sz(Ty(x.t).t) = 0
                       THEN LET d == Poff(x.b) - Poff(y.b) s == Sz(Ty(x.t).t) IN Rv(Bytes(IF d >= 0 THEN d \div s ELSE -((-d) \div s), 8), e.t, w) ELSE Undef
    [] e.k = "cmp" -> LET eq == x.b = y.b r == (CASE e.op = "==" -> eq [] e.op = "!=" -> ~eq [] e.op = "<" -> Poff(x.b) < Poff(y.b) [] e.op = "<=" -> Poff(x.b) <= Poff(y.b) [] e.op = ">" -> Poff(x.b) > Poff(y.b) [] OTHER -> Poff(x.b) >= Poff(y.b))
                      IN IF e.op \in {"==", "!="} \/ (IsPtr(x.b) /\ IsPtr(y.b) /\ Po(x.b) = Po(y.b)) THEN Rv(Bytes(IF r THEN 1 ELSE 0, 4), e.t, w) ELSE Undef
    [] e.k = "inc" ->
         LET b == Read(x) p == Move(b, x.t, e.s, w) one == Bytes(e.s, Sz(x.t)) v == IF Ty(x.t).k = "p" THEN p.b ELSE Add(b, one)
         IN IF (IF Ty(x.t).k = "p" THEN p.ok ELSE Plain(b)) THEN Rv(IF e.pre = 1 THEN v ELSE b, x.t, Append(w, [o |-> x.o, off |-> x.off, b |-> v])) ELSE Undef
    [] e.k = "asg" -> LET v == IF Scalar(x.t) THEN Conv(y.b, y.t, x.t) ELSE Written(x, y.b)
                      IN Rv(v, x.t, Append(w, [o |-> x.o, off |-> x.off, b |-> v]))
    [] e.k = "addas" ->
         LET b == Read(x) p == Move(b, x.t, e.s * Idx(y.b, Ty(y.t).sg), w) d == Ext(y.b, Ty(y.t).sg, Sz(x.t)) v == IF Ty(x.t).k = "p" THEN p.b ELSE IF e.s = 1 THEN Add(b, d) ELSE Sub(b, d)
         IN IF (IF Ty(x.t).k = "p" THEN p.ok ELSE Plain(b)) THEN Rv(v, x.t, Append(w, [o |-> x.o, off |-> x.off, b |-> v])) ELSE Undef
    [] e.k = "cond" -> LET t == Ev(IF \E k \in 1..Len(x.b) : x.b[k] # 0 THEN e.a[2] ELSE e.a[3]) IN IF t.ok THEN [t EXCEPT !.w = w \o t.w] ELSE Undef
    [] e.k = "size" -> Rv(Bytes(Sz(x.t), 8), e.t, <<>>)

(* ---- the machine ---- *)
RECURSIVE Store(_, _, _)
Store(m, w, k) == IF k > Len(w) THEN m ELSE
  Store([m EXCEPT ![w[k].o] = [j \in 1..Len(@) |-> IF j > w[k].off /\ j <= w[k].off + Len(w[k].b) THEN w[k].b[j - w[k].off] ELSE @[j]]], w, k + 1)
Init == /\ c \in 1..Len(Cases) /\ lay = LayAll(<<>>, 1) /\ pc = 1 /\ mem = K.mem /\ out = <<>> /\ st = "run"
Step == /\ st = "run" /\ pc <= Len(K.prog) /\ UNCHANGED <<c, lay>>
        /\ LET s == K.prog[pc] r == Ev(s.e) IN
           IF ~r.ok THEN st' = "undef" /\ UNCHANGED <<pc, mem, out>>
           ELSE /\ mem' = Store(mem, r.w, 1) /\ pc' = pc + 1 /\ UNCHANGED st
                /\ out' = IF s.obs = 1 THEN Append(out, IF Ty(r.t).k = "p" THEN r.b ELSE Ext(r.b, Ty(r.t).sg, 8)) ELSE out
Finish == /\ st = "run" /\ pc > Len(K.prog) /\ st' = "done" /\ UNCHANGED <<c, lay, pc, mem, out>>
          /\ PrintT("@@" \o ToJson(<<c, [out |-> out, mem |-> mem]>>))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* every object keeps its size, and bytes are bytes *)
TypeOK == /\ Len(mem) = Len(K.mem) /\ \A o \in 1..Len(mem) : Len(mem[o]) = Sz(K.objs[o]) /\ \A k \in 1..Len(mem[o]) : mem[o][k] >= -1
(* an aggregate's members lie inside it, in order and apart (but for a union's) *)
LaidOut == pc = 1 => \A t \in 1..Len(lay) : Ty(t).k = "r" =>
   \A k \in 1..Len(lay[t].offs) : /\ lay[t].offs[k] % lay[Ty(t).ms[k]].al = 0
                                  /\ lay[t].offs[k] + Sz(Ty(t).ms[k]) <= Sz(t)
                                  /\ k > 1 => lay[t].offs[k - 1] + Sz(Ty(t).ms[k - 1]) <= lay[t].offs[k]
(* a step only changes what its stores designate: at most the bytes of one object for each store *)
Frame == [][pc' = pc + 1 => LET r == Ev(K.prog[pc].e) IN \A o \in 1..Len(mem) : \A k \in 1..Len(mem[o]) :
              mem'[o][k] # mem[o][k] => \E j \in 1..Len(r.w) : r.w[j].o = o /\ k > r.w[j].off /\ k <= r.w[j].off + Len(r.w[j].b)]_vars
=============================================================================
