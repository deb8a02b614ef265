----------------------------- MODULE InitMachine -----------------------------
(* C11 6.7.9: initialisation as a machine consuming initialiser items with a  *)
(* current-object cursor.  Case: [ty, x, unk]: object type, initialiser,      *)
(* unk = 1 for an array of unknown bound (ty.n then is an upper limit).       *)
(* Initialisers: [k |-> "e", t, v]       scalar expression                    *)
(*               [k |-> "s", el, b]      string literal, elements b (incl. 0) *)
(*               [k |-> "o", tag, mem]   expression of struct type            *)
(*               [k |-> "b", items]      braces; item [d, x], d a sequence of  *)
(*                  [k |-> "f", n] | [k |-> "i", i] | [k |-> "r", lo, hi]      *)
EXTENDS CTypes, Layout, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, st, stk, mem, msk, sel, len, bad
vars == <<i, st, stk, mem, msk, sel, len, bad>>

RECURSIVE TypeAt(_, _), BitAt(_, _), FindM(_, _, _), DefMask(_, _, _), DefMaskM(_, _, _, _, _), DefMaskA(_, _, _, _)
TypeAt(ty, p) == IF p = <<>> THEN ty
                 ELSE IF ty.k = "arr" THEN TypeAt(ty.of, Tail(p)) ELSE TypeAt(ty.ms[p[1]].ty, Tail(p))
BitAt(ty, p) == IF p = <<>> THEN 0
                ELSE IF ty.k = "arr" THEN (8 * (p[1] - 1) * Size(ty.of)) + BitAt(ty.of, Tail(p))
                ELSE Placed(ty).ms[p[1]] + BitAt(ty.ms[p[1]].ty, Tail(p))
(* the width in bits of the subobject at p *)
WidthAt(ty, p) == IF p = <<>> THEN 8 * Size(ty)
                  ELSE LET q == SubSeq(p, 1, Len(p) - 1)  P == TypeAt(ty, q)  l == p[Len(p)]
                       IN IF P.k = "su" /\ P.ms[l].w >= 0 THEN P.ms[l].w ELSE 8 * Size(TypeAt(ty, p))
Member(m) == ~(m.w >= 0 /\ m.n = "")             \* takes part in initialisation
RECURSIVE NextM(_, _)
NextM(ty, k) == IF k > Len(ty.ms) THEN 0 ELSE IF Member(ty.ms[k]) THEN k ELSE NextM(ty, k + 1)
FindM(ty, n, k) ==
  IF k > Len(ty.ms) THEN <<>>
  ELSE LET m == ty.ms[k] IN
    IF m.n = n THEN <<k>>
    ELSE IF m.n = "" /\ m.w < 0 /\ m.ty.k = "su" /\ FindM(m.ty, n, 1) # <<>> THEN <<k>> \o FindM(m.ty, n, 1)
    ELSE FindM(ty, n, k + 1)

FillBits(m, b, w, v) ==      \* set w bits to v = 0 or 1; any w
  [j \in 1..Len(m) |->
     LET lo == 8 * (j - 1) IN
     IF lo + 7 < b \/ lo >= b + w THEN m[j]
     ELSE IF lo >= b /\ lo + 8 <= b + w THEN 255 * v
     ELSE LET s == IF b > lo THEN b - lo ELSE 0
              e == IF b + w < lo + 8 THEN b + w - lo ELSE 8
              k == Pow2(e) - Pow2(s)
          IN IF v = 1 THEN m[j] | k ELSE m[j] & (255 - k)]
(* the bits that have a value in a zero-initialised object *)
DefMaskA(ty, n, b, m) == IF n = 0 THEN m ELSE DefMaskA(ty, n - 1, b, DefMask(ty.of, b + (8 * (n - 1) * Size(ty.of)), m))
DefMaskM(ty, pl, k, b, m) ==
  IF k = 0 \/ k > Len(ty.ms) THEN m
  ELSE LET mb == ty.ms[k]
           m2 == IF mb.w >= 0 THEN (IF mb.n = "" THEN m ELSE FillBits(m, b + pl[k], mb.w, 1))
                 ELSE DefMask(mb.ty, b + pl[k], m)
       IN IF ty.u = 1 /\ Member(mb) THEN m2 ELSE DefMaskM(ty, pl, k + 1, b, m2)
DefMask(ty, b, m) == CASE ty.k = "p" -> FillBits(m, b, 8 * PrimSize(ty.t), 1)
                       [] ty.k = "arr" -> DefMaskA(ty, ty.n, b, m)
                       [] ty.k = "su" -> DefMaskM(ty, Placed(ty).ms, 1, b, m)

Zeros(n) == [j \in 1..n |-> 0]
Root == Cases[i].ty
IsStr(T, x) == T.k = "arr" /\ T.of.k = "p" /\
               (IF x.el = 1 THEN T.of.t \in {"char", "schar", "uchar"} ELSE T.of.t = "int")

(* ---- cursor ------------------------------------------------------------- *)
RECURSIVE Descend(_, _, _), Advance(_, _)
First(T) == IF T.k = "arr" THEN 1 ELSE NextM(T, 1)
Descend(ty, p, x) ==
  LET T == TypeAt(ty, p) IN
  IF T.k = "p" \/ x.k = "b" THEN p
  ELSE IF x.k = "s" /\ IsStr(T, x) THEN p
  ELSE IF x.k = "o" /\ T.k = "su" /\ T.tag = x.tag THEN p
  ELSE Descend(ty, Append(p, First(T)), x)
(* the next subobject after p inside ty, << >> when there is none *)
Advance(ty, p) ==
  IF p = <<>> THEN <<>>
  ELSE LET q == SubSeq(p, 1, Len(p) - 1)  P == TypeAt(ty, q)  l == p[Len(p)]
           n == IF P.k = "arr" THEN (IF l < P.n THEN l + 1 ELSE 0)
                ELSE IF P.u = 1 THEN 0 ELSE NextM(P, l + 1)
       IN IF n > 0 THEN Append(q, n) ELSE Advance(ty, q)
RECURSIVE Resolve(_, _, _)
Resolve(ty, p, d) ==
  IF d = <<>> THEN p
  ELSE LET T == TypeAt(ty, p)  h == d[1] IN
    IF h.k = "f" THEN Resolve(ty, p \o FindM(T, h.n, 1), Tail(d)) ELSE Resolve(ty, Append(p, h.i + 1), Tail(d))
RECURSIVE GoodD(_, _)
GoodD(ty, d) == d = <<>> \/
  LET h == d[1] IN
  IF h.k = "f" THEN ty.k = "su" /\ FindM(ty, h.n, 1) # <<>> /\ GoodD(TypeAt(ty, FindM(ty, h.n, 1)), Tail(d))
  ELSE ty.k = "arr" /\ h.i < ty.n /\ GoodD(ty.of, Tail(d))
(* GNU ranges: the item once per index *)
RECURSIVE Expand(_)
RangeAt(d) == IF \E k \in 1..Len(d) : d[k].k = "r" THEN CHOOSE k \in 1..Len(d) : d[k].k = "r" /\ \A j \in 1..(k-1) : d[j].k # "r" ELSE 0
Expand(items) ==
  IF items = <<>> THEN <<>>
  ELSE LET it == items[1]  r == RangeAt(it.d) IN
    IF r = 0 THEN <<it>> \o Expand(Tail(items))
    ELSE LET one == [j \in 1..(it.d[r].hi - it.d[r].lo + 1) |->
                       [it EXCEPT !.d = [@ EXCEPT ![r] = [k |-> "i", i |-> it.d[r].lo + j - 1]]]]
         IN Expand(one \o Tail(items))

(* ---- effects ------------------------------------------------------------ *)
(* selecting the members that unions on the way to absolute path p hold *)
RECURSIVE SelectAll(_, _, _)
SelectAll(p, n, s) ==        \* s = [mem, msk, sel, bad]
  IF n > Len(p) THEN s
  ELSE LET q == SubSeq(p, 1, n - 1)  T == TypeAt(Root, q) IN
    IF T.k # "su" \/ T.u = 0 THEN SelectAll(p, n + 1, s)
    ELSE LET cur == {x \in s.sel : x[1] = q} IN
      IF cur = {} THEN
        LET b == BitAt(Root, q)
            m1 == FillBits(s.msk, b, 8 * Size(T), 0)
            mb == T.ms[p[n]]
            b2 == b + Placed(T).ms[p[n]]
            m2 == IF mb.w >= 0 THEN FillBits(m1, b2, mb.w, 1) ELSE DefMask(mb.ty, b2, m1)
        IN SelectAll(p, n + 1, [s EXCEPT !.msk = m2, !.sel = @ \cup {<<q, p[n]>>}])
      ELSE IF <<q, p[n]>> \in cur THEN SelectAll(p, n + 1, s)
      ELSE [s EXCEPT !.bad = TRUE]                   \* a second member: not modelled
Cur == [mem |-> mem, msk |-> msk, sel |-> sel, bad |-> bad]
Under(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
(* re-initialising a part of a subobject copied from an expression: whether the
   rest of the copy survives is not settled (ucc and clang warn and discard it) *)
PartOfCopy(p, s) == \E x \in s.sel : x[2] = 0 /\ Len(p) >= Len(x[1]) /\ SubSeq(p, 1, Len(x[1]) - 1) = SubSeq(x[1], 1, Len(x[1]) - 1)
Reached(p, s) == LET t == SelectAll(p, 1, s) IN IF PartOfCopy(p, s) THEN [t EXCEPT !.bad = TRUE] ELSE t
PutScalar(p, v0, s0) ==
  LET s == Reached(p, s0)
      T == TypeAt(Root, p)
      v == IF T.t = "enum" THEN Conv(v0, "uint") ELSE Conv(v0, T.t)
  IN [s EXCEPT !.mem = PutBits(@, BitAt(Root, p), WidthAt(Root, p), v)]
(* a braced or whole-object initialiser replaces everything given before *)
Clear(p, s0) ==
  LET s == Reached(p, s0)  b == BitAt(Root, p)  w == WidthAt(Root, p)  T == TypeAt(Root, p) IN
  IF T.k = "p" THEN s
  ELSE [s EXCEPT !.mem = FillBits(@, b, w, 0), !.msk = DefMask(T, b, FillBits(@, b, w, 0)), !.sel = {x \in @ : ~Under(x[1], p)}]
RECURSIVE PutBytes(_, _, _)
PutBytes(m, q, bs) == [j \in 1..Len(m) |-> IF j > q /\ j <= q + Len(bs) THEN bs[j - q] ELSE m[j]]
PutString(p, x, s0) ==
  LET s == Clear(p, s0)  T == TypeAt(Root, p)
      n == IF Len(x.b) > T.n THEN T.n ELSE Len(x.b)
      bytes == IF x.el = 1 THEN SubSeq(x.b, 1, n)
               ELSE [j \in 1..(4 * n) |-> LET c == x.b[((j - 1) \div 4) + 1] IN (c \div Pow2(8 * ((j - 1) % 4))) % 256]
  IN [s EXCEPT !.mem = PutBytes(@, BitAt(Root, p) \div 8, bytes),
               !.bad = @ \/ (Len(x.b) > T.n + 1)]     \* only the terminator may be dropped
PutObject(p, x, s0) == LET s == Clear(p, s0) IN
  [s EXCEPT !.mem = PutBytes(@, BitAt(Root, p) \div 8, x.mem), !.sel = @ \cup {<<Append(p, 0), 0>>}]

MaxI(a, b) == IF a > b THEN a ELSE b
Reach(p) == IF Root.k = "arr" /\ p # <<>> THEN MaxI(len, p[1]) ELSE len

Init == /\ i \in 1..Len(Cases) /\ st = "start" /\ stk = <<>> /\ mem = <<>> /\ msk = <<>> /\ sel = {} /\ len = 0 /\ bad = FALSE
Frame(path, items, T) == [p |-> path, items |-> Expand(items), n |-> 1, cur |-> IF T.k = "p" THEN <<>> ELSE <<First(T)>>, ok |-> TRUE]

Apply(p, x, s) == CASE x.k = "e" -> PutScalar(p, x.v, s)
                    [] x.k = "s" -> PutString(p, x, s)
                    [] x.k = "o" -> PutObject(p, x, s)
Set(s) == mem' = s.mem /\ msk' = s.msk /\ sel' = s.sel
Start ==
  /\ st = "start" /\ UNCHANGED i
  /\ LET x == Cases[i].x  n == Size(Root) IN
     IF x.k = "b"
     THEN /\ st' = "run" /\ stk' = <<Frame(<<>>, x.items, Root)>> /\ mem' = Zeros(n) /\ msk' = DefMask(Root, 0, Zeros(n)) /\ sel' = {} /\ UNCHANGED <<len, bad>>
     ELSE LET s == Apply(<<>>, x, [mem |-> Zeros(n), msk |-> DefMask(Root, 0, Zeros(n)), sel |-> {}, bad |-> FALSE])
          IN st' = "run" /\ Set(s) /\ bad' = s.bad /\ len' = (IF x.k = "s" THEN Len(x.b) ELSE 0) /\ stk' = <<>>

Top == stk[Len(stk)]
Pop == SubSeq(stk, 1, Len(stk) - 1)
Leave == /\ st = "run" /\ stk # <<>> /\ Top.n > Len(Top.items)
         /\ stk' = Pop /\ UNCHANGED <<i, st, mem, msk, sel, len, bad>>
(* "{" "string" "}" and braces around a scalar *)
Whole(T, x, n) == n = 1 /\ ((x.k = "s" /\ IsStr(T, x)) \/ T.k = "p")
Item ==
  /\ st = "run" /\ stk # <<>> /\ Top.n <= Len(Top.items) /\ ~bad
  /\ LET f == Top  it == f.items[f.n]  x == it.x
         T == TypeAt(Root, f.p)
     IN IF it.d = <<>> /\ Whole(T, x, f.n)
        THEN IF x.k = "b" THEN /\ stk' = Append(Append(Pop, [f EXCEPT !.n = @ + 1]), Frame(f.p, x.items, T)) /\ UNCHANGED <<mem, msk, sel, len, bad>>
             ELSE LET s == Apply(f.p, x, Cur) IN
                  Set(s) /\ bad' = s.bad /\ stk' = Append(Pop, [f EXCEPT !.n = @ + 1, !.cur = <<>>]) /\ len' = (IF f.p = <<>> /\ x.k = "s" THEN Len(x.b) ELSE len)
        ELSE LET rel0 == IF it.d = <<>> THEN f.cur ELSE IF GoodD(T, it.d) THEN Resolve(T, <<>>, it.d) ELSE <<>> IN
          IF rel0 = <<>> THEN bad' = TRUE /\ UNCHANGED <<stk, mem, msk, sel, len>>   \* excess initialiser
          ELSE LET rel == Descend(T, rel0, x)
                   p == f.p \o rel
                   adv == [f EXCEPT !.n = @ + 1, !.cur = Advance(T, rel)]
               IN /\ len' = Reach(p)
                  /\ IF x.k = "b"
                     THEN LET s == Clear(p, Cur) IN Set(s) /\ bad' = s.bad /\ stk' = Append(Append(Pop, adv), Frame(p, x.items, TypeAt(Root, p)))
                     ELSE IF x.k \in {"o", "s"} /\ TypeAt(Root, p).k = "p"
                     THEN bad' = TRUE /\ UNCHANGED <<stk, mem, msk, sel>>
                     ELSE LET s == Apply(p, x, Cur) IN Set(s) /\ bad' = s.bad /\ stk' = Append(Pop, adv)
  /\ UNCHANGED <<i, st>>
Done == /\ st = "run" /\ (stk = <<>> \/ bad) /\ st' = "done"
        /\ PrintT("@@" \o ToJson(<<i, [mem |-> mem, msk |-> msk, len |-> len, bad |-> bad, size |-> Size(Root), esize |-> IF Root.k = "arr" THEN Size(Root.of) ELSE 0]>>))
        /\ UNCHANGED <<i, stk, mem, msk, sel, len, bad>>
Next == Start \/ Leave \/ Item \/ Done
Spec == Init /\ [][Next]_vars

(* ---- checked of the machine --------------------------------------------- *)
(* bits of subobjects no initialiser has reached stay zero; defined bits stay defined inside the selected members *)
TypeOK == /\ \A j \in 1..Len(mem) : mem[j] \in 0..255 /\ msk[j] \in 0..255
          /\ Len(mem) = Len(msk)
OneMember == \A x \in sel, y \in sel : x[1] = y[1] => x = y
CursorInside == \A k \in 1..Len(stk) : LET f == stk[k] IN f.cur # <<>> => BitAt(Root, f.p \o f.cur) < 8 * Size(Root)
=============================================================================
