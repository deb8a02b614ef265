------------------------------- MODULE Layout --------------------------------
(* Record layout of the System V x86-64 ABI.  A type is a record            *)
(*   [k |-> "p", t]                 scalar ("ptr", "enum", float, ... too)   *)
(*   [k |-> "arr", n, of]           array (n = 0: flexible array member)     *)
(*   [k |-> "su", u, pk, al, ms]    struct / union (u = 1), packed, aligned  *)
(* and a member [n, ty, w, al, pk]: w = -1 for an ordinary member, else the  *)
(* bit-field's width; n = "" for unnamed ones; al an alignment request or 0. *)
EXTENDS CTypes

RoundUp(x, a) == ((x + a - 1) \div a) * a
Max(a, b) == IF a > b THEN a ELSE b
PrimSize(t) == IF t \in {"float", "enum"} THEN 4 ELSE SizeOf(t)

RECURSIVE Size(_), Align(_), Place(_, _, _)
(* st: [bit, al, sz, ms]; bit is the next free bit of a struct, sz the        *)
(* largest member of a union in bytes, ms the placed members <<bit position>> *)
Place(ty, k, st) ==
  IF k > Len(ty.ms) THEN st
  ELSE LET m  == ty.ms[k]
           sz == Size(m.ty)
           a0 == IF ty.pk = 1 \/ m.pk = 1 THEN 1 ELSE Align(m.ty)
           a  == Max(a0, m.al)
           start == IF ty.u = 1 THEN 0 ELSE st.bit
           unit  == 8 * sz
           pos == IF m.w < 0 THEN 8 * RoundUp((start + 7) \div 8, a)
                  ELSE IF m.w = 0 THEN RoundUp(start, unit)
                  ELSE IF (start % unit) + m.w > unit THEN RoundUp(start, unit)
                  ELSE start
           bits == IF m.w < 0 THEN unit ELSE m.w
       IN Place(ty, k + 1,
            [bit |-> pos + bits,
             al  |-> IF m.w < 0 \/ (m.w > 0 /\ m.n # "") THEN Max(st.al, a) ELSE st.al,
             sz  |-> Max(st.sz, (bits + 7) \div 8),
             ms  |-> Append(st.ms, pos)])
Placed(ty) == Place(ty, 1, [bit |-> 0, al |-> 1, sz |-> 0, ms |-> <<>>])

Align(ty) ==
  CASE ty.k = "p" -> PrimSize(ty.t)
    [] ty.k = "arr" -> Align(ty.of)
    [] ty.k = "su" -> Max(Placed(ty).al, ty.al)
Size(ty) ==
  CASE ty.k = "p" -> PrimSize(ty.t)
    [] ty.k = "arr" -> ty.n * Size(ty.of)
    [] ty.k = "su" ->
         LET p == Placed(ty)
         IN RoundUp(IF ty.u = 1 THEN p.sz ELSE (p.bit + 7) \div 8, Max(p.al, ty.al))

(* the scalar leaves of an object of the type: [path, bit, w, t], bit the     *)
(* absolute bit position, w the width in bits (bf = TRUE for bit-fields)      *)
RECURSIVE Leaves(_, _, _), LeavesM(_, _, _, _, _), LeavesA(_, _, _, _)
LeavesM(ty, pl, k, bit, path) ==
  IF k > Len(ty.ms) THEN <<>>
  ELSE LET m == ty.ms[k]
           here == IF m.w >= 0
                   THEN (IF m.n = "" THEN <<>>
                         ELSE << [path |-> Append(path, k), bit |-> bit + pl[k], w |-> m.w, t |-> m.ty.t, bf |-> TRUE] >>)
                   ELSE Leaves(m.ty, bit + pl[k], Append(path, k))
       IN here \o LeavesM(ty, pl, k + 1, bit, path)
LeavesA(ty, i, bit, path) ==
  IF i > ty.n THEN <<>>
  ELSE Leaves(ty.of, bit + (8 * (i - 1) * Size(ty.of)), Append(path, i)) \o LeavesA(ty, i + 1, bit, path)
Leaves(ty, bit, path) ==
  CASE ty.k = "p" -> << [path |-> path, bit |-> bit, w |-> 8 * PrimSize(ty.t), t |-> ty.t, bf |-> FALSE] >>
    [] ty.k = "arr" -> LeavesA(ty, 1, bit, path)
    [] ty.k = "su" -> LeavesM(ty, Placed(ty).ms, 1, bit, path)

(* all (named) subobjects with their byte offset, size and alignment: used   *)
(* for offsetof                                                              *)
RECURSIVE Subs(_, _, _), SubsM(_, _, _, _, _)
SubsM(ty, pl, k, off, path) ==
  IF k > Len(ty.ms) THEN <<>>
  ELSE LET m == ty.ms[k]
           o == off + (pl[k] \div 8)
       IN (IF m.w >= 0 THEN <<>>
           ELSE << [path |-> Append(path, k), off |-> o, size |-> Size(m.ty)] >> \o Subs(m.ty, o, Append(path, k)))
          \o SubsM(ty, pl, k + 1, off, path)
Subs(ty, off, path) ==
  CASE ty.k = "p" -> <<>>
    [] ty.k = "arr" -> IF ty.n < 2 THEN <<>>
                       ELSE Subs(ty.of, off + ((ty.n - 1) * Size(ty.of)), Append(path, ty.n))
    [] ty.k = "su" -> SubsM(ty, Placed(ty).ms, 1, off, path)

(* sanity of the layout rules themselves *)
Sane(ty) ==
  LET p == Placed(ty)  n == Len(ty.ms) IN
  /\ Size(ty) % Align(ty) = 0
  /\ \A k \in 1..n : LET m == ty.ms[k]  b == IF m.w < 0 THEN 8 * Size(m.ty) ELSE m.w IN
       /\ p.ms[k] + b <= 8 * Size(ty) \/ m.w = 0
       /\ m.w < 0 => p.ms[k] % 8 = 0
       /\ (m.w < 0 /\ ty.pk = 0 /\ m.pk = 0) => (p.ms[k] \div 8) % Align(m.ty) = 0
       /\ m.w > 0 => (p.ms[k] \div (8 * Size(m.ty))) = ((p.ms[k] + m.w - 1) \div (8 * Size(m.ty)))
       /\ ty.u = 0 => \A j \in 1..(k-1) :
            p.ms[j] + (IF ty.ms[j].w < 0 THEN 8 * Size(ty.ms[j].ty) ELSE ty.ms[j].w) <= p.ms[k] \/ m.w = 0

(* ---- bits of a byte memory (a sequence of 0..255) ----------------------- *)
ByteAt(mem, q) == IF q + 1 <= Len(mem) THEN mem[q + 1] ELSE 0
(* the w bits at absolute bit position b, zero-extended *)
GetBits(mem, b, w) ==
  LET q == b \div 8  r == b % 8
      raw == [k \in 1..8 |-> (ByteAt(mem, q + k - 1) \div Pow2(r)) + ((ByteAt(mem, q + k) * Pow2(8 - r)) % 256)]
  IN ZExtBits(raw, w)
GetField(mem, b, w, t) == LET v == GetBits(mem, b, w) IN IF IsSigned(t) THEN SExtBits(v, w) ELSE v
PutBits(mem, b, w, v) ==
  LET q == b \div 8  r == b % 8
      val == ZExtBits(v, w)
      msk == ZExtBits(WNot(W0), w)
      Sh(x, k) == (IF k <= 8 THEN (x[k] * Pow2(r)) % 256 ELSE 0) + (IF k > 1 THEN x[k-1] \div Pow2(8 - r) ELSE 0)
  IN [j \in 1..Len(mem) |->
       LET k == j - q IN
       IF k < 1 \/ k > 9 THEN mem[j]
       ELSE (mem[j] & (255 - Sh(msk, k))) | Sh(val, k)]
=============================================================================
