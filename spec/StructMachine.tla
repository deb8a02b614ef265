---------------------------- MODULE StructMachine ----------------------------
(* An object as byte memory and the accesses a program makes to its scalar   *)
(* subobjects.  One behaviour per case: the operations of the case executed   *)
(* in order on the memory image.  Case:                                       *)
(*   [ty, mem, ops]   mem: initial bytes of the object (and its neighbours)   *)
(*   op: [k, leaf, base, op, t, v]  base: byte offset of the object accessed  *)
EXTENDS CEval, Layout, Json, IOUtils, TLCExt

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, ls, mem, out, ub
vars == <<i, pc, ls, mem, out, ub>>
Init == /\ i \in 1..Len(Cases) /\ pc = 0 /\ ls = <<>> /\ mem = <<>> /\ out = <<>> /\ ub = FALSE

Load == /\ pc = 0 /\ pc' = 1
        /\ ls' = Leaves(Cases[i].ty, 0, <<>>)
        /\ mem' = Cases[i].mem
        /\ UNCHANGED <<i, out, ub>>

Bits(l, base) == l.bit + (8 * base)
Cur(l, base) == GetField(mem, Bits(l, base), l.w, l.t)
ValType(l) == IF l.bf THEN BfType(l.t, l.w) ELSE l.t
(* converting a value to a bit-field: to its type, then to its width *)
FieldConv(l, v) == LET c == Conv(v, l.t) IN
                   IF ~l.bf THEN c ELSE IF IsSigned(l.t) THEN SExtBits(c, l.w) ELSE ZExtBits(c, l.w)
(* [v: value of the expression, n: new value of the field or <<>> , ub] *)
Result(op, l) ==
  LET c == Cur(l, op.base) IN
  CASE op.k = "read"  -> [v |-> c, n |-> <<>>, ub |-> FALSE]
    [] op.k = "store" -> LET n == FieldConv(l, op.v) IN [v |-> n, n |-> n, ub |-> FALSE]
    [] op.k = "cas"   -> LET r == BinOp(op.op, ValType(l), c, op.t, op.v)  n == FieldConv(l, r.v) IN [v |-> n, n |-> n, ub |-> r.ub]
    [] op.k \in {"pre", "post"} ->
         LET r == BinOp(op.op, ValType(l), c, "int", W1)  n == FieldConv(l, r.v)
         IN [v |-> IF op.k = "pre" THEN n ELSE c, n |-> n, ub |-> r.ub]
    (* the field as an operand: c op v *)
    [] op.k = "expr"  -> LET r == BinOp(op.op, ValType(l), c, op.t, op.v) IN [v |-> r.v, n |-> <<>>, ub |-> r.ub]
    [] op.k = "un"    -> LET r == UnOp(op.op, ValType(l), c) IN [v |-> r.v, n |-> <<>>, ub |-> r.ub]

Step == /\ pc > 0 /\ pc <= Len(Cases[i].ops)
        /\ LET op == Cases[i].ops[pc]  l == ls[op.leaf]  r == Result(op, l) IN
           /\ mem' = IF r.n = <<>> THEN mem ELSE PutBits(mem, Bits(l, op.base), l.w, r.n)
           /\ out' = Append(out, r.v)
           /\ ub' = (ub \/ r.ub)
           /\ pc' = IF r.ub THEN Len(Cases[i].ops) + 1 ELSE pc + 1
        /\ UNCHANGED <<i, ls>>
Finish == /\ pc = Len(Cases[i].ops) + 1 /\ pc' = pc + 1
          /\ PrintT("@@" \o ToJson(<<i, [out |-> out, mem |-> mem, ub |-> ub, leaves |-> ls, size |-> Size(Cases[i].ty)]>>))
          /\ UNCHANGED <<i, ls, mem, out, ub>>
Next == Load \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- what is checked of the machine ------------------------------------ *)
Bytes == \A j \in 1..Len(mem) : mem[j] \in 0..255
(* a step changes only the bits of the field it names *)
FrameOK == pc > 0 /\ pc <= Len(Cases[i].ops) =>
  LET op == Cases[i].ops[pc]  l == ls[op.leaf]  b == Bits(l, op.base) IN
  \A j \in 1..Len(mem) :
    IF 8*(j-1) + 7 < b \/ 8*(j-1) >= b + l.w THEN mem'[j] = mem[j]
    ELSE \A k \in 0..7 : (8*(j-1) + k < b \/ 8*(j-1) + k >= b + l.w) =>
           (mem'[j] \div Pow2(k)) % 2 = (mem[j] \div Pow2(k)) % 2
Frame == [][FrameOK]_vars
(* the value of an assignment is what a read of the field then gives *)
ReadBack == [][(pc > 0 /\ pc <= Len(Cases[i].ops) /\ Cases[i].ops[pc].k \in {"store", "cas", "pre"} /\ ~ub') =>
                 LET op == Cases[i].ops[pc] IN out'[pc] = GetField(mem', Bits(ls[op.leaf], op.base), ls[op.leaf].w, ls[op.leaf].t)]_vars
=============================================================================
