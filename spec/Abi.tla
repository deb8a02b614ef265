--------------------------------- MODULE Abi ---------------------------------
(* The System V x86-64 calling convention, as a machine which hands out one  *)
(* argument at a time.  A call (from $CASES) is                              *)
(*   [id, style, params, args, ret]                                          *)
(* style "proto", "var" or "none" (no prototype in scope, or one for which   *)
(* an old-style definition exists), params a sequence of types, args a       *)
(* sequence of [t, v]: the argument expressions' types and values, ret a     *)
(* Layout type or [k |-> "void"].                                            *)
(*                                                                           *)
(* The state is the next argument, the registers used up, the stack slots    *)
(* used, and where each argument went.                                       *)
EXTENDS Layout, Flt, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

GPRegs == 6
FPRegs == 8
IsFp(t) == t \in {"float", "double"}
IntOf(t) == IF t = "ptr" THEN "ulong" ELSE IF t = "enum" THEN "uint" ELSE t
DefaultPromote(t) == IF t = "float" THEN "double" ELSE IF t \in {"ptr", "double", "enum"} THEN t ELSE Promote(t)
(* the type an argument travels as: 6.5.2.2 *)
PassedType(c, k) == IF c.style # "none" /\ k <= Len(c.params) THEN c.params[k] ELSE DefaultPromote(c.args[k].t)
PassedValue(c, k) == GConv(IntOf(c.args[k].t), c.args[k].v, IntOf(PassedType(c, k))).v

(* ---- returned values ----------------------------------------------------- *)
NatAlign(l) == IF l.bf THEN 1 ELSE 8 * PrimSize(l.t)
Misaligned(ls) == \E j \in 1..Len(ls) : ls[j].bit % NatAlign(ls[j]) # 0
Covers(l, e) == l.bit < 64 * (e + 1) /\ l.bit + l.w > 64 * e
(* the class of eightbyte e of an aggregate *)
Class(ls, e) ==
  LET in == { j \in 1..Len(ls) : Covers(ls[j], e) } IN
  IF in = {} THEN "NONE"
  ELSE IF \E j \in in : ~IsFp(ls[j].t) THEN "INTEGER" ELSE "SSE"
RetClasses(ty) ==
  IF ty.k = "void" THEN <<>>
  ELSE IF ty.k = "p" THEN << IF IsFp(ty.t) THEN "SSE" ELSE "INTEGER" >>
  ELSE LET ls == Leaves(ty, 0, <<>>) IN
       IF Size(ty) > 16 \/ Misaligned(ls) THEN <<"MEMORY">>
       ELSE [e \in 1..((Size(ty) + 7) \div 8) |-> Class(ls, e - 1)]
(* the register of each eightbyte: the next of rax, rdx or of xmm0, xmm1 *)
RetRegs(cl) ==
  [e \in 1..Len(cl) |->
    LET n == Cardinality({ j \in 1..(e - 1) : cl[j] = cl[e] }) IN
    CASE cl[e] = "INTEGER" -> IF n = 0 THEN "rax" ELSE "rdx"
      [] cl[e] = "SSE" -> IF n = 0 THEN "xmm0" ELSE "xmm1"
      [] OTHER -> "none"]
InMemory(cl) == cl = <<"MEMORY">>

(* ---- the machine --------------------------------------------------------- *)
VARIABLES i, k, gp, fp, stk, locs
vars == <<i, k, gp, fp, stk, locs>>
C == Cases[i]
Hidden == InMemory(RetClasses(C.ret))
Init == /\ i \in 1..Len(Cases) /\ k = 1 /\ fp = 0 /\ stk = 0 /\ locs = <<>>
        /\ gp = IF Hidden THEN 1 ELSE 0
Put(l) == locs' = Append(locs, l) /\ k' = k + 1 /\ UNCHANGED i
More == k <= Len(C.args)
InGp  == More /\ ~IsFp(PassedType(C, k)) /\ gp < GPRegs  /\ Put(<<"gp", gp>>) /\ gp' = gp + 1 /\ UNCHANGED <<fp, stk>>
InFp  == More /\ IsFp(PassedType(C, k)) /\ fp < FPRegs   /\ Put(<<"fp", fp>>) /\ fp' = fp + 1 /\ UNCHANGED <<gp, stk>>
OnStk == /\ More /\ (IF IsFp(PassedType(C, k)) THEN fp = FPRegs ELSE gp = GPRegs)
         /\ Put(<<"stk", stk>>) /\ stk' = stk + 1 /\ UNCHANGED <<gp, fp>>
Variadic == C.style # "proto"
Call ==
  /\ k = Len(C.args) + 1 /\ k' = k + 1 /\ UNCHANGED <<i, gp, fp, stk, locs>>
  /\ LET cl == RetClasses(C.ret) IN
     PrintT("@@" \o ToJson(<<i, [
       locs |-> locs, al |-> IF Variadic THEN fp ELSE 0 - 1, stk |-> stk,
       types |-> [j \in 1..Len(C.args) |-> PassedType(C, j)],
       vals |-> [j \in 1..Len(C.args) |-> PassedValue(C, j)],
       cls |-> cl, regs |-> RetRegs(cl), hidden |-> Hidden,
       size |-> IF C.ret.k = "void" THEN 0 ELSE Size(C.ret),
       leaves |-> IF C.ret.k = "void" THEN <<>> ELSE Leaves(C.ret, 0, <<>>)]>>))
Next == InGp \/ InFp \/ OnStk \/ Call
Spec == Init /\ [][Next]_vars

(* ---- what must hold of the convention itself ----------------------------- *)
TypeOK == gp \in 0..GPRegs /\ fp \in 0..FPRegs /\ stk \in 0..Len(C.args) /\ Len(locs) = (IF k > Len(C.args) THEN Len(C.args) ELSE k - 1)
NoSharing == \A a, b \in 1..Len(locs) : a # b => locs[a] # locs[b]
HiddenFirst == Hidden => \A a \in 1..Len(locs) : locs[a] # <<"gp", 0>>
InOrder == \A a, b \in 1..Len(locs) : a < b /\ locs[a][1] = locs[b][1] => locs[a][2] < locs[b][2]
Contiguous == \A s \in 0..(stk - 1) : \E a \in 1..Len(locs) : locs[a] = <<"stk", s>>
(* the stack is used only when the registers of the class are exhausted *)
StackIsLast == \A a \in 1..Len(locs) : locs[a][1] = "stk" =>
   IF IsFp(PassedType(C, a)) THEN \A r \in 0..(FPRegs - 1) : \E b \in 1..(a - 1) : locs[b] = <<"fp", r>>
   ELSE \A r \in (IF Hidden THEN 1 ELSE 0)..(GPRegs - 1) : \E b \in 1..(a - 1) : locs[b] = <<"gp", r>>
(* caller and callee, seeing the same promoted types, agree: the place of an *)
(* argument depends only on the types before it                              *)
Before(a, f) == Cardinality({ b \in 1..(a - 1) : IsFp(PassedType(C, b)) = f })
WhereItGoes(a) ==
  LET f == IsFp(PassedType(C, a))  h == IF Hidden THEN 1 ELSE 0
      n == Before(a, f) + (IF f THEN 0 ELSE h)
      lim == IF f THEN FPRegs ELSE GPRegs
      Over(x, m) == IF x > m THEN x - m ELSE 0
  IN IF n < lim THEN << IF f THEN "fp" ELSE "gp", n >>
     ELSE << "stk", Over(Before(a, TRUE), FPRegs) + Over(Before(a, FALSE) + h, GPRegs) >>
Functional == \A a \in 1..Len(locs) : locs[a] = WhereItGoes(a)
(* no eightbyte of a returned object is lost: each leaf lies in eightbytes    *)
(* that have a register of a kind able to hold it, or all of it in memory     *)
RetComplete ==
  LET cl == RetClasses(C.ret)  rg == RetRegs(cl) IN
  C.ret.k = "su" /\ ~InMemory(cl) =>
    LET ls == Leaves(C.ret, 0, <<>>) IN
    /\ \A j \in 1..Len(ls) : \A e \in 0..(Len(cl) - 1) : Covers(ls[j], e) => rg[e + 1] # "none" /\ (~IsFp(ls[j].t) => cl[e + 1] = "INTEGER")
    /\ \A e, g \in 1..Len(cl) : e # g /\ rg[e] # "none" => rg[e] # rg[g]
Terminates == <>(k = Len(C.args) + 2)
FairSpec == Spec /\ WF_vars(Next)

(* Variadic arguments: the callee's cursor over the register save area and    *)
(* the overflow area, as va_start leaves it after the named parameters, walks *)
(* through exactly the places the caller used.                                *)
RECURSIVE Walk(_, _, _, _, _)
Walk(a, g, f, s, acc) ==
  IF a > Len(C.args) THEN acc
  ELSE IF IsFp(PassedType(C, a))
       THEN IF f < 176 THEN Walk(a + 1, g, f + 16, s, Append(acc, <<"fp", (f - 48) \div 16>>))
            ELSE Walk(a + 1, g, f, s + 8, Append(acc, <<"stk", s \div 8>>))
       ELSE IF g < 48 THEN Walk(a + 1, g + 8, f, s, Append(acc, <<"gp", g \div 8>>))
            ELSE Walk(a + 1, g, f, s + 8, Append(acc, <<"stk", s \div 8>>))
VaStart(n) == \* offsets after n named parameters
  LET fs == Before(n + 1, TRUE)  gs == Before(n + 1, FALSE) + (IF Hidden THEN 1 ELSE 0)
      O(x, m) == IF x > m THEN x - m ELSE 0
  IN <<8 * (IF gs > 6 THEN 6 ELSE gs), 48 + 16 * (IF fs > 8 THEN 8 ELSE fs), 8 * (O(gs, 6) + O(fs, 8))>>
VaRefines == C.style = "var" /\ k = Len(C.args) + 2 =>
  LET n == Len(C.params)  s == VaStart(n) IN
  Walk(n + 1, s[1], s[2], s[3], <<>>) = SubSeq(locs, n + 1, Len(locs))
=============================================================================
