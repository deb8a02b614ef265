------------------------------- MODULE VaList --------------------------------
(* Variable argument lists as two machines run in step.  A case is a call     *)
(*   [id, params, args, ret, script]                                          *)
(* as in Abi with style "var", and the script which the called function       *)
(* executes upon va_list objects 1..NV:                                       *)
(*   [op |-> "start", v]  [op |-> "end", v]  [op |-> "copy", d, v]            *)
(*   [op |-> "arg", v, t]          va_arg(v, t)                               *)
(*   [op |-> "pass", v, ts, ptr]   a function reading ts is given v or &v     *)
(*                                                                            *)
(* The abstract machine knows only which argument is next for each object     *)
(* (0: not usable).  The concrete machine is the psABI's: gp_offset,          *)
(* fp_offset and overflow area.  Refines says the concrete object always      *)
(* denotes the place where the caller put the abstract machine's next         *)
(* argument, so any two conforming compilers may share a va_list.             *)
EXTENDS Layout, Flt, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
IsFp(t) == t = "double" \/ t = "float"
IntOf(t) == IF t = "ptr" THEN "ulong" ELSE IF t = "enum" THEN "uint" ELSE t
DefaultPromote(t) == IF t = "float" THEN "double" ELSE IF t \in {"ptr", "double", "enum"} THEN t ELSE Promote(t)
NV == 4
Range(f) == { f[x] : x \in DOMAIN f }

VARIABLES i, pc, cur, conc, reads
vars == <<i, pc, cur, conc, reads>>
C == Cases[i]
P == Len(C.params)
NA == Len(C.args)
T(k) == IF k <= P THEN C.params[k] ELSE DefaultPromote(C.args[k].t)
V(k) == GConv(IntOf(C.args[k].t), C.args[k].v, IntOf(T(k))).v
H == IF C.hidden THEN 1 ELSE 0

(* ---- where the caller puts argument k (Abi.Functional) ------------------- *)
Before(k, f) == Cardinality({ b \in 1..(k - 1) : IsFp(T(b)) = f })
Over(x, m) == IF x > m THEN x - m ELSE 0
PlaceOf(k) ==
  LET f == IsFp(T(k))  n == Before(k, f) + (IF f THEN 0 ELSE H) IN
  IF n < (IF f THEN 8 ELSE 6) THEN << IF f THEN "fp" ELSE "gp", n >>
  ELSE << "stk", Over(Before(k, TRUE), 8) + Over(Before(k, FALSE) + H, 6) >>

(* ---- the psABI va_list ---------------------------------------------------- *)
Started ==
  LET fs == Before(P + 1, TRUE)  gs == Before(P + 1, FALSE) + H  Min(x, m) == IF x < m THEN x ELSE m IN
  [g |-> 8 * Min(gs, 6), f |-> 48 + 16 * Min(fs, 8), s |-> 8 * (Over(gs, 6) + Over(fs, 8))]
Denotes(c, t) ==
  IF IsFp(t) THEN IF c.f < 176 THEN <<"fp", (c.f - 48) \div 16>> ELSE <<"stk", c.s \div 8>>
  ELSE IF c.g < 48 THEN <<"gp", c.g \div 8>> ELSE <<"stk", c.s \div 8>>
Step(c, t) ==
  IF IsFp(t) THEN IF c.f < 176 THEN [c EXCEPT !.f = @ + 16] ELSE [c EXCEPT !.s = @ + 8]
  ELSE IF c.g < 48 THEN [c EXCEPT !.g = @ + 8] ELSE [c EXCEPT !.s = @ + 8]

(* ---- 7.16.1.1: what may be read as what ----------------------------------- *)
Signedness(t, u) == {t, u} \in { {"int", "uint"}, {"long", "ulong"}, {"llong", "ullong"} }
MayRead(k, t) ==
  \/ t = T(k)
  \/ T(k) = "enum" /\ t = "uint"
  \/ Signedness(t, T(k)) /\ BitOf(V(k), 8 * PrimSize(t) - 1) = 0
Nil == [g |-> 0, f |-> 0, s |-> 0]

Init == i \in 1..Len(Cases) /\ pc = 1 /\ cur = [v \in 1..NV |-> 0] /\ conc = [v \in 1..NV |-> Nil] /\ reads = <<>>
Go == pc <= Len(C.script)
Op == C.script[pc]
Adv == pc' = pc + 1 /\ UNCHANGED i
Start == /\ Go /\ Op.op = "start" /\ cur[Op.v] = 0
         /\ cur' = [cur EXCEPT ![Op.v] = P + 1] /\ conc' = [conc EXCEPT ![Op.v] = Started]
         /\ UNCHANGED reads /\ Adv
End   == /\ Go /\ Op.op = "end" /\ cur[Op.v] # 0
         /\ cur' = [cur EXCEPT ![Op.v] = 0] /\ UNCHANGED <<conc, reads>> /\ Adv
Copy  == /\ Go /\ Op.op = "copy" /\ cur[Op.v] > 0 /\ cur[Op.d] = 0
         /\ cur' = [cur EXCEPT ![Op.d] = cur[Op.v]] /\ conc' = [conc EXCEPT ![Op.d] = conc[Op.v]]
         /\ UNCHANGED reads /\ Adv
Arg   == /\ Go /\ Op.op = "arg" /\ cur[Op.v] \in 1..NA /\ MayRead(cur[Op.v], Op.t)
         /\ reads' = Append(reads, V(cur[Op.v]))
         /\ cur' = [cur EXCEPT ![Op.v] = @ + 1] /\ conc' = [conc EXCEPT ![Op.v] = Step(@, Op.t)] /\ Adv
(* another function reads from the list; unless it was given its address the  *)
(* list is then good only for va_end (-1)                                     *)
RECURSIVE StepAll(_, _)
StepAll(c, ts) == IF ts = <<>> THEN c ELSE StepAll(Step(c, Head(ts)), Tail(ts))
Pass  == /\ Go /\ Op.op = "pass" /\ cur[Op.v] > 0
         /\ \A a \in 1..Len(Op.ts) : cur[Op.v] + a - 1 <= NA /\ MayRead(cur[Op.v] + a - 1, Op.ts[a])
         /\ reads' = reads \o [a \in 1..Len(Op.ts) |-> V(cur[Op.v] + a - 1)]
         /\ cur' = [cur EXCEPT ![Op.v] = IF Op.ptr THEN @ + Len(Op.ts) ELSE 0 - 1]
         /\ conc' = [conc EXCEPT ![Op.v] = StepAll(@, Op.ts)] /\ Adv
Done  == /\ pc = Len(C.script) + 1 /\ pc' = pc + 1 /\ UNCHANGED <<i, cur, conc, reads>>
         /\ PrintT("@@" \o ToJson(<<i, [reads |-> reads, vals |-> [k \in 1..NA |-> V(k)], types |-> [k \in 1..NA |-> T(k)]]>>))
Next == Start \/ End \/ Copy \/ Arg \/ Pass \/ Done
Spec == Init /\ [][Next]_vars

(* ---- properties ------------------------------------------------------------ *)
TypeOK == pc \in 1..(Len(C.script) + 2) /\ \A v \in 1..NV : cur[v] \in (0 - 1)..(NA + 1)
Refines == \A v \in 1..NV : cur[v] \in (P + 1)..NA => Denotes(conc[v], T(cur[v])) = PlaceOf(cur[v])
Bounds == \A v \in 1..NV : cur[v] # 0 => conc[v].g \in 0..48 /\ conc[v].f \in 48..176
(* objects are independent: one with the same cursor has the same contents    *)
Independent == \A v, w \in 1..NV : cur[v] > 0 /\ cur[v] = cur[w] => conc[v] = conc[w]
(* scripts are well-defined programs and every list is ended *)
Legal == Go => ENABLED (Start \/ End \/ Copy \/ Arg \/ Pass)
AllEnded == pc = Len(C.script) + 2 => \A v \in 1..NV : cur[v] = 0
InOrder == [][ \A v \in 1..NV : cur[v] > 0 /\ cur'[v] > 0 => cur'[v] >= cur[v] ]_vars
=============================================================================
