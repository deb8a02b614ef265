----------------------------- MODULE StmtMachine -----------------------------
(* The abstract machine for statements: a stack K of frames, one per         *)
(* statement or expression being executed.  A program is a table of numbered *)
(* nodes read from $CASES; Up(n) is the parent of node n.                    *)
(*   expressions: lit var ev asg cas inc bin and or cond elvis comma not     *)
(*                call se vget vsz                                           *)
(*   statements:  es blk decl vla if while do for sw case dflt label goto    *)
(*                cgoto brk cont ret null fn vset                            *)
(* A frame is [n, s, v, l, sv]: node, progress, values so far, the           *)
(* declarations passed in this block (with a cleanup handler or of variable  *)
(* length), and the caller's variables for a function frame.                 *)
(* Leaving frames by a jump happens one frame, one cleanup at a time (uw).   *)
(* Programs whose meaning C (or GNU C) leaves open set bad and are dropped.  *)
EXTENDS CTypes, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
FUEL == 700
Undef == 0 - 99999
VARIABLES i, K, rv, uw, env, tr, live, born, fuel, st
vars == <<i, K, rv, uw, env, tr, live, born, fuel, st>>
(* live: for each variable-length array in scope its <<id, length, serial>>; *)
(* born: number of tracked declarations passed so far                        *)

C == Cases[i]
N(n) == C.nodes[n]
Up(n) == C.nodes[n].up
Loops == {"while", "do", "for"}
Frame(n) == [n |-> n, s |-> 0, v |-> <<>>, l |-> <<>>, sv |-> <<>>]
Top == K[Len(K)]
Pop == SubSeq(K, 1, Len(K) - 1)
SetTop(f) == Append(Pop, f)
Norm(t, x) == CASE t = "u" -> x % 256
                [] t = "s" -> ((x + 128) % 256) - 128
                [] t = "i" -> x
B(b) == IF b THEN 1 ELSE 0
Op(op, a, b) == CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b
                  [] op = "==" -> B(a = b) [] op = "!=" -> B(a # b) [] op = "<" -> B(a < b)
                  [] op = ">" -> B(a > b) [] op = "<=" -> B(a <= b) [] op = ">=" -> B(a >= b)
Wild(x) == x > 100000 \/ x < 0 - 100000

(* ------------------------------------------------------------ the outcomes *)
Same == UNCHANGED <<i, env, tr, live, born, uw, st>>
Push(s, n) == K' = Append(SetTop([Top EXCEPT !.s = s]), Frame(n)) /\ rv' = <<>>
PushV(s, x, n) == K' = Append(SetTop([Top EXCEPT !.s = s, !.v = Append(@, x)]), Frame(n)) /\ rv' = <<>>
Ret(x) == K' = Pop /\ rv' = <<x>>
Bad == st' = "bad" /\ UNCHANGED <<i, K, rv, uw, env, tr, live, born>>
(* entering a block makes its variables indeterminate *)
Fresh(e, n) == IF N(n).k \in {"blk", "for"} THEN [j \in 1..Len(e) |-> IF \E q \in 1..Len(N(n).ds) : N(n).ds[q] = j THEN Undef ELSE e[j]] ELSE e

(* the innermost frame that is a function's *)
RECURSIVE FnDepth(_)
FnDepth(d) == IF N(K[d].n).k = "fn" THEN d ELSE FnDepth(d - 1)
RECURSIVE Enclosing(_, _)
Enclosing(d, ks) == IF d = 0 \/ N(K[d].n).k = "fn" THEN 0 ELSE IF N(K[d].n).k \in ks THEN d ELSE Enclosing(d - 1, ks)

(* --------------------------------------------------------------- expressions *)
Exprs == {"lit","var","ev","asg","cas","inc","bin","and","or","cond","elvis","comma","not","call","se","vget","vsz","lab"}
StepExpr ==
  LET f == Top  n == N(f.n)  first == rv = <<>> IN
  CASE n.k = "lit" -> Ret(n.x) /\ Same
    [] n.k = "var" -> IF env[n.id] = Undef THEN Bad ELSE Ret(env[n.id]) /\ Same
    [] n.k = "vsz" -> IF ~\E q \in 1..Len(live) : live[q][1] = n.id THEN Bad
                      ELSE Ret((CHOOSE q \in {live[z] : z \in 1..Len(live)} : q[1] = n.id /\ \A p \in {live[z] : z \in 1..Len(live)} : p[1] = n.id => p[3] <= q[3])[2]) /\ Same
    [] n.k = "vget" -> IF env[n.id] = Undef THEN Bad ELSE Ret(env[n.id]) /\ Same
    [] n.k = "ev" -> IF first THEN Push(1, n.a[1]) /\ Same
                     ELSE Ret(rv[1]) /\ tr' = Append(tr, <<n.key, rv[1]>>) /\ UNCHANGED <<i, env, live, born, uw, st>>
    [] n.k = "not" -> IF first THEN Push(1, n.a[1]) /\ Same ELSE Ret(B(rv[1] = 0)) /\ Same
    [] n.k = "asg" -> IF first THEN Push(1, n.a[1]) /\ Same
                      ELSE LET x == Norm(n.t, rv[1]) IN
                           IF Wild(x) THEN Bad ELSE Ret(x) /\ env' = [env EXCEPT ![n.id] = x] /\ UNCHANGED <<i, tr, live, born, uw, st>>
    [] n.k = "cas" -> IF first THEN Push(1, n.a[1]) /\ Same
                      ELSE IF env[n.id] = Undef THEN Bad
                      ELSE LET x == Norm(n.t, Op(n.op, env[n.id], rv[1])) IN
                           IF Wild(x) THEN Bad ELSE Ret(x) /\ env' = [env EXCEPT ![n.id] = x] /\ UNCHANGED <<i, tr, live, born, uw, st>>
    [] n.k = "inc" -> IF env[n.id] = Undef THEN Bad
                      ELSE LET x == Norm(n.t, Op(n.op, env[n.id], 1)) IN
                           Ret(IF n.pre = 1 THEN x ELSE env[n.id]) /\ env' = [env EXCEPT ![n.id] = x] /\ UNCHANGED <<i, tr, live, born, uw, st>>
    [] n.k = "bin" -> IF first THEN Push(1, n.a[1]) /\ Same
                      ELSE IF f.s = 1 THEN PushV(2, rv[1], n.a[2]) /\ Same
                      ELSE LET x == Op(n.op, f.v[1], rv[1]) IN IF Wild(x) THEN Bad ELSE Ret(x) /\ Same
    [] n.k = "comma" -> IF first THEN Push(1, n.a[1]) /\ Same
                        ELSE IF f.s = 1 THEN Push(2, n.a[2]) /\ Same ELSE Ret(rv[1]) /\ Same
    [] n.k = "and" -> IF first THEN Push(1, n.a[1]) /\ Same
                      ELSE IF f.s = 1 THEN (IF rv[1] = 0 THEN Ret(0) ELSE Push(2, n.a[2])) /\ Same
                      ELSE Ret(B(rv[1] # 0)) /\ Same
    [] n.k = "or" -> IF first THEN Push(1, n.a[1]) /\ Same
                     ELSE IF f.s = 1 THEN (IF rv[1] # 0 THEN Ret(1) ELSE Push(2, n.a[2])) /\ Same
                     ELSE Ret(B(rv[1] # 0)) /\ Same
    [] n.k = "cond" -> IF first THEN Push(1, n.a[1]) /\ Same
                       ELSE IF f.s = 1 THEN Push(2, IF rv[1] # 0 THEN n.a[2] ELSE n.a[3]) /\ Same
                       ELSE Ret(rv[1]) /\ Same
    [] n.k = "elvis" -> IF first THEN Push(1, n.a[1]) /\ Same
                        ELSE IF f.s = 1 /\ rv[1] = 0 THEN Push(2, n.a[2]) /\ Same
                        ELSE Ret(rv[1]) /\ Same
    [] n.k = "se" -> IF first
                     THEN Push(1, n.a[1]) /\ env' = Fresh(env, n.a[1]) /\ UNCHANGED <<i, tr, live, born, uw, st>>
                     ELSE Ret(rv[1]) /\ Same
    [] n.k = "call" ->
         LET got == IF first THEN <<>> ELSE Append(f.v, rv[1]) IN
         IF Len(got) < Len(n.a)
         THEN /\ K' = Append(SetTop([f EXCEPT !.s = 1, !.v = got]), Frame(n.a[Len(got) + 1])) /\ rv' = <<>> /\ Same
         ELSE IF f.s = 2 THEN Ret(rv[1]) /\ Same
         ELSE LET fn == N(n.fn)
                  saved == [q \in 1..Len(fn.vs) |-> env[fn.vs[q]]]
                  e2 == [j \in 1..Len(env) |->
                           IF \E q \in 1..Len(fn.ps) : fn.ps[q] = j
                           THEN Norm("i", got[CHOOSE q \in 1..Len(fn.ps) : fn.ps[q] = j])
                           ELSE IF \E q \in 1..Len(fn.vs) : fn.vs[q] = j THEN Undef ELSE env[j]]
              IN /\ env' = e2
                 /\ K' = SetTop([f EXCEPT !.s = 2, !.v = <<>>]) \o <<[Frame(n.fn) EXCEPT !.sv = saved]>>
                 /\ rv' = <<>> /\ UNCHANGED <<i, tr, live, born, uw, st>>
(* the call frame waits with s = 2; its arguments are gone, so Len(got) >= Len(n.a) must not be tested then *)
CallReturn == LET f == Top IN N(f.n).k = "call" /\ f.s = 2 /\ rv # <<>> /\ Ret(rv[1]) /\ Same

(* what the position of a new variable-length array may depend on: the calls
   in progress and the arrays of open scopes - not the history *)
Shape == <<[q \in 1..Len(live) |-> <<live[q][1], live[q][2]>>],
           LET cs == {d \in 1..Len(K) : N(K[d].n).k = "fn"} IN {<<d, K[d].n>> : d \in cs}>>
(* ---------------------------------------------------------------- statements *)
Restore(f) == LET fn == N(f.n) IN [j \in 1..Len(env) |-> IF \E q \in 1..Len(fn.vs) : fn.vs[q] = j THEN f.sv[CHOOSE q \in 1..Len(fn.vs) : fn.vs[q] = j] ELSE env[j]]
(* the end of one tracked declaration of the top frame *)
EndDecl ==
  LET f == Top  d == f.l[Len(f.l)]  n == N(d[1]) IN
  /\ K' = SetTop([f EXCEPT !.l = SubSeq(@, 1, Len(@) - 1)])
  /\ IF n.k = "decl"
     THEN /\ tr' = Append(tr, <<n.cl, env[n.id]>>)
          \* the handler logs, changes the variable and bumps global 1
          /\ env' = [env EXCEPT ![n.id] = (@ + 100) % 256, ![1] = (@ + 1) % 256]
          /\ UNCHANGED live
     ELSE live' = SubSeq(live, 1, Len(live) - 1) /\ UNCHANGED <<tr, env>>
  /\ UNCHANGED <<i, rv, uw, born, st>>
(* the parent records a declaration *)
Pass(entry, x) ==
  LET p == K[Len(K) - 1] IN
  K' = Append(SubSeq(K, 1, Len(K) - 2), [p EXCEPT !.l = Append(@, entry)]) /\ rv' = <<x>>
ForTest == LET n == N(Top.n) IN IF n.a[2] = 0 THEN Push(2, n.a[4]) ELSE Push(1, n.a[2])
Enter(n) == env' = Fresh(env, n) /\ UNCHANGED <<i, tr, live, born, uw, st>>
PushS(s, n) == Push(s, n) /\ Enter(n)

(* --- jumps --- *)
RECURSIVE PathTo(_)
PathTo(n) == IF N(n).k = "fn" THEN <<n>> ELSE Append(PathTo(Up(n)), n)
RECURSIVE Common(_, _, _)
Common(P, b, m) == IF m + 1 < Len(P) /\ b + m <= Len(K) /\ K[b + m].n = P[m + 1] THEN Common(P, b, m + 1) ELSE m
IndexOf(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
InProg(n, c) == CASE N(n).k = "blk" -> IndexOf(N(n).a, c)
                  [] N(n).k \in {"if", "while", "do", "for", "sw"} -> 2
                  [] OTHER -> 1
(* statements of n that a jump to child c skips on the way in *)
Skipped(n, c) == CASE N(n).k = "blk" -> {N(n).a[j] : j \in 1..(IndexOf(N(n).a, c) - 1)}
                   [] N(n).k = "for" -> IF c = N(n).a[4] /\ N(n).a[1] # 0 THEN {N(n).a[1]} ELSE {}
                   [] OTHER -> {}
Tracked(d) == N(d).k = "vla" \/ (N(d).k = "decl" /\ N(d).cl # 0)
Enterable(n) == N(n).k \in {"blk", "if", "while", "do", "for", "sw", "case", "dflt", "label", "fn"}
RECURSIVE FreshAll(_, _)
FreshAll(e, ns) == IF ns = <<>> THEN e ELSE FreshAll(Fresh(e, ns[1]), Tail(ns))
JumpTo(L) ==
  LET P == PathTo(L)  b == FnDepth(Len(K))  m == Common(P, b, 1)
      d == b + m - 1                       \* depth of the innermost common frame
      keep == {K[d].l[j][1] : j \in 1..Len(K[d].l)}
      \* declarations of the common block between which and the target the jump moves
      before == Skipped(P[m], P[m + 1])
      entered == SubSeq(P, m + 1, Len(P))
      intoBad == \/ \E j \in 1..(Len(entered) - 1) : ~Enterable(entered[j]) \/ \E q \in Skipped(entered[j], entered[j + 1]) : Tracked(q)
                 \/ \E q \in before : Tracked(q) /\ q \notin keep
      backBad == \E q \in keep \ before : N(q).k = "decl"
      frames == [j \in 1..Len(entered) |-> IF j = Len(entered) THEN Frame(entered[j]) ELSE [Frame(entered[j]) EXCEPT !.s = InProg(entered[j], entered[j + 1])]]
  IN IF ~Enterable(P[m]) \/ intoBad \/ backBad THEN Bad
     ELSE /\ uw' = <<[to |-> d, how |-> "jump", frames |-> frames, s |-> InProg(P[m], P[m + 1]), keep |-> before]>>
          /\ UNCHANGED <<i, K, env, tr, live, born, st>> /\ rv' = <<>>

Leave(d, how, x) == /\ uw' = <<[to |-> d, how |-> how, x |-> x]>> /\ rv' = <<>> /\ UNCHANGED <<i, K, env, tr, live, born, st>>

CaseOf(n, w) ==
  LET t == Promote(n.t)
      hit(c) == LET lo == Conv(c.lo, t)  hi == Conv(c.hi, t) IN RelOp("<=", t, lo, w) = W1 /\ RelOp("<=", t, w, hi) = W1
      ks == {q \in 1..Len(n.cs) : hit(n.cs[q])}
  IN IF ks # {} THEN n.cs[CHOOSE q \in ks : TRUE].n ELSE n.df

StepStmt ==
  LET f == Top  n == N(f.n)  first == rv = <<>> IN
  CASE n.k = "null" -> Ret(0) /\ Same
    [] n.k = "es" -> IF first THEN Push(1, n.a[1]) /\ Same ELSE Ret(rv[1]) /\ Same
    [] n.k \in {"case", "dflt", "label"} -> IF first THEN PushS(1, n.a[1]) ELSE Ret(rv[1]) /\ Same
    [] n.k = "blk" ->
         IF f.s < Len(n.a) /\ (first \/ f.s > 0) THEN PushS(f.s + 1, n.a[f.s + 1])
         ELSE IF f.l # <<>> THEN EndDecl
         ELSE Ret(IF first THEN 0 ELSE rv[1]) /\ Same
    [] n.k = "decl" ->
         IF first THEN Push(1, n.a[1]) /\ Same
         ELSE /\ env' = [env EXCEPT ![n.id] = Norm(n.t, rv[1])]
              /\ IF n.cl # 0 THEN Pass(<<f.n, born + 1>>, 0) /\ born' = born + 1 ELSE Ret(0) /\ born' = born
              /\ UNCHANGED <<i, tr, live, uw, st>>
    [] n.k = "vla" ->
         IF first THEN Push(1, n.a[1]) /\ Same
         ELSE LET len == ((rv[1] % 32) + 1) * n.w IN   \* n.w: the size of an element
              /\ live' = Append(live, <<n.id, len, born + 1>>) /\ born' = born + 1
              /\ Pass(<<f.n, born + 1>>, 0)
              /\ env' = [env EXCEPT ![n.id] = n.pat]
              /\ tr' = Append(tr, <<n.key, len, Shape>>)  \* where it lies is observed as well
              /\ UNCHANGED <<i, uw, st>>
    [] n.k = "vset" -> IF first THEN Push(1, n.a[1]) /\ Same
                       ELSE Ret(0) /\ env' = [env EXCEPT ![n.id] = rv[1] % 256] /\ UNCHANGED <<i, tr, live, born, uw, st>>
    [] n.k = "if" ->
         IF first THEN Push(1, n.a[1]) /\ Same
         ELSE IF f.s = 2 THEN Ret(0) /\ Same
         ELSE IF rv[1] # 0 THEN PushS(2, n.a[2])
         ELSE IF Len(n.a) = 3 THEN PushS(2, n.a[3]) ELSE Ret(0) /\ Same
    [] n.k = "while" ->
         IF first \/ f.s = 2 THEN Push(1, n.a[1]) /\ Same
         ELSE IF rv[1] # 0 THEN PushS(2, n.a[2]) ELSE Ret(0) /\ Same
    [] n.k = "do" ->
         IF first \/ (f.s = 1 /\ rv[1] # 0) THEN PushS(2, n.a[2])
         ELSE IF f.s = 2 THEN Push(1, n.a[1]) /\ Same ELSE Ret(0) /\ Same
    [] n.k = "for" ->
         IF first THEN (IF n.a[1] # 0 THEN Push(3, n.a[1]) /\ Same ELSE ForTest /\ Same)
         ELSE IF f.s \in {3, 4} THEN ForTest /\ Same
         ELSE IF f.s = 2 THEN (IF n.a[3] # 0 THEN Push(4, n.a[3]) /\ Same ELSE ForTest /\ Same)
         ELSE IF f.s = 1 /\ rv[1] # 0 THEN PushS(2, n.a[4])
         ELSE IF f.s = 1 THEN K' = SetTop([f EXCEPT !.s = 5]) /\ UNCHANGED rv /\ Same
         ELSE IF f.l # <<>> THEN EndDecl
         ELSE Ret(0) /\ Same
    [] n.k = "sw" ->
         IF first THEN Push(1, n.a[1]) /\ Same
         ELSE IF f.s = 2 THEN Ret(0) /\ Same
         ELSE LET w == Conv(n.tab[(rv[1] % Len(n.tab)) + 1], n.t)  L == CaseOf(n, w)
              IN IF L = 0 THEN Ret(0) /\ Same ELSE JumpTo(L)
    [] n.k = "brk"  -> LET d == Enclosing(Len(K), Loops \cup {"sw"}) IN Leave(d, "brk", 0)
    [] n.k = "cont" -> LET d == Enclosing(Len(K), Loops) IN Leave(d, "cont", 0)
    [] n.k = "goto" -> JumpTo(n.to)
    [] n.k = "cgoto" -> IF first THEN Push(1, n.a[1]) /\ Same ELSE JumpTo(n.ts[(rv[1] % Len(n.ts)) + 1])
    [] n.k = "ret"  -> IF first THEN Push(1, n.a[1]) /\ Same ELSE Leave(FnDepth(Len(K)), "ret", rv[1])
    [] n.k = "fn" -> IF first THEN PushS(1, n.a[1])
                     ELSE /\ Ret(rv[1]) /\ env' = Restore(f) /\ UNCHANGED <<i, tr, live, born, uw, st>>

Unwind ==
  LET u == uw[1] IN
  IF Len(K) > u.to
  THEN IF Top.l # <<>> THEN EndDecl
       ELSE K' = Pop /\ UNCHANGED <<i, rv, uw, env, tr, live, born, st>>
  ELSE CASE u.how = "brk" -> /\ uw' = <<>> /\ rv' = <<0>>
                             /\ K' = (IF N(Top.n).k = "for" THEN SetTop([Top EXCEPT !.s = 5]) ELSE Pop)
                             /\ UNCHANGED <<i, env, tr, live, born, st>>
         [] u.how = "cont" -> uw' = <<>> /\ rv' = <<0>> /\ UNCHANGED <<i, K, env, tr, live, born, st>>
         [] u.how = "ret" -> uw' = <<>> /\ rv' = <<u.x>> /\ UNCHANGED <<i, K, env, tr, live, born, st>>
         [] u.how = "jump" ->
              IF Top.l # <<>> /\ Top.l[Len(Top.l)][1] \notin u.keep
              THEN EndDecl                               \* a variable-length array jumped back over
              ELSE /\ uw' = <<>> /\ rv' = <<>>
                   /\ K' = SetTop([Top EXCEPT !.s = u.s]) \o u.frames
                   /\ env' = FreshAll(env, [j \in 1..Len(u.frames) |-> u.frames[j].n])
                   /\ UNCHANGED <<i, tr, live, born, st>>

Init == /\ i \in 1..Len(Cases) /\ K = <<[Frame(C.main) EXCEPT !.sv = [q \in 1..Len(N(C.main).vs) |-> Undef]]>>
        /\ rv = <<>> /\ uw = <<>> /\ tr = <<>> /\ live = <<>> /\ born = 0 /\ fuel = 0 /\ st = "run"
        /\ env = [j \in 1..C.nv |-> IF j <= C.ng THEN 0 ELSE Undef]
Step == /\ st = "run" /\ K # <<>> /\ fuel < FUEL /\ fuel' = fuel + 1
        /\ IF uw # <<>> THEN Unwind
           ELSE IF N(Top.n).k \in Exprs THEN (IF N(Top.n).k = "call" /\ Top.s = 2 THEN CallReturn ELSE StepExpr)
           ELSE StepStmt
Out(w) == PrintT("@@" \o ToJson(<<i, [ok |-> w, tr |-> tr, ret |-> IF rv = <<>> THEN 0 ELSE rv[1], glob |-> [j \in 1..C.ng |-> env[j]]]>>))
Finish == /\ \/ st = "run" /\ K = <<>> /\ Out(1)
             \/ st = "run" /\ K # <<>> /\ fuel >= FUEL /\ Out(0)
             \/ st = "bad" /\ Out(0)
          /\ st' = "done" /\ UNCHANGED <<i, K, rv, uw, env, tr, live, born, fuel>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ what holds *)
RECURSIVE AllL(_)
AllL(d) == IF d = 0 THEN <<>> ELSE AllL(d - 1) \o K[d].l
(* the declarations whose scopes are open are stacked in the order they were
   passed, so ending the last one first is last-in first-out, and each ends once *)
Stacked == LET a == AllL(Len(K)) IN \A p, q \in 1..Len(a) : p < q => a[p][2] < a[q][2]
(* exactly the variable-length arrays of open scopes are allocated *)
VlaLive == LET a == AllL(Len(K))  v == {a[p][2] : p \in {z \in 1..Len(a) : N(a[z][1]).k = "vla"}} IN
           v = {live[z][3] : z \in 1..Len(live)}
(* nothing is left open at the end *)
AllClosed == K = <<>> => live = <<>>
=============================================================================
