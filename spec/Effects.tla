------------------------------ MODULE Effects ------------------------------
(* How an expression of C is evaluated: which operands are evaluated, how     *)
(* often (once), and in what order.  An expression is a tree; operands        *)
(* without a sequence point between them may be evaluated in any order, so    *)
(* the machine is nondeterministic: at any moment any call (an "event") whose *)
(* operands have been evaluated may happen.  The programs have no conflicting *)
(* unsequenced accesses, so evaluation steps other than events commute and    *)
(* are taken as soon as they can be.                                          *)
(*                                                                            *)
(* A case carries the events recorded from the compiled program and its final *)
(* memory; Follow is the set of the machine's behaviours that show exactly    *)
(* those events.  The case is conforming iff one of them ends with that       *)
(* memory.  With tr = <<>> and free = TRUE the machine explores every order,  *)
(* and Confluent says that the order does not matter to the memory.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c,      \* the case
          s,      \* [act: activated nodes, val: their values once evaluated, mem, ok]
          i,      \* events seen so far
          log     \* those events (free mode)
vars == <<c, s, i, log>>

N(k) == Cases[k].nodes
None == [d |-> FALSE, v |-> 0]
Val(x) == [d |-> TRUE, v |-> x]
Big(v) == v > 1000000 \/ v < -1000000
B(b) == IF b THEN 1 ELSE 0

(* ------- conversion of a number to the type of an object ---------------- *)
Bits(t) == CASE t = "u8" -> 8 [] t = "s8" -> 8 [] t = "u4" -> 4 [] t = "s5" -> 5 [] t = "s16" -> 16 [] OTHER -> 0
Sgn(t) == t \in {"s8", "s5", "s16"}
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Conv(v, t) == IF t = "bool" THEN B(v # 0)
              ELSE IF Bits(t) = 0 THEN v
              ELSE LET m == P2(Bits(t)) u == v % m IN IF Sgn(t) /\ u >= m \div 2 THEN u - m ELSE u
(* a floating value that the type cannot hold has no defined conversion *)
Fits(v, t, fl) == ~fl \/ t = "bool" \/ Bits(t) = 0
                  \/ (IF Sgn(t) THEN v >= 0 - P2(Bits(t) - 1) /\ v < P2(Bits(t) - 1) ELSE v >= 0 /\ v < P2(Bits(t)))

Arith(op, a, b) == CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b
                     [] op = "==" -> B(a = b) [] op = "!=" -> B(a # b) [] op = "<" -> B(a < b)
                     [] op = ">" -> B(a > b) [] op = "<=" -> B(a <= b) [] op = ">=" -> B(a >= b)

(* ------- which operands a node needs, given the values known so far ------ *)
Strict == {"ev", "bin", "neg", "not", "mask", "conv", "elt", "rd", "srd", "asg", "cas", "inc", "sasg", "fld", "slit", "alit", "addr", "vsz", "void"}
InOrder == {"comma", "seq"}
Need(nd, val) ==
  LET a == nd.a
      done(k) == val[a[k]].d
      v(k) == val[a[k]].v
      all == {a[k] : k \in 1..Len(a)}
      upto(from) == {a[k] : k \in {j \in from..Len(a) : \A l \in 1..(j - 1) : done(l)}}
  IN CASE nd.k \in Strict -> all
       [] nd.k \in {"lit", "none"} -> {}                    \* "none": operands that are never evaluated
       [] nd.k \in InOrder -> upto(1)
       [] nd.k = "call" -> {a[k] : k \in 1..nd.n} \cup upto(nd.n + 1)   \* n arguments, then the body
       [] nd.k = "and" -> {a[1]} \cup (IF done(1) /\ v(1) # 0 THEN {a[2]} ELSE {})
       [] nd.k = "or" -> {a[1]} \cup (IF done(1) /\ v(1) = 0 THEN {a[2]} ELSE {})
       [] nd.k = "cond" -> {a[1]} \cup (IF done(1) THEN {IF v(1) # 0 THEN a[2] ELSE a[3]} ELSE {})
       [] nd.k = "elvis" -> {a[1]} \cup (IF done(1) /\ v(1) = 0 THEN {a[2]} ELSE {})
       [] nd.k = "sel" -> {a[nd.n]}                         \* _Generic, __builtin_choose_expr
       [] nd.k = "par" -> {}

(* ------- what a node does once its operands have values ------------------ *)
(* the result is [v, w, ok]: its value, the writes <<location, value>> and whether that is defined *)
Do(case, nd, st) ==
  LET x(k) == st.val[nd.a[k]].v
      fl(k) == case.nodes[nd.a[k]].f = 1
      R(v) == [v |-> v, w |-> <<>>, ok |-> ~Big(v)]
      T(l) == case.mt[l]
      Store(l, v, f, res) == [v |-> res, w |-> << <<l, Conv(v, T(l))>> >>, ok |-> Fits(v, T(l), f) /\ ~Big(v)]
      last == Len(nd.a)
  IN CASE nd.k = "lit" -> R(nd.x)
       [] nd.k = "none" -> R(nd.x)
       [] nd.k = "par" -> R(st.mem[nd.x])
       [] nd.k = "bin" -> R(Arith(nd.op, x(1), x(2)))
       [] nd.k = "neg" -> R(0 - x(1))
       [] nd.k = "not" -> R(B(x(1) = 0))
       [] nd.k = "mask" -> [R(x(1) % nd.x) EXCEPT !.ok = ~fl(1)]
       [] nd.k = "conv" -> [v |-> Conv(x(1), nd.t), w |-> <<>>, ok |-> Fits(x(1), nd.t, fl(1))]
       [] nd.k = "elt" -> [v |-> nd.x + x(1) * nd.n, w |-> <<>>, ok |-> x(1) >= 0 /\ x(1) < nd.m]    \* a location
       [] nd.k = "rd" -> R(st.mem[x(1)])
       [] nd.k = "addr" -> R((x(1) - nd.x) \div nd.n)
       [] nd.k = "srd" -> [v |-> [k \in 1..nd.n |-> st.mem[x(1) + k - 1]], w |-> <<>>, ok |-> TRUE]
       [] nd.k = "asg" -> Store(x(1), x(2), fl(2), Conv(x(2), T(x(1))))
       [] nd.k = "cas" -> LET v == Arith(nd.op, st.mem[x(1)], x(2)) IN Store(x(1), v, fl(2) \/ T(x(1)) \in {"f32", "f64"}, Conv(v, T(x(1))))
       [] nd.k = "inc" -> LET o == st.mem[x(1)] v == IF nd.op = "+" THEN o + 1 ELSE o - 1
                              w == IF T(x(1)) = "bool" THEN (IF nd.op = "+" THEN 1 ELSE 1 - o) ELSE v
                          IN Store(x(1), w, FALSE, IF nd.n = 1 THEN Conv(w, T(x(1))) ELSE o)
       [] nd.k = "sasg" -> [v |-> x(2), w |-> [k \in 1..nd.n |-> <<x(1) + k - 1, x(2)[k]>>], ok |-> TRUE]
       [] nd.k = "fld" -> R(x(1)[nd.n])
       [] nd.k = "slit" -> [v |-> [k \in 1..last |-> Conv(x(k), nd.ts[k])], w |-> <<>>, ok |-> \A k \in 1..last : Fits(x(k), nd.ts[k], fl(k))]
       [] nd.k = "alit" -> [v |-> LET e == x(last) IN IF nd.n = 1 THEN Conv(x(1), nd.t) ELSE Conv(x(e + 1), nd.t), w |-> <<>>,
                            ok |-> \A k \in 1..(last - 1) : Fits(x(k), nd.t, fl(k))]
       [] nd.k = "vsz" -> R(x(1) * nd.n)
       [] nd.k = "void" -> R(0)
       [] nd.k \in {"comma", "seq", "call"} -> [v |-> x(last), w |-> <<>>, ok |-> TRUE]
       [] nd.k = "and" -> R(IF x(1) = 0 THEN 0 ELSE B(x(2) # 0))
       [] nd.k = "or" -> R(IF x(1) # 0 THEN 1 ELSE B(x(2) # 0))
       [] nd.k = "cond" -> [v |-> IF x(1) # 0 THEN x(2) ELSE x(3), w |-> <<>>, ok |-> TRUE]
       [] nd.k = "elvis" -> R(IF x(1) # 0 THEN x(1) ELSE x(2))
       [] nd.k = "sel" -> [v |-> x(nd.n), w |-> <<>>, ok |-> TRUE]
       [] nd.k = "ev" -> R(x(1))

(* a call's arguments are stored in its parameters before its body starts *)
RECURSIVE Put(_, _)
Put(mem, w) == IF w = <<>> THEN mem ELSE Put([mem EXCEPT ![Head(w)[1]] = Head(w)[2]], Tail(w))
Enter(case, nd, st) ==
  [st EXCEPT !.mem = Put(@, [k \in 1..nd.n |-> <<nd.ps[k], Conv(st.val[nd.a[k]].v, case.mt[nd.ps[k]])>>]),
             !.ok = @ /\ \A k \in 1..nd.n : Fits(st.val[nd.a[k]].v, case.mt[nd.ps[k]], case.nodes[nd.a[k]].f = 1)]

Evaluated(nd, st) == \A m \in Need(nd, st.val) : st.val[m].d
Missing(case, st) == UNION {Need(case.nodes[n], st.val) : n \in {m \in st.act : ~st.val[m].d}} \ st.act
Ready(case, st) == {n \in st.act : ~st.val[n].d /\ Evaluated(case.nodes[n], st)}
Finish(case, n, st) == LET r == Do(case, case.nodes[n], st)
                       IN [st EXCEPT !.val[n] = Val(r.v), !.mem = Put(@, r.w), !.ok = @ /\ r.ok]
Min(S) == CHOOSE n \in S : \A m \in S : n <= m
Entering(case, st, new) == {n \in st.act : case.nodes[n].k = "call" /\ case.nodes[n].n < Len(case.nodes[n].a) /\ case.nodes[n].a[case.nodes[n].n + 1] \in new}
RECURSIVE EnterAll(_, _, _)
EnterAll(case, E, st) == IF E = {} THEN st ELSE LET n == Min(E) IN EnterAll(case, E \ {n}, Enter(case, case.nodes[n], st))
RECURSIVE Silent(_, _)
Silent(case, st) ==
  LET new == Missing(case, st) IN
  IF new # {} THEN Silent(case, [EnterAll(case, Entering(case, st, new), st) EXCEPT !.act = @ \cup new])
  ELSE LET rd == {n \in Ready(case, st) : case.nodes[n].k # "ev"}
       IN IF rd = {} THEN st ELSE Silent(case, Finish(case, Min(rd), st))

Events == {n \in Ready(Cases[c], s) : TRUE}      \* only events are left after Silent
Shown(n) == <<Cases[c].nodes[n].key, s.val[Cases[c].nodes[n].a[1]].v>>
Over == s.val[Cases[c].root].d

Init == /\ c \in 1..Len(Cases)
        /\ i = 0 /\ log = <<>>
        /\ s = Silent(Cases[c], [act |-> {Cases[c].root}, val |-> [n \in 1..Len(Cases[c].nodes) |-> None], mem |-> Cases[c].mem, ok |-> TRUE])
Step(n) == s' = Silent(Cases[c], Finish(Cases[c], n, s)) /\ i' = i + 1 /\ c' = c
Follow == /\ ~Cases[c].free
          /\ i < Len(Cases[c].tr)
          /\ \E n \in Events : Shown(n) = Cases[c].tr[i + 1] /\ Step(n)
          /\ UNCHANGED log
Free == Cases[c].free /\ \E n \in Events : Step(n) /\ log' = Append(log, Shown(n))
Next == Follow \/ Free
Spec == Init /\ [][Next]_vars

(* ------- verdicts ------------------------------------------------------- *)
Mem == [k \in 1..Len(Cases[c].fin) |-> s.mem[k]]
Good == Over /\ i = Len(Cases[c].tr) /\ Mem = Cases[c].fin
Stuck == ~Cases[c].free /\ (IF i < Len(Cases[c].tr) THEN ~\E n \in Events : Shown(n) = Cases[c].tr[i + 1] ELSE TRUE)
Verdict ==
  IF Cases[c].free THEN (Over => PrintT("@@" \o ToJson(<<c, [ok |-> s.ok, mem |-> Mem, log |-> log]>>)))
  ELSE Stuck => PrintT("@@" \o ToJson(<<c, [ok |-> s.ok, good |-> Good, at |-> i, over |-> Over, mem |-> Mem,
                                            next |-> {Shown(n) : n \in Events}]>>))
(* an operand is evaluated only when its operator asked for it, and the machine never waits for nothing *)
Asked == \A n \in s.act : s.val[n].d \/ n \in Events \/ ~Evaluated(Cases[c].nodes[n], s)
Progress == Over \/ Events # {}
=============================================================================
