--------------------------------- MODULE Body ---------------------------------
(* The constraints on the statements of a function's body (6.8): a machine     *)
(* reads the items of a body in order, keeping the statements that are open,   *)
(* the labels and jumps seen, and the variably modified declarations in scope; *)
(* the verdict is whether the body is accepted, diagnosed or rejected.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, open, vm, labels, jumps, st, done
vars == <<c, pc, open, vm, labels, jumps, st, done>>
K == Cases[c]

Top == open[Len(open)]
Inner(ks) == {j \in 1..Len(open) : open[j].k \in ks}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Worst(a, b) == IF "error" \in {a, b} THEN "error" ELSE IF "any" \in {a, b} THEN "any" ELSE IF "diag" \in {a, b} THEN "diag" ELSE "ok"
(* a case's value converted to the promoted type of the controlling expression: <<"top", k>> is 2^32 - k *)
Conv(v, t) == CASE t = "unsigned" /\ v[1] = "n" /\ v[2] < 0 -> <<"top", -v[2]>>
                [] t = "int" /\ v[1] = "top" -> <<"n", -v[2]>>
                [] OTHER -> v
Overlap(a, b) == a.lo[1] = b.lo[1] /\ a.lo[2] <= b.hi[2] /\ b.lo[2] <= a.hi[2]
Frame(k, t) == [k |-> k, t |-> t, cs |-> {}, def |-> FALSE, vm |-> vm, names |-> {}]

Init == c \in 1..Len(Cases) /\ pc = 1 /\ vm = <<>> /\ open = <<[k |-> "fn", t |-> "", cs |-> {}, def |-> FALSE, vm |-> <<>>, names |-> {}]>> /\ labels = {} /\ jumps = {} /\ st = "ok" /\ done = FALSE
It == K.items[pc]
Is(k) == pc <= Len(K.items) /\ It.k = k /\ pc' = pc + 1 /\ UNCHANGED <<c, done>>
Same == UNCHANGED <<open, vm, labels, jumps>>
Verdict(s) == st' = Worst(st, s)

Open == Is("open") /\ open' = Append(open, Frame(It.w, It.t)) /\ UNCHANGED <<vm, labels, jumps, st>>
Close == Is("close") /\ vm' = Top.vm /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED <<labels, jumps, st>>
Declare == Is("decl") /\ vm' = (IF It.vm THEN Append(vm, pc) ELSE vm) /\ UNCHANGED <<labels, jumps>>
           /\ Verdict(IF It.n \in Top.names THEN "error" ELSE "ok") /\ open' = [open EXCEPT ![Len(open)].names = @ \cup {It.n}]
Visible(n) == \E j \in 1..Len(open) : n \in open[j].names
Use == Is("use") /\ Same /\ Verdict(IF Visible(It.n) THEN "ok" ELSE "error")
Case == Is("case") /\ UNCHANGED <<vm, labels, jumps>>
        /\ LET ss == Inner({"switch"}) IN
           IF ss = {} THEN Verdict("error") /\ UNCHANGED open
           ELSE LET s == Max(ss) f == open[s] r == [lo |-> Conv(It.lo, f.t), hi |-> Conv(It.hi, f.t)] IN
                /\ open' = [open EXCEPT ![s].cs = @ \cup {r}]
                /\ Verdict(Worst(IF \E x \in f.cs : Overlap(x, r) THEN "error" ELSE IF It.range /\ (r.lo[1] # r.hi[1] \/ r.lo[2] >= r.hi[2]) THEN "any" ELSE "ok",
                                 IF vm = f.vm THEN "ok" ELSE "error"))
Default == Is("default") /\ UNCHANGED <<vm, labels, jumps>>
        /\ LET ss == Inner({"switch"}) IN
           IF ss = {} THEN Verdict("error") /\ UNCHANGED open
           ELSE LET s == Max(ss) IN open' = [open EXCEPT ![s].def = TRUE] /\ Verdict(IF open[s].def \/ vm # open[s].vm THEN "error" ELSE "ok")
Break == Is("break") /\ Same /\ Verdict(IF Inner({"loop", "switch"}) = {} THEN "error" ELSE "ok")
Continue == Is("continue") /\ Same /\ Verdict(IF Inner({"loop"}) = {} THEN "error" ELSE "ok")
Label == Is("label") /\ UNCHANGED <<open, vm, jumps>> /\ labels' = labels \cup {[n |-> It.n, vm |-> vm]}
         /\ Verdict(IF \E l \in labels : l.n = It.n THEN "error" ELSE "ok")
Goto == Is("goto") /\ UNCHANGED <<open, vm, labels, st>> /\ jumps' = jumps \cup {[n |-> It.n, vm |-> vm]}
Return == Is("return") /\ Same /\ Verdict(IF It.v # (K.ret = "int") THEN "diag" ELSE "ok")
Jumps == IF \E j \in jumps : ~\E l \in labels : l.n = j.n THEN "error"
         ELSE IF \E j \in jumps, l \in labels : l.n = j.n /\ ~Prefix(l.vm, j.vm) THEN "error" ELSE "ok"
End == /\ pc > Len(K.items) /\ ~done /\ done' = TRUE /\ UNCHANGED <<c, pc, open, vm, labels, jumps>>
       /\ st' = Worst(st, Jumps) /\ PrintT("@@" \o ToJson(<<c, st'>>))
Next == Open \/ Close \/ Declare \/ Use \/ Case \/ Default \/ Break \/ Continue \/ Label \/ Goto \/ Return \/ End
Spec == Init /\ [][Next]_vars

Nested == Len(open) >= 1 /\ \A j \in 2..Len(open) : Prefix(open[j - 1].vm, open[j].vm) /\ Prefix(open[j].vm, vm)
Distinct == st = "ok" => \A j \in 1..Len(open) : \A x, y \in open[j].cs : x = y \/ ~Overlap(x, y)
Balanced == done => Len(open) = 1
(* a verdict never improves *)
Monotone == [][Worst(st, st') = st']_vars
===============================================================================
