------------------------------- MODULE Include -------------------------------
(* Source file inclusion (6.10.2) with the documented search order: a quoted *)
(* name is looked for in the directory of the including file, then, as an    *)
(* angled one, in the -I directories and then the -isystem ones, in order.   *)
(* The machine keeps the stack of open files and the include guards defined, *)
(* and records the text that is passed on and the headers read by quoted     *)
(* inclusion.  Paths are sequences of components below the case's root.      *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
MaxDepth == 30
MaxOut == 150

VARIABLES i, stk, guards, out, deps, st
vars == <<i, stk, guards, out, deps, st>>
C == Cases[i]
Range(s) == {s[k] : k \in 1..Len(s)}
Dirs == Range(C.dirs) \cup {<<>>}
FileNo(p) == IF \E k \in 1..Len(C.files) : C.files[k].p = p THEN CHOOSE k \in 1..Len(C.files) : C.files[k].p = p ELSE 0

(* walking a name from a directory, component by component *)
None == <<"?none">>
RECURSIVE Walk(_, _)
Walk(d, name) ==
  IF name = <<>> THEN d
  ELSE IF d \notin Dirs THEN None
  ELSE IF Head(name) = "." THEN Walk(d, Tail(name))
  ELSE IF Head(name) = ".." THEN (IF d = <<>> THEN None ELSE Walk(SubSeq(d, 1, Len(d) - 1), Tail(name)))
  ELSE Walk(Append(d, Head(name)), Tail(name))
At(d, name) == LET p == Walk(d, name) IN IF p = None THEN 0 ELSE FileNo(p)
RECURSIVE Search(_, _, _)
Search(ds, k, name) == IF k > Len(ds) THEN 0
  ELSE LET d == Walk(C.cwd, ds[k])  f == IF d \in Dirs THEN At(d, name) ELSE 0 IN
       IF f # 0 THEN f ELSE Search(ds, k + 1, name)
DirOf(f) == SubSeq(C.files[f].p, 1, Len(C.files[f].p) - 1)
Resolve(it, from) ==
  IF it.abs THEN At(<<>>, it.name)
  ELSE LET here == IF it.angle THEN 0 ELSE At(DirOf(from), it.name) IN
       IF here # 0 THEN here ELSE Search(C.I \o C.S, 1, it.name)

Top == stk[Len(stk)]
Move == [stk EXCEPT ![Len(stk)].pos = @ + 1]
Init == /\ i \in 1..Len(Cases) /\ stk = <<[f |-> FileNo(C.main), pos |-> 1]>>
        /\ guards = {} /\ out = <<>> /\ deps = <<>> /\ st = "run"
Step ==
  /\ st = "run" /\ stk # <<>>
  /\ IF Len(out) > MaxOut THEN st' = "drop" /\ UNCHANGED <<stk, guards, out, deps>>
     ELSE IF Top.pos > Len(C.files[Top.f].items)
     THEN stk' = SubSeq(stk, 1, Len(stk) - 1) /\ UNCHANGED <<guards, out, deps, st>>
     ELSE LET it == C.files[Top.f].items[Top.pos] IN
       CASE it.k = "text" -> stk' = Move /\ out' = Append(out, it.id) /\ UNCHANGED <<guards, deps, st>>
         [] it.k = "guard" -> /\ UNCHANGED <<out, deps, st>>
              /\ IF Top.f \in guards THEN stk' = [stk EXCEPT ![Len(stk)].pos = Len(C.files[Top.f].items) + 1] /\ UNCHANGED guards
                 ELSE stk' = Move /\ guards' = guards \cup {Top.f}
         [] it.k = "has" -> /\ stk' = Move /\ UNCHANGED <<guards, deps, st>>
              /\ out' = IF Resolve(it, Top.f) # 0 THEN Append(out, it.id) ELSE out
         [] it.k = "inc" -> LET f == Resolve(it, Top.f) IN
              IF f = 0
              THEN IF C.mg THEN stk' = Move /\ deps' = Append(deps, <<"?missing", it.spell>>) /\ UNCHANGED <<guards, out, st>>
                   ELSE st' = "reject" /\ UNCHANGED <<stk, guards, out, deps>>
              ELSE IF Len(stk) > MaxDepth THEN st' = "reject" /\ UNCHANGED <<stk, guards, out, deps>>
              ELSE /\ stk' = Append(Move, [f |-> f, pos |-> 1])
                   /\ deps' = IF it.angle \/ C.files[f].p \in Range(deps) THEN deps ELSE Append(deps, C.files[f].p)
                   /\ UNCHANGED <<guards, out, st>>
  /\ UNCHANGED i
Finish == /\ st \in {"drop","reject"} \/ (st = "run" /\ stk = <<>>)
          /\ st' = "end" /\ PrintT("@@" \o ToJson(<<i, [st |-> st, out |-> out, deps |-> deps]>>))
          /\ UNCHANGED <<i, stk, guards, out, deps>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

OpenOk == \A k \in 1..Len(stk) : stk[k].f \in 1..Len(C.files)
(* dependencies are files that exist, or missing ones when that is asked for *)
DepsRead == \A k \in 1..Len(deps) : FileNo(deps[k]) # 0 \/ C.mg
(* the includer goes on exactly after the directive *)
Resumed == [][Len(stk') < Len(stk) => stk' = SubSeq(stk, 1, Len(stk'))]_vars
Below == [][\A k \in 1..(Len(stk) - 1) : Len(stk') >= k => stk'[k] = stk[k]]_vars
(* a quoted name that exists beside the includer is never taken from elsewhere *)
LocalFirst == [][(Len(stk') > Len(stk)) =>
    LET it == C.files[Top.f].items[Top.pos] IN (~it.abs /\ ~it.angle /\ At(DirOf(Top.f), it.name) # 0) => stk'[Len(stk')].f = At(DirOf(Top.f), it.name)]_vars
=============================================================================
