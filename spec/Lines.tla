------------------------------- MODULE Lines -------------------------------
(* Source positions (5.1.1.2, 6.10.4): files are sequences of items that     *)
(* occupy physical lines; the machine reads them, keeping for each open file *)
(* the next physical line, the presumed-line offset and the presumed name,   *)
(* and records the presumed position of every element it passes on.  Inside  *)
(* lines spliced by backslash-newline any line of the splice is permitted.   *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
MaxDepth == 8

VARIABLES i, stk, skip, out, st
vars == <<i, stk, skip, out, st>>
Files == Cases[i].files
Top == stk[Len(stk)]
Items(f) == Files[f].items
Frame(f) == [f |-> f, pos |-> 1, phys |-> 1, delta |-> 0, name |-> Files[f].name]
SetTop(f) == [stk EXCEPT ![Len(stk)] = f]
Live == skip = 0

RECURSIVE SumH(_, _)
SumH(its, n) == IF n = 0 THEN 0 ELSE its[n].h + SumH(its, n - 1)

(* rows of a text item: the bounds of the splice each row belongs to *)
RECURSIVE Lo(_, _), Hi(_, _)
Lo(rs, k) == IF k = 1 THEN 1 ELSE IF rs[k-1].j = "splice" THEN Lo(rs, k - 1) ELSE k
Hi(rs, k) == IF rs[k].j = "splice" /\ k < Len(rs) THEN Hi(rs, k + 1) ELSE k
RowObs(rs, k, base, name) ==
  [n \in 1..Len(rs[k].els) |-> [id |-> rs[k].els[n], lo |-> base + Lo(rs, k) - 1, hi |-> base + Hi(rs, k) - 1, file |-> name]]
RECURSIVE TextObs(_, _, _, _)
TextObs(rs, k, base, name) == IF k > Len(rs) THEN <<>> ELSE RowObs(rs, k, base, name) \o TextObs(rs, k + 1, base, name)

Init == i \in 1..Len(Cases) /\ stk = <<Frame(1)>> /\ skip = 0 /\ out = <<>> /\ st = "run"

Move(f, it) == [f EXCEPT !.pos = @ + 1, !.phys = @ + it.h]
Step ==
  /\ st = "run" /\ stk # <<>>
  /\ IF Top.pos > Len(Items(Top.f))
     THEN stk' = SubSeq(stk, 1, Len(stk) - 1) /\ UNCHANGED <<skip, out, st>>
     ELSE LET it == Items(Top.f)[Top.pos]  base == Top.phys + Top.delta  m == Move(Top, it) IN
       CASE it.k = "text" -> /\ stk' = SetTop(m) /\ UNCHANGED <<skip, st>>
                             /\ out' = IF Live THEN out \o TextObs(it.rows, 1, base, Top.name) ELSE out
         [] it.k = "warn" -> /\ stk' = SetTop(m) /\ UNCHANGED <<skip, st>>
                             /\ out' = IF Live THEN Append(out, [id |-> it.id, lo |-> base, hi |-> base + it.h - 1, file |-> Top.name]) ELSE out
         [] it.k = "noop" -> stk' = SetTop(m) /\ UNCHANGED <<skip, out, st>>
         [] it.k = "skip" -> stk' = SetTop(m) /\ skip' = skip + 1 /\ UNCHANGED <<out, st>>         \* #if 0
         [] it.k = "open" -> stk' = SetTop(m) /\ skip' = (IF Live THEN 0 ELSE skip + 1) /\ UNCHANGED <<out, st>>  \* #if 1
         [] it.k = "close" -> stk' = SetTop(m) /\ skip' = (IF Live THEN 0 ELSE skip - 1) /\ UNCHANGED <<out, st>>
         [] it.k = "line" -> /\ UNCHANGED <<skip, out, st>>
                             /\ stk' = SetTop(IF Live THEN [m EXCEPT !.delta = it.n - m.phys, !.name = IF it.name = "" THEN @ ELSE it.name] ELSE m)
         [] it.k = "include" -> /\ UNCHANGED <<skip, out>>
                                /\ IF ~Live THEN stk' = SetTop(m) /\ UNCHANGED st
                                   ELSE IF Len(stk) >= MaxDepth THEN st' = "drop" /\ UNCHANGED stk
                                   ELSE stk' = Append(SetTop(m), Frame(it.f)) /\ UNCHANGED st
  /\ UNCHANGED i
Finish == /\ st = "drop" \/ (st = "run" /\ stk = <<>>)
          /\ st' = "end" /\ PrintT("@@" \o ToJson(<<i, [st |-> st, out |-> out]>>)) /\ UNCHANGED <<i, stk, skip, out>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* the physical line always is one more than the lines consumed in the file *)
Physical == \A k \in 1..Len(stk) : stk[k].phys = 1 + SumH(Items(stk[k].f), stk[k].pos - 1)
(* a file's presumed position is untouched by what it includes *)
Restored == [][\A k \in 1..(Len(stk) - 1) : k <= Len(stk') /\ (Len(stk') >= Len(stk) => stk'[k] = stk[k])]_vars
(* without #line the presumed position is the physical one *)
NoLine == (\A k \in 1..Len(Files) : \A j \in 1..Len(Items(k)) : Items(k)[j].k # "line")
            => \A k \in 1..Len(stk) : stk[k].delta = 0 /\ stk[k].name = Files[stk[k].f].name
SkipInert == [][~Live => out' = out /\ Len(stk') <= Len(stk)]_vars
=============================================================================
