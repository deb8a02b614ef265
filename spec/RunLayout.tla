------------------------------ MODULE RunLayout ------------------------------
(* Conformance runner and model check of Layout over the types in $CASES.   *)
EXTENDS Layout, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, done
vars == <<i, done>>
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET ty == Cases[i] IN
             PrintT("@@" \o ToJson(<<i, [size |-> Size(ty), align |-> Align(ty), leaves |-> Leaves(ty, 0, <<>>), subs |-> Subs(ty, 0, <<>>)]>>))
Spec == Init /\ [][Next]_vars
RECURSIVE SaneDeep(_)
SaneDeep(ty) == CASE ty.k = "p" -> TRUE
                  [] ty.k = "arr" -> SaneDeep(ty.of)
                  [] ty.k = "su" -> Sane(ty) /\ \A k \in 1..Len(ty.ms) : SaneDeep(ty.ms[k].ty)
LayoutSane == done => SaneDeep(Cases[i])
(* what is read back is what was put, and nothing else changes *)
Mem0(n) == [j \in 1..n |-> (j * 37) % 256]
FieldsIndependent == done =>
  LET ty == Cases[i]  ls == Leaves(ty, 0, <<>>)  m0 == Mem0(Size(ty)) IN
  \A a \in 1..(IF Len(ls) > 6 THEN 6 ELSE Len(ls)) :
    LET m1 == PutBits(m0, ls[a].bit, ls[a].w, <<1,2,3,4,5,6,7,200>>) IN
    /\ GetBits(m1, ls[a].bit, ls[a].w) = ZExtBits(<<1,2,3,4,5,6,7,200>>, ls[a].w)
    /\ \A j \in 1..Len(m0) : (8*(j-1) + 7 < ls[a].bit \/ 8*(j-1) >= ls[a].bit + ls[a].w) => m1[j] = m0[j]
=============================================================================
