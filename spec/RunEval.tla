------------------------------- MODULE RunEval -------------------------------
(* Binding of CEval: one behaviour per case read from $CASES - the case is  *)
(* presented, then evaluated; the predicted result is printed for replay    *)
(* against the compiler.  TypeOK is the soundness of the evaluation rules:  *)
(* a defined result is representable in the type the rules assign.          *)
EXTENDS CEval, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, res
vars == <<i, res>>
None == [t |-> "none"]
Init == i \in 1..Len(Cases) /\ res = None
Next == /\ res = None
        /\ res' = Eval(Cases[i])
        /\ PrintT("@@" \o ToJson(<<i, res'>>))
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

TypeOK == res = None \/ res.ub \/ (InType(res.v, res.t) /\ res.t = TypeOf(Cases[i]))
=============================================================================
