----------------------------- MODULE Containers -----------------------------
(* The compiler's utility containers as abstract data types: a keyed map (dynmap)
   and a dynamic array (dynarray).  A key is an index into Keys; two keys are the
   same key when their classes are equal (map with a comparison function) or when
   they are identical (without one).  TLC either explores every history over a
   small alphabet of operations up to a depth ("all") or runs one long history
   ("seq"); the visible result of each operation and the contents afterwards are
   what the real containers must produce.

   A case: cmp   : BOOLEAN           keys compared by class or by identity
           cls   : sequence of class numbers, one for each key
           ops   : sequence of [o, k, v, i]
           all   : BOOLEAN
           depth : length of the histories to explore                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, map, arr, aux, n, hist, fin
vars == <<ci, map, arr, aux, n, hist, fin>>
C == Cases[ci]
PAD == -1        \* the filler of padinsert
NONE == 0        \* a null pointer

Same(a, b) == IF C.cmp THEN C.cls[a] = C.cls[b] ELSE a = b
\* map: set of [k, v] entries
Entry(k) == {e \in map : Same(e.k, k)}
Has(k) == Entry(k) # {}
Val(k) == (CHOOSE e \in Entry(k) : TRUE).v

InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RECURSIVE RmFirst(_, _)
RmFirst(s, x) == IF s = << >> THEN s ELSE IF Head(s) = x THEN Tail(s) ELSE <<Head(s)>> \o RmFirst(Tail(s), x)
Pads(k) == [j \in 1..k |-> PAD]

Enabled(p) == CASE p.o = "pop" -> arr # << >>
                [] p.o = "insert" -> p.i <= Len(arr)
                [] OTHER -> TRUE

Init == /\ ci \in 1..Len(Cases) /\ map = {} /\ arr = << >> /\ aux = << >> /\ n = 0 /\ hist = << >> /\ fin = FALSE

Record(idx, r) == hist' = Append(hist, [p |-> idx, r |-> r, m |-> map', a |-> arr', x |-> aux'])

MapOp(idx, p) ==
  /\ p.o \in {"set", "get", "exists", "mrm"}
  /\ UNCHANGED <<arr, aux>>
  /\ CASE p.o = "set" -> /\ map' = (IF Has(p.k) THEN (map \ Entry(p.k)) \cup {[k |-> e.k, v |-> p.v] : e \in Entry(p.k)}
                                    ELSE map \cup {[k |-> p.k, v |-> p.v]})
                         /\ Record(idx, IF Has(p.k) THEN Val(p.k) ELSE NONE)
       [] p.o = "get" -> map' = map /\ Record(idx, IF Has(p.k) THEN Val(p.k) ELSE NONE)
       [] p.o = "exists" -> map' = map /\ Record(idx, IF Has(p.k) THEN 1 ELSE 0)
       [] OTHER -> map' = map \ Entry(p.k) /\ Record(idx, IF Has(p.k) THEN Val(p.k) ELSE NONE)

ArrOp(idx, p) ==
  /\ p.o \in {"add", "prepend", "insert", "pop", "arm", "pad", "aux", "join", "joinself", "tmpjoin", "free"}
  /\ UNCHANGED map
  /\ CASE p.o = "add" -> arr' = Append(arr, p.v) /\ aux' = aux /\ Record(idx, NONE)
       [] p.o = "prepend" -> arr' = <<p.v>> \o arr /\ aux' = aux /\ Record(idx, NONE)
       [] p.o = "insert" -> arr' = InsertAt(arr, p.i, p.v) /\ aux' = aux /\ Record(idx, NONE)
       [] p.o = "pop" -> arr' = SubSeq(arr, 1, Len(arr) - 1) /\ aux' = aux /\ Record(idx, arr[Len(arr)])
       [] p.o = "arm" -> arr' = RmFirst(arr, p.v) /\ aux' = aux /\ Record(idx, NONE)
       [] p.o = "pad" -> /\ aux' = aux
                         /\ IF p.i < Len(arr)
                            THEN arr' = [arr EXCEPT ![p.i + 1] = p.v] /\ Record(idx, IF arr[p.i + 1] = PAD THEN NONE ELSE arr[p.i + 1])
                            ELSE arr' = arr \o Pads(p.i - Len(arr)) \o <<p.v>> /\ Record(idx, NONE)
       [] p.o = "aux" -> arr' = arr /\ aux' = Append(aux, p.v) /\ Record(idx, NONE)
       [] p.o = "join" -> arr' = arr \o aux /\ aux' = aux /\ Record(idx, NONE)
       [] p.o = "tmpjoin" -> arr' = arr \o aux /\ aux' = << >> /\ Record(idx, NONE)
       [] p.o = "joinself" -> arr' = arr \o arr /\ aux' = aux /\ Record(idx, NONE)
       [] OTHER -> arr' = << >> /\ aux' = aux /\ Record(idx, Len(arr))

Do(idx) == Enabled(C.ops[idx]) /\ (MapOp(idx, C.ops[idx]) \/ ArrOp(idx, C.ops[idx]))

\* one history: operations that are not enabled are passed over
Step == /\ ~fin /\ ~C.all /\ n < Len(C.ops) /\ n' = n + 1 /\ UNCHANGED <<ci, fin>>
        /\ IF Enabled(C.ops[n + 1]) THEN Do(n + 1) ELSE UNCHANGED <<map, arr, aux, hist>>
\* every history
Every == /\ ~fin /\ C.all /\ n < C.depth /\ n' = n + 1 /\ UNCHANGED <<ci, fin>>
       /\ \E idx \in 1..Len(C.ops) : Do(idx)
End == /\ ~fin /\ n = (IF C.all THEN C.depth ELSE Len(C.ops)) /\ fin' = TRUE
       /\ PrintT("@@" \o ToJson(<<ci, hist>>))
       /\ UNCHANGED <<ci, map, arr, aux, n, hist>>
Next == Step \/ Every \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* no key is in the map twice
Unique == \A a, b \in map : Same(a.k, b.k) => a = b
\* what was set last is what get returns
LastSet == \A k \in 1..Len(C.cls) :
   LET sets == {j \in 1..Len(hist) : C.ops[hist[j].p].o \in {"set", "mrm"} /\ Same(C.ops[hist[j].p].k, k)} IN
   IF sets = {} THEN ~Has(k)
   ELSE LET l == CHOOSE j \in sets : \A x \in sets : x <= j IN
        IF C.ops[hist[l].p].o = "mrm" THEN ~Has(k) ELSE Has(k) /\ Val(k) = C.ops[hist[l].p].v
\* an operation on the map leaves the other keys alone, one on the array the map
Frame == [][\A e \in map : \/ e \in map'
                           \/ Len(hist') > Len(hist) /\ C.ops[hist'[Len(hist')].p].o \in {"set", "mrm"} /\ Same(C.ops[hist'[Len(hist')].p].k, e.k)]_vars
\* pop undoes add; elements are neither lost nor duplicated except by join
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
Conserve == [][Len(hist') > Len(hist) =>
   LET p == C.ops[hist'[Len(hist')].p] IN
   p.o \in {"add", "prepend", "insert"} => \A x \in {arr'[j] : j \in 1..Len(arr')} : Count(arr', x) = Count(arr, x) + (IF x = p.v THEN 1 ELSE 0)]_vars
=============================================================================
