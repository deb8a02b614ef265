------------------------------- MODULE Driver -------------------------------
(* The compiler driver as a state machine over inputs, phases, temporaries and
   outputs.  File contents are symbolic: running tool T on content x gives
   "T(x)", so an output's content records which phases produced it, in which
   order, from which inputs.  Every sub-process may end with success, a
   failing exit status or a signal; a failing phase is the last one that runs.
   TLC explores every choice of failure and checks the properties at the end
   of the module on all of them; each terminal state is printed and replayed
   against the real driver with stand-in phase programs.

   A case: in   : sequence of [n: name, st: stem, k: kind] where kind is what
                  the extension / -x in force selects: "c","i","S","s","o"
           mode : "E","S","c","link","syntax"
           out  : "" (no -o) | a name | "-"
           save : -save-temps
           pre  : sequence of names of files that exist before (stale content)
           bad  : "" | "nodir" (out cannot be created) | "full" (stdout full)
           ar   : sequence of [o: option, m: marker]: user options to route
           fl   : which failures to explore: sequence of outcome names          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES ci, idx, st, cur, files, temps, log, done, objs, status, plan, stdout, pc
vars == <<ci, idx, st, cur, files, temps, log, done, objs, status, plan, stdout, pc>>

C == Cases[ci]

\* the full phase sequence of a kind of input
Phases(k) == CASE k = "c" -> <<"cpp", "cc1", "as">>
               [] k = "i" -> <<"cc1", "as">>
               [] k = "S" -> <<"cpp", "as">>
               [] k = "s" -> <<"as">>
               [] OTHER   -> << >>

Rank(t) == CASE t = "cpp" -> 1 [] t = "cc1" -> 2 [] t = "as" -> 3 [] OTHER -> 4
Last(m) == CASE m = "E" -> 1 [] m = "S" -> 2 [] m = "syntax" -> 2 [] OTHER -> 3
Run(k, m) == SelectSeq(Phases(k), LAMBDA t : Rank(t) <= Last(m))
Suffix(m) == CASE m = "S" -> ".s" [] m = "c" -> ".o" [] OTHER -> ""
TmpSuffix(t) == CASE t = "cpp" -> ".i" [] t = "cc1" -> ".s" [] OTHER -> ".o"

\* which phases an option reaches
Route(o) == CASE o \in {"-D", "-D ", "-U", "-U ", "-I", "-I ", "-isystem ", "-Wp,", "-Xpreprocessor "} -> {"cpp"}
              [] o \in {"-Wc,", "-f", "-m", "-g"} -> {"cc1"}
              [] o \in {"-std=", "-O"} -> {"cpp", "cc1"}
              [] o \in {"-Wa,", "-Xassembler "} -> {"as"}
              [] o \in {"-Wl,", "-Xlinker ", "-l", "-l ", "-L", "-L "} -> {"ld"}
              [] OTHER -> {}
Args(t) == {C.ar[j].m : j \in {j \in 1..Len(C.ar) : t \in Route(C.ar[j].o)}}

Src(i) == "src:" \o C.in[i].n
Tool(t, k, x) == (IF t = "cpp" /\ k = "S" THEN "cppA" ELSE t) \o "(" \o x \o ")"
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))

Init == /\ ci \in 1..Len(Cases)
        /\ idx = 1 /\ st = 1 /\ cur = Src(1)
        /\ files = [f \in {C.pre[j] : j \in 1..Len(C.pre)} |-> "stale"]
        /\ temps = {} /\ log = << >> /\ done = << >> /\ objs = << >>
        /\ status = 0 /\ plan = << >> /\ stdout = "" /\ pc = "phase"

Put(fs, n, x) == [f \in DOMAIN fs \cup {n} |-> IF f = n THEN x ELSE fs[f]]
Del(fs, n) == [f \in DOMAIN fs \ {n} |-> fs[f]]

Outcomes == {"ok"} \cup {C.fl[j] : j \in 1..Len(C.fl)}

Seqn == Run(C.in[idx].k, C.mode)
TmpName == C.in[idx].st \o TmpSuffix(Seqn[st])

\* run the next phase of the current input, with any permitted outcome
Phase ==
  /\ pc = "phase" /\ idx <= Len(C.in) /\ st <= Len(Seqn)
  /\ \E o \in Outcomes :
       /\ log' = Append(log, <<Seqn[st], cur, Args(Seqn[st])>>)
       /\ IF o = "ok"
          THEN LET y == Tool(Seqn[st], C.in[idx].k, cur) IN
               /\ cur' = y /\ st' = st + 1
               /\ files' = (IF C.save THEN Put(files, TmpName, y) ELSE files)
               /\ temps' = (IF C.save THEN temps ELSE temps \cup {<<idx, st>>})
               /\ UNCHANGED <<plan, status, pc>>
          ELSE /\ plan' = <<Seqn[st], cur, o>>
               /\ status' = 1 /\ pc' = "cleanup"
               /\ files' = (IF C.save THEN Del(files, TmpName) ELSE files)
               /\ temps' = (IF C.save THEN temps ELSE temps \cup {<<idx, st>>})
               /\ UNCHANGED <<cur, st>>
  /\ UNCHANGED <<ci, idx, done, objs, stdout>>

\* an input whose phases are finished
NextInput ==
  /\ pc = "phase" /\ idx <= Len(C.in) /\ st > Len(Seqn)
  /\ done' = (IF Seqn # << >> THEN Append(done, <<idx, cur>>) ELSE done)
  /\ objs' = Append(objs, cur)
  /\ idx' = idx + 1 /\ st' = 1
  /\ cur' = (IF idx + 1 <= Len(C.in) THEN Src(idx + 1) ELSE "")
  /\ UNCHANGED <<ci, files, temps, log, status, plan, stdout, pc>>

OutName == IF C.out # "" THEN C.out ELSE "a.out"
Link ==
  /\ pc = "phase" /\ idx > Len(C.in) /\ C.mode = "link"
  /\ \E o \in (IF C.bad = "nodir" THEN {"exit1"} ELSE Outcomes) :
       /\ log' = Append(log, <<"ld", Join(objs), Args("ld")>>)
       /\ IF o = "ok" THEN /\ files' = Put(files, OutName, "ld(" \o Join(objs) \o ")")
                           /\ UNCHANGED <<status, plan>>
                      ELSE /\ files' = Del(files, OutName)
                           /\ status' = 1 /\ plan' = (IF C.bad = "nodir" THEN << >> ELSE <<"ld", Join(objs), o>>)
  /\ pc' = "cleanup"
  /\ UNCHANGED <<ci, idx, st, cur, temps, done, objs, stdout>>

RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN "" ELSE s[1][2] \o "\n" \o Cat(Tail(s))
RECURSIVE PutAll(_, _)
PutAll(fs, s) == IF s = << >> THEN fs
                 ELSE PutAll(Put(fs, (IF C.out # "" THEN C.out ELSE C.in[s[1][1]].st \o Suffix(C.mode)), s[1][2]), Tail(s))

\* every input went through: only now do results appear under their names
Place ==
  /\ pc = "phase" /\ idx > Len(C.in) /\ C.mode # "link"
  /\ pc' = "cleanup"
  /\ IF C.mode = "syntax" \/ done = << >> THEN UNCHANGED <<files, stdout, status>>
     ELSE IF C.bad = "nodir" THEN /\ status' = 1 /\ UNCHANGED <<files, stdout>>
     ELSE IF C.out = "-" \/ (C.out = "" /\ C.mode = "E")
          THEN IF C.bad = "full" THEN /\ status' = 1 /\ UNCHANGED <<files, stdout>>
                                 ELSE /\ stdout' = Cat(done) /\ UNCHANGED <<files, status>>
     ELSE IF C.mode = "E" THEN /\ files' = Put(files, C.out, Cat(done)) /\ UNCHANGED <<stdout, status>>
     ELSE /\ files' = PutAll(files, done) /\ UNCHANGED <<stdout, status>>
  /\ UNCHANGED <<ci, idx, st, cur, temps, log, done, objs, plan>>

Pairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
Cleanup ==
  /\ pc = "cleanup" /\ pc' = "end" /\ temps' = {}
  /\ PrintT("@@" \o ToJson(<<ci, [plan |-> plan, log |-> log, status |-> status, files |-> Pairs(files), stdout |-> stdout]>>))
  /\ UNCHANGED <<ci, idx, st, cur, files, log, done, objs, status, plan, stdout>>

Next == Phase \/ NextInput \/ Link \/ Place \/ Cleanup
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* the properties, on every behaviour
NoTemps == pc = "end" => temps = {}
FailureIsLast == \* a failed phase is the last thing that ran
   plan # << >> => /\ log[Len(log)][1] = plan[1] /\ log[Len(log)][2] = plan[2] /\ status # 0
RECURSIVE NPhases(_)
NPhases(i) == IF i = 0 THEN 0 ELSE Len(Run(C.in[i].k, C.mode)) + NPhases(i - 1)
SuccessMeansAll == \* status 0 iff all needed phases ran
   (pc = "end" /\ C.bad = "") => ((status = 0) <=> (plan = << >> /\ Len(log) = NPhases(Len(C.in)) + (IF C.mode = "link" THEN 1 ELSE 0)))
NoOutputOnFailure ==
   (pc = "end" /\ status # 0 /\ ~C.save) => \A n \in DOMAIN files : files[n] = "stale"
PhaseOrder == \* per input, the phases run in pipeline order
   \A a, b \in 1..Len(log) : (a < b /\ log[b][1] # "ld" /\ log[b][2] = log[a][2]) => FALSE
Terminates == <>(pc = "end")
=============================================================================
