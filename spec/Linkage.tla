------------------------------- MODULE Linkage -------------------------------
(* What becomes of one name with linkage, declared several times: the linkage  *)
(* of each declaration follows from those before it, the definition (perhaps   *)
(* tentative, perhaps only an inline one) decides what the object file says    *)
(* about the symbol, and each use designates the name's one entity - or an     *)
(* object of its own, when a local declaration hides the name.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, i,
  link,   \* "no" (nothing declared yet), "ext", "int"
  file,   \* a declaration at file scope is visible
  def,    \* "no", "tent"ative, "init"ialised / a body
  val,    \* the value the definition gives
  extdef, \* the function definition says extern: -fvisibility leaves those alone
  whole,  \* the type is complete
  inl,    \* every declaration at file scope said inline, without extern
  anyinl, \* one said inline
  weak, vis, keep, \* attributes: weak, visibility, used
  refs,   \* references: "addr" or "call" of the entity
  uses,   \* per use: what it designates
  verdict, \* "ok", "reject", "any" (undefined: nothing is prescribed)
  fin
vars == <<c, i, link, file, def, val, extdef, whole, inl, anyinl, weak, vis, keep, refs, uses, verdict, fin>>
K == Cases[c]
D == K.items[i]
Fn == K.fn

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ link = "no" /\ file = FALSE /\ def = "no" /\ val = 0 /\ extdef = FALSE /\ whole = ~K.arr
        /\ inl = TRUE /\ anyinl = FALSE /\ weak = FALSE /\ vis = "-" /\ keep = FALSE /\ refs = {} /\ uses = <<>>
        /\ verdict = "ok" /\ fin = FALSE

(* the linkage a file scope declaration gives: C11 6.2.2p3-5 *)
DeclLink == CASE D.st = "sta" -> "int"
              [] D.st = "ext" -> IF file THEN link ELSE "ext"
              [] D.st = "none" -> IF Fn /\ file THEN link ELSE "ext"
Clash == link # "no" /\ link # DeclLink
Decl == /\ D.k = "decl"
        /\ verdict' = (IF verdict # "ok" THEN verdict
                       ELSE IF Clash THEN (IF file THEN "reject" ELSE "any") \* 6.2.2p7; a block scope declaration is no longer seen
                       ELSE IF D.def /\ def = "init" THEN "reject"            \* 6.9p3, 6.9p5
                       ELSE "ok")
        /\ link' = DeclLink /\ file' = TRUE
        /\ def' = (IF D.def THEN "init" ELSE IF def # "no" \/ Fn \/ D.st = "ext" THEN def ELSE "tent")
        /\ val' = (IF D.def THEN D.val ELSE val)
        /\ extdef' = (IF D.def THEN D.st = "ext" ELSE extdef)
        /\ whole' = (whole \/ D.def \/ D.whole)
        /\ inl' = (inl /\ D.inl /\ D.st # "ext") /\ anyinl' = (anyinl \/ D.inl)
        /\ weak' = (weak \/ D.weak) /\ vis' = (IF D.vis # "-" THEN D.vis ELSE vis) /\ keep' = (keep \/ D.used)
        /\ UNCHANGED <<refs, uses>>
(* uses, each in a function of its own *)
Touch(v, r, u) == /\ verdict' = (IF verdict = "ok" THEN v ELSE verdict) /\ refs' = refs \cup r /\ uses' = Append(uses, u)
                  /\ UNCHANGED <<file, def, val, extdef, whole, inl, anyinl, weak, vis, keep>>
Use == /\ D.k = "use" /\ UNCHANGED link                           \* { return &x; }
       /\ Touch(IF file THEN "ok" ELSE "reject", {"addr"}, "entity")
Call == /\ D.k = "call" /\ UNCHANGED link                         \* { return x(); }
        /\ Touch(IF file THEN "ok" ELSE "any", {"call"}, "value")
Block == /\ D.k = "block"                                         \* { extern int x; return &x; }
         /\ link' = (IF link = "no" THEN "ext" ELSE link)
         /\ Touch("ok", {"addr"}, "entity")
Hide == /\ D.k = "hide"                                           \* { int x; { extern int x; return &x; } }
        /\ link' = (IF link = "no" THEN "ext" ELSE link)
        /\ Touch(IF link = "int" THEN "any" ELSE "ok", {"addr"}, "entity")
Mute == /\ D.k = "mute"                                           \* { extern int x; return 0; }
        /\ link' = (IF link = "no" THEN "ext" ELSE link)
        /\ Touch("ok", {}, "none")
Local == /\ D.k = "local" /\ UNCHANGED link                       \* { static int x = val; return &x; }
         /\ Touch("ok", {}, "own")
Bad == /\ D.k \in {"badinit", "badstatic"} /\ UNCHANGED link      \* { extern int x = 3; }, { static int x(void); }
       /\ Touch("reject", {}, "none")
Step == ~fin /\ i <= Len(K.items) /\ i' = i + 1 /\ UNCHANGED <<c, fin>>
        /\ (Decl \/ Use \/ Call \/ Block \/ Hide \/ Mute \/ Local \/ Bad)

(* the symbol at the end of the translation unit *)
Defined == def # "no" /\ ~(Fn /\ link = "ext" /\ inl)
Symbol ==
  IF link = "int" THEN
     IF ~Defined THEN [where |-> "no", must |-> FALSE]
     ELSE [where |-> IF Fn THEN "text" ELSE IF def = "init" THEN "data" ELSE "bss", must |-> (refs # {} \/ keep), bind |-> "LOCAL"]
  ELSE IF Defined THEN
     [where |-> IF Fn THEN "text" ELSE IF def = "init" THEN "data" ELSE IF K.common /\ ~weak THEN "common" ELSE "bss",
      must |-> TRUE, bind |-> IF weak THEN "WEAK" ELSE "GLOBAL"]
  ELSE [where |-> "und", must |-> ("addr" \in refs \/ ("call" \in refs /\ def = "no")), bind |-> IF weak THEN "WEAK" ELSE "GLOBAL"]
Vis == IF link = "int" \/ ~Defined THEN "-" ELSE IF vis # "-" THEN vis ELSE IF Fn /\ extdef THEN "default" ELSE K.visopt
Size == IF Fn \/ ~Defined THEN 0 ELSE IF ~K.arr THEN 4 ELSE IF whole THEN 12 ELSE 4
Finish == /\ ~fin /\ i > Len(K.items) /\ fin' = TRUE
          /\ verdict' = (IF verdict = "ok" /\ ((link = "int" /\ def = "no" /\ refs # {})                  \* 6.9p3
                                            \/ (Fn /\ anyinl /\ link = "ext" /\ def = "no")               \* 6.7.4p7
                                            \/ (~Fn /\ link = "int" /\ ~whole))                           \* 6.9.2p3
                         THEN "any" ELSE verdict)
          /\ UNCHANGED <<c, i, link, file, def, val, extdef, whole, inl, anyinl, weak, vis, keep, refs, uses>>
          /\ PrintT("@@" \o ToJson(<<c, [v |-> verdict', sym |-> Symbol, vis |-> Vis, size |-> Size, uses |-> uses, val |-> val,
                                        link |-> link, defd |-> Defined, body |-> (def # "no")]>>))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == link \in {"no", "ext", "int"} /\ verdict \in {"ok", "reject", "any"}
(* linkage is decided once: later declarations inherit it, or are wrong *)
Stable == [][link # "no" /\ link' # link => verdict' # "ok"]_vars
(* a definition is never forgotten, and there is one *)
OneDef == [][def = "init" => def' = "init" /\ (val' = val \/ verdict' # "ok")]_vars
(* what is used and accepted is in the symbol table, and nothing internal is undefined *)
NoDangling == fin /\ verdict = "ok" => /\ ("addr" \in refs => Symbol.must)
                                       /\ (link = "int" => Symbol.where # "und")
                                       /\ (link = "ext" /\ def = "init" /\ ~Fn => Symbol.must /\ Symbol.where = "data")
(* only an object never initialised is common *)
CommonTent == fin => (Symbol.where = "common" => def = "tent" /\ link = "ext" /\ ~weak /\ K.common)
=============================================================================
