------------------------------- MODULE Dwarf -------------------------------
(* What the debug information of a program has to say.  A program is a       *)
(* sequence of items laid out on lines (with #line directives and included   *)
(* files); the machine walks over it, keeping the presumed position, and the *)
(* stack of scopes.  It records                                             *)
(*   decls: [id, file, line, ext, path, die]  for each declaration, path the *)
(*          blocks around it, die describing its type, members at the         *)
(*          positions that Layout gives                                      *)
(*   obs:   [id, file, line, den]       for each observation point: where    *)
(*          its code comes from, and the declaration its name denotes there  *)
EXTENDS Layout, Sequences, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

(* ---- types.  Besides those of Layout: ptr, enum, td (typedef), q (const,  *)
(* volatile), fn, void, sref (a struct or union named, not described again)  *)
RECURSIVE Strip(_)
Strip(ty) ==
  CASE ty.k = "arr" -> [k |-> "arr", n |-> ty.n, of |-> Strip(ty.of)]
    [] ty.k = "su" -> [k |-> "su", u |-> ty.u, pk |-> ty.pk, al |-> ty.al,
                       ms |-> [j \in 1..Len(ty.ms) |-> [n |-> ty.ms[j].n, w |-> ty.ms[j].w, al |-> ty.ms[j].al, pk |-> ty.ms[j].pk, ty |-> Strip(ty.ms[j].ty)]]]
    [] ty.k = "ptr" -> [k |-> "p", t |-> "ptr"]
    [] ty.k = "enum" -> [k |-> "p", t |-> "enum"]
    [] ty.k \in {"td", "q"} -> Strip(ty.of)
    [] OTHER -> ty

Name(t) == CASE t = "bool" -> "_Bool" [] t = "char" -> "char" [] t = "schar" -> "signed char" [] t = "uchar" -> "unsigned char"
             [] t = "short" -> "short" [] t = "ushort" -> "unsigned short" [] t = "int" -> "int" [] t = "uint" -> "unsigned int"
             [] t = "long" -> "long" [] t = "ulong" -> "unsigned long" [] t = "llong" -> "long long" [] t = "ullong" -> "unsigned long long"
             [] OTHER -> t
Enc(t) == CASE t = "bool" -> "DW_ATE_boolean" [] t \in {"char", "schar"} -> "DW_ATE_signed_char" [] t = "uchar" -> "DW_ATE_unsigned_char"
            [] t \in {"float", "double"} -> "DW_ATE_float" [] IsSigned(t) -> "DW_ATE_signed" [] OTHER -> "DW_ATE_unsigned"

RECURSIVE Die(_)
Die(ty) ==
  CASE ty.k = "p" -> <<"base", Name(ty.t), Enc(ty.t), PrimSize(ty.t)>>
    [] ty.k = "void" -> <<"void">>
    [] ty.k = "ptr" -> <<"ptr", 8, Die(ty.of)>>
    [] ty.k = "arr" -> <<"arr", ty.n, Die(ty.of)>>
    [] ty.k = "sref" -> <<"sref", ty.u, ty.tag>>
    [] ty.k = "enum" -> <<"enum", ty.tag, 4, ty.es>>
    [] ty.k = "td" -> <<"td", ty.name, Die(ty.of)>>
    [] ty.k = "q" -> <<"q", ty.c, ty.v, Die(ty.of)>>
    [] ty.k = "fn" -> <<"fn", Die(ty.ret), [j \in 1..Len(ty.ps) |-> Die(ty.ps[j])]>>
    [] ty.k = "su" -> LET s == Strip(ty)  p == Placed(s).ms IN
         <<"su", ty.u, ty.tag, Size(s), [j \in 1..Len(ty.ms) |-> [n |-> ty.ms[j].n, bit |-> p[j], w |-> ty.ms[j].w, sz |-> Size(s.ms[j].ty), die |-> Die(ty.ms[j].ty)]]>>

(* ---- the walk *)
VARIABLES c, pc, at, sc, opn, decls, obs
vars == <<c, pc, at, sc, opn, decls, obs>>
Its == Cases[c].items
It == Its[pc]
Here == at[Len(at)]
Adv(n) == [at EXCEPT ![Len(at)].line = @ + n]
Top == sc[Len(sc)]
RECURSIVE Bind(_, _, _)
Bind(s, ds, j) == IF j > Len(ds) THEN s ELSE Bind([x \in DOMAIN s \cup {ds[j].name} |-> IF x = ds[j].name THEN ds[j].id ELSE s[x]], ds, j + 1)
NoNames == [x \in {} |-> 0]
RECURSIVE Find(_, _)
Find(i, x) == IF i = 0 THEN 0 ELSE IF x \in DOMAIN sc[i] THEN sc[i][x] ELSE Find(i - 1, x)
DeclsOf(ds, path) == [j \in 1..Len(ds) |-> [id |-> ds[j].id, file |-> Here.file, line |-> Here.line + ds[j].row, ext |-> Len(sc) = 1 /\ ds[j].st = "none", path |-> path, die |-> Die(ds[j].ty)]]
ObsOf(es) == [j \in 1..Len(es) |-> [id |-> es[j].id, file |-> Here.file, lo |-> Here.line + es[j].lo, hi |-> Here.line + es[j].hi, den |-> IF es[j].name = "" THEN 0 ELSE Find(Len(sc), es[j].name)]]

Init == c \in 1..Len(Cases) /\ pc = 1 /\ at = <<[file |-> Cases[c].file, line |-> 1]>> /\ sc = <<NoNames>> /\ opn = <<>> /\ decls = <<>> /\ obs = <<>>
Same == UNCHANGED <<sc, opn, decls, obs>>
Step ==
  /\ pc <= Len(Its) /\ pc' = pc + 1 /\ UNCHANGED c
  /\ CASE It.k = "blank" -> at' = Adv(It.h) /\ Same
       [] It.k = "line" -> at' = [at EXCEPT ![Len(at)] = [file |-> IF It.f = "" THEN @.file ELSE It.f, line |-> It.n]] /\ Same
       [] It.k = "enter" -> at' = Append(Adv(1), [file |-> It.f, line |-> 1]) /\ Same
       [] It.k = "leave" -> at' = SubSeq(at, 1, Len(at) - 1) /\ Same
       [] It.k = "decl" -> at' = Adv(It.h) /\ decls' = decls \o DeclsOf(It.ds, opn) /\ sc' = [sc EXCEPT ![Len(sc)] = Bind(@, It.ds, 1)] /\ UNCHANGED <<opn, obs>>
       [] It.k = "func" -> at' = Adv(It.h) /\ decls' = decls \o DeclsOf(<<It.d>>, opn) \o DeclsOf(It.ps, <<pc>>) /\ opn' = <<pc>>
                           /\ sc' = Append([sc EXCEPT ![Len(sc)] = Bind(@, <<It.d>>, 1)], Bind(NoNames, It.ps, 1)) /\ UNCHANGED obs
       [] It.k = "open" -> at' = Adv(It.h) /\ decls' = decls \o DeclsOf(It.ds, Append(opn, pc)) /\ opn' = Append(opn, pc) /\ sc' = Append(sc, Bind(NoNames, It.ds, 1)) /\ obs' = obs \o ObsOf(It.es)
       [] It.k = "close" -> at' = Adv(It.h) /\ sc' = SubSeq(sc, 1, Len(sc) - 1) /\ opn' = SubSeq(opn, 1, Len(opn) - 1) /\ UNCHANGED <<decls, obs>>
       [] It.k = "text" -> at' = Adv(It.h) /\ obs' = obs \o ObsOf(It.es) /\ UNCHANGED <<sc, opn, decls>>
  /\ (pc = Len(Its) => PrintT("@@" \o ToJson(<<c, [decls |-> decls', obs |-> obs']>>)))
Next == Step \/ (pc > Len(Its) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* ---- checked on the specification *)
Balanced == Len(sc) = Len(opn) + 1 /\ (pc > Len(Its) => Len(sc) = 1 /\ Len(at) = 1)
(* leaving an included file or a block gives back what was there *)
Restores == [][/\ Len(at') < Len(at) => at'[Len(at')] = at[Len(at) - 1]
               /\ Len(sc') < Len(sc) => \A i \in 1..Len(sc') : sc'[i] = sc[i]]_vars
(* every name observed denotes a declaration made before, and none is described twice *)
Denotes == \A j \in 1..Len(obs) : obs[j].den = 0 \/ \E d \in 1..Len(decls) : decls[d].id = obs[j].den
Distinct == \A i, j \in 1..Len(decls) : decls[i].id = decls[j].id => i = j
Terminates == <>(pc > Len(Its))
=============================================================================
