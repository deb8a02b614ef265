------------------------------- MODULE Format --------------------------------
(* The scan of a printf format against the arguments of a call: a machine over *)
(* the characters of the format, which consumes the arguments in turn.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c,
  s,     \* which of the formats (those of a ?: are all checked)
  i, st, \* next character; "text", "flags", "width", "prec", "digits", "len", "conv", "done"
  len,   \* the length modifier
  stars, \* the arguments a '*' wants: of "width", "prec"
  a,     \* the next argument
  ev,    \* what is diagnosed, in order: [k: kind, must: or just may]
  fin
vars == <<c, s, i, st, len, stars, a, ev, fin>>
K == Cases[c]
Fmt == K.fmts[s]
Ch == IF i <= Len(Fmt) THEN Fmt[i] ELSE "end"
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Flags == {"#", "0", "-", " ", "+", "'"}

(* argument types, by what they are once passed *)
ToInt == {"int", "char", "schar", "uchar", "short", "ushort", "bool"}
Ptrs == {"char*", "cchar*", "schar*", "uchar*", "void*", "cvoid*", "int*", "cint*", "uint*", "short*", "long*", "llong*", "double*"}
Anyway(S) == [y |-> S, m |-> {}]
Ok(yes, maybe) == [y |-> yes, m |-> maybe]
(* what a conversion takes: y surely, m perhaps *)
Ints(l, sg) ==
  CASE l = "" -> IF sg THEN Ok(ToInt, {"enum"}) ELSE Ok({"uint"}, {"enum"} \cup (ToInt \ {"int"}))
    [] l = "hh" -> IF sg THEN Ok({"schar"}, (ToInt \cup {"uint", "enum"})) ELSE Ok({"uchar"}, (ToInt \cup {"uint", "enum"}))
    [] l = "h" -> IF sg THEN Ok({"short"}, (ToInt \cup {"uint", "enum"})) ELSE Ok({"ushort"}, (ToInt \cup {"uint", "enum"}))
    [] l = "l" -> Anyway({IF sg THEN "long" ELSE "ulong"})
    [] l = "ll" -> Anyway({IF sg THEN "llong" ELSE "ullong"})
    [] l \in {"j", "z", "t"} -> IF sg THEN Ok({"long"}, {"llong"}) ELSE Ok({"ulong"}, {"ullong"})
NPtr(l) ==
  CASE l = "" -> Ok({"int*"}, {"cint*"}) [] l = "hh" -> Ok({"schar*"}, {"char*", "uchar*", "cchar*"}) [] l = "h" -> Anyway({"short*"})
    [] l = "l" -> Anyway({"long*"}) [] l = "ll" -> Anyway({"llong*"}) [] l \in {"j", "z", "t"} -> Ok({"long*"}, {"llong*"})
Bad == [y |-> {"bad"}, m |-> {}]
None == [y |-> {"none"}, m |-> {}]
Takes(l, ch) ==
  CASE ch \in {"d", "i"} -> IF l = "L" THEN Bad ELSE Ints(l, TRUE)
    [] ch \in {"o", "u", "x", "X"} -> IF l = "L" THEN Bad ELSE Ints(l, FALSE)
    [] ch = "n" -> IF l = "L" THEN Bad ELSE NPtr(l)
    [] ch \in {"e", "E", "f", "F", "g", "G", "a", "A"} -> (CASE l \in {"", "l"} -> Anyway({"float", "double"}) [] l = "L" -> Anyway({"ldouble"}) [] OTHER -> Bad)
    [] ch = "c" -> (CASE l = "" -> Ok(ToInt, {"enum"}) [] l = "l" -> Ok(ToInt, {"uint", "enum"}) [] OTHER -> Bad)
    [] ch = "s" -> (CASE l = "" -> Ok({"char*", "cchar*"}, {"uchar*", "schar*"}) [] l = "l" -> Ok({"int*", "cint*"}, {"uint*"}) [] OTHER -> Bad)
    [] ch = "p" -> (IF l # "" THEN Bad ELSE IF K.strict THEN Ok({"void*"}, {"cvoid*"}) ELSE Anyway(Ptrs))
    [] ch \in {"%", "m"} -> IF l # "" THEN Bad ELSE None
    [] OTHER -> Bad

Init == /\ c \in 1..Len(Cases) /\ s = 1 /\ i = 1 /\ st = "text" /\ len = "" /\ stars = 0 /\ a = 1 /\ ev = <<>> /\ fin = FALSE
E(k, must) == <<[k |-> k, must |-> must]>>
Keep == UNCHANGED <<c, s, fin>>
Malformed == ev' = ev \o E("malformed", TRUE) /\ st' = "done" /\ UNCHANGED <<i, len, stars, a>>

Text == /\ st = "text" /\ Keep /\ UNCHANGED <<len, stars, a>>
        /\ CASE Ch = "end" -> st' = "done" /\ UNCHANGED i /\ ev' = (IF K.args # <<>> /\ K.check /\ a <= Len(K.args) THEN ev \o E("toomany", TRUE) ELSE ev)
             [] Ch = "%" -> st' = "flags" /\ i' = i + 1 /\ UNCHANGED ev
             [] OTHER -> i' = i + 1 /\ UNCHANGED <<st, ev>>
Start == len' = "" /\ stars' = 0
InFlags == /\ st = "flags" /\ Keep
           /\ IF Ch \in Flags THEN i' = i + 1 /\ UNCHANGED <<st, len, stars, a, ev>>
              ELSE IF Ch = "end" THEN Malformed
              ELSE st' = "width" /\ Start /\ UNCHANGED <<i, a, ev>>
Width == /\ st = "width" /\ Keep
         /\ CASE Ch = "*" -> i' = i + 1 /\ stars' = stars + 1 /\ st' = "prec" /\ UNCHANGED <<len, a, ev>>
              [] Ch \in Digits -> i' = i + 1 /\ UNCHANGED <<st, len, stars, a, ev>>
              [] Ch = "end" -> Malformed
              [] OTHER -> st' = "prec" /\ UNCHANGED <<i, len, stars, a, ev>>
Prec == /\ st = "prec" /\ Keep
        /\ CASE Ch = "." -> i' = i + 1 /\ st' = "digits" /\ UNCHANGED <<len, stars, a, ev>>
             [] Ch = "end" -> Malformed
             [] OTHER -> st' = "len" /\ UNCHANGED <<i, len, stars, a, ev>>
PDigits == /\ st = "digits" /\ Keep
           /\ CASE Ch = "*" -> i' = i + 1 /\ stars' = stars + 1 /\ st' = "len" /\ UNCHANGED <<len, a, ev>>
                [] Ch \in Digits -> i' = i + 1 /\ UNCHANGED <<st, len, stars, a, ev>>
                [] Ch = "end" -> Malformed
                [] OTHER -> st' = "len" /\ UNCHANGED <<i, len, stars, a, ev>>
LenMod == /\ st = "len" /\ Keep
          /\ IF Ch = "end" THEN Malformed
             ELSE /\ st' = "conv" /\ UNCHANGED <<stars, a, ev>>
                  /\ IF Ch \in {"h", "l"} /\ i < Len(Fmt) /\ Fmt[i + 1] = Ch THEN len' = Ch \o Ch /\ i' = i + 2
                     ELSE IF Ch \in {"h", "l", "L", "j", "z", "t"} THEN len' = Ch /\ i' = i + 1
                     ELSE len' = "" /\ UNCHANGED i
(* consume arguments: the stars', then the conversion's *)
Arg(n, want) == IF n > Len(K.args) THEN E("missing", TRUE)
                ELSE IF K.args[n] \in want.y THEN <<>>
                ELSE E("mismatch", K.args[n] \notin want.m)
Conv == /\ st = "conv" /\ Keep
        /\ LET want == IF Ch = "end" THEN Bad ELSE Takes(len, Ch)
               star == IF stars = 0 THEN <<>> ELSE IF stars = 1 THEN Arg(a, Ok(ToInt, {"enum"})) ELSE Arg(a, Ok(ToInt, {"enum"})) \o Arg(a + 1, Ok(ToInt, {"enum"}))
               n == a + stars
           IN IF want = Bad THEN Malformed
              ELSE /\ st' = "text" /\ i' = i + 1 /\ UNCHANGED <<len, stars>>
                   /\ a' = (IF want = None THEN n ELSE n + 1)
                   /\ ev' = (IF ~K.check THEN ev ELSE ev \o star \o (IF want = None THEN <<>> ELSE Arg(n, want)))
NextFmt == /\ st = "done" /\ s < Len(K.fmts) /\ s' = s + 1 /\ i' = 1 /\ a' = 1 /\ st' = "text" /\ UNCHANGED <<c, len, stars, ev, fin>>
Finish == /\ st = "done" /\ s = Len(K.fmts) /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<c, s, i, st, len, stars, a, ev>>
          /\ PrintT("@@" \o ToJson(<<c, [ev |-> ev]>>))
Next == ~fin /\ (Text \/ InFlags \/ Width \/ Prec \/ PDigits \/ LenMod \/ Conv \/ NextFmt \/ Finish)
Spec == Init /\ [][Next]_vars

TypeOK == st \in {"text", "flags", "width", "prec", "digits", "len", "conv", "done"} /\ i \in 1..(Len(Fmt) + 1) /\ stars \in 0..2
(* the scan only goes forward, arguments are consumed in order, and nothing said is taken back *)
Forward == [][s' = s => i' >= i /\ a' >= a]_vars
Growing == [][Len(ev') >= Len(ev) /\ SubSeq(ev', 1, Len(ev)) = ev]_vars
(* an argument is never both missing and superfluous *)
OneWay == Len(K.fmts) = 1 => ~((\E k \in 1..Len(ev) : ev[k].k = "missing") /\ (\E k \in 1..Len(ev) : ev[k].k = "toomany"))
(* unless told to look at the format alone *)
Unchecked == ~K.check => \A k \in 1..Len(ev) : ev[k].k = "malformed"
=============================================================================
