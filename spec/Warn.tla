------------------------------- MODULE Warn -------------------------------
(* Warning options.  Every warning of the compiler has a level; the options   *)
(* act on the levels in the order they are given, and -Werror raises what is  *)
(* then a plain warning at the end.  A diagnostic is reported iff its level   *)
(* is not "off", it is an error iff the level is "err", and errors are what   *)
(* makes a compilation fail.  The preprocessor has warnings of its own, which *)
(* are on or off and never errors.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Kinds == {"__func__init", "__func__outside-fn", "address-of-lvalue", "address-of-packed-member", 
   "aggregate-return", "anon-tagged-struct-empty-decl", "anon-tagged-struct-extension", 
   "anon-untagged-c11-struct", "arith-funcptr", "arith-voidptr", "array-bounds", "asm-badchar", 
   "assign-enum", "assign-in-test", "attr-bad-ctor-dtor", "attr-badcleanup", 
   "attr-format-baddecl", "attr-format-unknown", "attr-noderef", "attr-nonnull", 
   "attr-nonnull-bad", "attr-nonnull-noargs", "attr-nonnull-nonptr", "attr-nonnull-noptrs", 
   "attr-nonnull-oob", "attr-nonnull-tested", "attr-printf-bad", "attr-printf-toomany", 
   "attr-printf-unknown", "attr-printf-voidptr", "attr-section-badchar", "attr-sentinel", 
   "attr-sentinel-nonvariadic", "attr-unknown-on-label", "attr-unused-used", "attr-unused-voidfn", 
   "binary-literal", "bitfield-boundary", "bitfield-onebit-int", "bitfield-promotion", 
   "bitfield-trunc", "builtin-expect-nonconst", "builtin-memset-bad", "builtin-va_arg-undefined", 
   "builtin-va_start-2nd-param", "c89-compound-literal", "c89-for-init", "c89-init-constexpr", 
   "c89-trailing-comma", "c89-vla", "call-argcount", "cast-qual", "char-subscripts", 
   "char-too-large", "comma", "compare-distinct-pointer-types", "constant-conversion", 
   "constant-large-unsigned", "covered-switch-default", "cpp-line-parsing", "dangling-else", 
   "dead-code", "declaration-noop", "designated-init", "div-zero", "duplicate-decl-specifier", 
   "embedded-flexarr", "empty-init", "empty-struct", "enum-compare", "enum-mismatch", 
   "enum-mismatch-int", "escape-char", "excess-init", "extended-offsetof", "extern-assume", 
   "extern-init", "extra-semi", "flexarr-init", "flexarr-single-member", "frame-address", 
   "free-nonheap-object", "gcc-compat", "gnu-alignof-expression", "gnu-attribute", 
   "gnu-auto-type", "gnu-case-range", "gnu-designator", "gnu-function", "gnu-label-as-value", 
   "gnu-statement-expression", "gnu-typeof", "ignored-attributes", "ignored-late-decl", 
   "ignored-qualifiers", "implicit-fallthrough", "implicit-function-declaration", "implicit-int", 
   "implicit-old-func", "incompatible-pointer-types", "incomplete-use", "init-array-range", 
   "init-missing-struct", "init-missing-struct-zero", "init-obj-discard", "init-overlong-string", 
   "init-override", "initialiser-overrides", "inline", "inline-builtin-frame-addr", 
   "int-ptr-conversion", "integer-op-promotion", "long-long", "malloc-type-mismatch", 
   "mismatch-arg", "mismatch-conditional", "mismatching-types", "missing-braces", 
   "missing-empty-struct-brace-init", "missing-prototypes", "missing-static-assert-string", 
   "missing-variable-declarations", "mixed-code-decls", "multichar", "nonstandard-array-size", 
   "nonstandard-assert", "nonstandard-init", "null-zero-literal", "omitted-param-types", 
   "operator-precedence", "overflow", "overlarge-enumerator-bitfield", "overlarge-enumerator-int", 
   "overlength-strings", "pad", "predecl-enum", "pure-inline", "qualified-fntype", 
   "restrict-non-ptr", "restrict-ptrs", "return-type", "return-undef", "return-void", 
   "shadow-compatible-local", "shadow-global", "shadow-global-sysheaders", "shadow-local", 
   "sign-compare", "sizeof-array-argument", "sizeof-pointer-memaccess", "sizeof-ptr-divide", 
   "sizeof-void", "static-array-size", "static-local-in-inline", "str-contain-nul", 
   "struct-noinstance-anon", "struct-noinstance-qualified", "switch", "switch-default", 
   "switch-enum", "switch-enum-bitmask", "sym-never-read", "sym-never-written", "system-headers", 
   "tautologic-unsigned-op", "tautological-pointer-compare", "tenative-array", "tenative-init", 
   "test-bool", "truncation", "typedef-function-impl", "typedef-redefinition", 
   "undef-string-comparison", "undefined-internal", "undefined-shift", "uninitialised", 
   "unknown-attribute", "unknown-pragmas", "unknown-sanitizers", "unknown-warning-option", 
   "unused-comma", "unused-expression", "unused-function", "unused-label", "unused-local-typedef", 
   "unused-parameter", "unused-return-value", "unused-variable", "visibility", "vla"}
Gnu == {"empty-init", "gnu-alignof-expression", "gnu-attribute", "gnu-auto-type", 
   "gnu-case-range", "gnu-label-as-value", "gnu-statement-expression", "gnu-typeof", 
   "init-array-range"}
Pedantic == {"__func__init", "attr-printf-voidptr", "binary-literal", "declaration-noop", 
   "flexarr-single-member", "nonstandard-array-size", "nonstandard-init", 
   "overlarge-enumerator-int", "overlength-strings", "return-void", "typedef-function-impl"}
NotAll == {"aggregate-return", "assign-enum", "assign-in-test", "binary-literal", 
   "bitfield-boundary", "bitfield-promotion", "comma", "covered-switch-default", 
   "enum-mismatch-int", "implicit-int", "implicit-old-func", "init-missing-struct-zero", "inline", 
   "integer-op-promotion", "missing-prototypes", "missing-variable-declarations", 
   "null-zero-literal", "overlength-strings", "pad", "pure-inline", "shadow-compatible-local", 
   "shadow-global", "shadow-global-sysheaders", "sign-compare", "switch-default", "switch-enum", 
   "sym-never-read", "system-headers", "tenative-init", "truncation", "unused-parameter", 
   "unused-return-value", "vla"}
InitOn == {"anon-tagged-struct-empty-decl", "anon-tagged-struct-extension", 
   "anon-untagged-c11-struct", "c89-compound-literal", "c89-for-init", "c89-init-constexpr", 
   "c89-trailing-comma", "c89-vla", "long-long", "mixed-code-decls", "typedef-redefinition"}
InitOff == {"char-subscripts", "integer-op-promotion", "sign-compare", "unused-function", 
   "unused-parameter", "unused-variable"}
ExtraOn == {"cast-qual", "implicit-int", "init-missing-struct", "missing-braces", 
   "unused-parameter"}
(* names for other, or several, warnings *)
Alias ==
     "enum-out-of-range" :> {"assign-enum"}
  @@ "format" :> {"attr-printf-bad", "attr-printf-toomany", "attr-printf-unknown"}
  @@ "format-extra-args" :> {"attr-printf-toomany"}
  @@ "gnu-autotype" :> {"gnu-auto-type"}
  @@ "implicit" :> {"implicit-function-declaration", "implicit-int"}
  @@ "init-missing-braces" :> {"missing-braces"}
  @@ "microsoft" :> {"anon-tagged-struct-extension"}
  @@ "microsoft-anon-tag" :> {"anon-tagged-struct-extension"}
  @@ "missing-declarations" :> {"missing-variable-declarations"}
  @@ "missing-field-initializers" :> {"init-missing-struct"}
  @@ "missing-forwards" :> {"missing-variable-declarations", "missing-prototypes"}
  @@ "padded" :> {"pad"}
  @@ "pointer-arith" :> {"arith-funcptr", "arith-voidptr", "sizeof-void"}
  @@ "pointer-bool-conversion" :> {"attr-nonnull-tested"}
  @@ "ptr-int-conversion" :> {"int-ptr-conversion"}
  @@ "shadow" :> {"shadow-global", "shadow-local"}
  @@ "shadow=compatible-local" :> {"shadow-compatible-local"}
  @@ "shadow=global" :> {"shadow-global", "shadow-local"}
  @@ "shadow=local" :> {"shadow-local"}
  @@ "strict-prototypes" :> {"implicit-old-func"}
  @@ "unused" :> {"unused-parameter", "unused-variable"}
  @@ "unused-local-typedefs" :> {"unused-local-typedef"}
CppKinds == {"undef-in-if", "undef-noop", "unused-macros", "redef", "whitespace", "trailing", "empty-arg", "paste",
   "uncalled-macro", "#warning", "backslash-newline-space", "newline-eof", "escape", "traditional"}
CppInit == {"whitespace", "trailing", "empty-arg", "paste", "#warning", "backslash-newline-space"}
CppAlias == "undef" :> {"undef-in-if", "undef-noop"}
  @@ "everything" :> CppKinds
  @@ "all" :> {"redef", "whitespace", "trailing", "paste", "#warning"}

All == Kinds \ (NotAll \cup Gnu)
Special == "all" :> All @@ "extra" :> (All \cup ExtraOn) @@ "" :> (All \cup ExtraOn) @@ "everything" :> Kinds @@ "gnu" :> Gnu
Names(n) == IF n \in DOMAIN Special THEN Special[n] ELSE IF n \in DOMAIN Alias THEN Alias[n] ELSE IF n \in Kinds THEN {n} ELSE {}
CppNames(n) == IF n \in DOMAIN CppAlias THEN CppAlias[n] ELSE IF n \in CppKinds THEN {n} ELSE {}

VARIABLES c,     \* the case
          i,     \* the next option
          lev,   \* [Kinds -> level]
          cpp,   \* the preprocessor's warnings that are on
          werror, unk, fin
vars == <<c, i, lev, cpp, werror, unk, fin>>

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ werror = FALSE /\ unk = {} /\ fin = FALSE
        /\ lev = [k \in Kinds |-> IF k \in InitOff THEN "off" ELSE IF k \in InitOn THEN "warn" ELSE IF k \in Pedantic THEN "off"
                                   ELSE IF k \in All THEN "warn" ELSE "off"]
        /\ cpp = CppInit

(* an option [o: what it does, n: the name it gives] *)
Opts == Cases[c].opts
Act(o, l) == CASE o = "on" -> "warn" [] o = "off" -> "off" [] o = "err" -> "err"
               [] o = "noerr" -> IF l = "off" THEN "off" ELSE "noerr"
Step == /\ ~fin /\ i <= Len(Opts)
        /\ i' = i + 1 /\ UNCHANGED <<c, fin>>
        /\ LET o == Opts[i] IN
           CASE o.o \in {"on", "off", "err", "noerr"} ->
                  /\ lev' = [k \in Kinds |-> IF k \in Names(o.n) THEN Act(o.o, lev[k]) ELSE lev[k]]
                  /\ cpp' = (CASE o.o = "on" -> cpp \cup CppNames(o.n) [] o.o = "off" -> cpp \ CppNames(o.n) [] OTHER -> cpp)
                  /\ unk' = (IF Names(o.n) = {} /\ (CppNames(o.n) = {} \/ o.o \in {"err", "noerr"}) THEN unk \cup {o.n} ELSE unk)
                  /\ UNCHANGED werror
             [] o.o = "werror" -> werror' = TRUE /\ UNCHANGED <<lev, cpp, unk>>
             [] o.o = "nowerror" -> werror' = FALSE /\ UNCHANGED <<lev, cpp, unk>>
             [] o.o = "w" -> lev' = [k \in Kinds |-> "off"] /\ cpp' = {} /\ UNCHANGED <<werror, unk>>
             [] o.o \in {"ped", "pederr"} ->
                  /\ lev' = [k \in Kinds |-> IF k \in Pedantic THEN (IF o.o = "ped" THEN "warn" ELSE "err") ELSE lev[k]]
                  /\ UNCHANGED <<cpp, werror, unk>>
Finish == /\ ~fin /\ i > Len(Opts) /\ fin' = TRUE
          /\ lev' = [k \in Kinds |-> IF werror /\ lev[k] = "warn" THEN "err" ELSE lev[k]]
          /\ UNCHANGED <<c, i, cpp, werror, unk>>
          /\ PrintT("@@" \o ToJson(<<c, [warn |-> {k \in Kinds : lev'[k] \in {"warn", "noerr"}}, err |-> {k \in Kinds : lev'[k] = "err"},
                            cpp |-> cpp, unk |-> unk]>>))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == lev \in [Kinds -> {"off", "warn", "err", "noerr"}] /\ cpp \subseteq CppKinds
Cur == Opts[i]
(* an option changes nothing but what it names *)
OnlyNamed == [][i' > i /\ Cur.o \in {"on", "off", "err", "noerr"} => \A k \in Kinds \ Names(Cur.n) : lev'[k] = lev[k]]_vars
(* enabling never disables, disabling never enables, -Wno-error= does neither *)
Monotone == [][i' > i /\ Cur.o \in {"on", "err", "ped", "pederr"} => \A k \in Kinds : lev[k] # "off" => lev'[k] # "off"]_vars
Disabling == [][i' > i /\ Cur.o \in {"off", "w"} => \A k \in Kinds : lev[k] = "off" => lev'[k] = "off"]_vars
NoErrorInert == [][i' > i /\ Cur.o = "noerr" => \A k \in Kinds : (lev[k] = "off") = (lev'[k] = "off")]_vars
(* -Werror concerns only how loud, never whether *)
WerrorLoud == [][fin' # fin => \A k \in Kinds : (lev[k] = "off") = (lev'[k] = "off") /\ (lev[k] = "noerr" => lev'[k] = "noerr")]_vars
=============================================================================
