#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept in step with properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked and executed with TLC; conformance by "
C = {
 "C01": ("spec-evaluated expressions replayed through compiled code",
         "spec/Word+CTypes+CEval define integer evaluation (MCWord model-checks the word/type algebra); every operator x type pair and random nested expressions are evaluated by TLC and compared with the values ucc's compiled code computes. Bounded by sampling of operand values and of expression shapes."),
 "C02": ("spec-evaluated constant expressions replayed through every constant context of the compiler",
         "The same CEval module evaluates constant expressions; each is placed in one of the constant contexts (static initialisers, enumerators, array bounds, case labels, bit-field widths, _Static_assert, _Alignas, designators, address constants, folding) and the compiled program must behave as that value. Sampled."),
 "C07": ("spec-computed record layouts (TLC invariants on the layout rules) compared with sizeof/_Alignof/offsetof, addresses and bit images of compiled objects",
         "spec/Layout defines the System V record layout; TLC checks LayoutSane and FieldsIndependent on every type explored, and every size, alignment, offset and bit-field image is compared with what ucc produces. Types are random plus a width x type x start sweep of bit-fields."),
 "C08": ("spec state-machine runs of struct/bit-field reads and writes replayed through compiled code",
         "spec/StructMachine executes sequences of member reads, writes, compound assignments and increments over byte memory laid out by spec/Layout; TLC checks the frame and read-back properties in every state, and each run's values and final bytes are compared with the compiled program's. Random types and runs."),
 "C09": ("spec initialiser machine (cursor, designators, brace elision) executed by TLC, object images compared with compiled objects",
         "spec/InitMachine assigns every initialiser item to a subobject (6.7.9) and yields object bytes and which bits are defined; TLC checks TypeOK/OneMember/CursorInside in each state. Ten contexts of initialisation are compiled (static, automatic, literals, assignments, returns) and byte images compared. Random types and initialisers."),
 "C05": ("small-step statement machine executed by TLC, its traces replayed through compiled code",
         "spec/StmtMachine executes whole programs (if/switch/loops/goto/computed goto/labels/statement expressions/calls) step by step; TLC checks Stacked in every state; the event trace, return values and final globals of each behaviour must be what the compiled program produces. Random programs; unbounded loops cut by fuel."),
 "C06": ("small-step statement machine with scope-exit cleanup and VLA lifetime executed by TLC, traces replayed through compiled code",
         "The same machine with cleanup handlers and variable-length arrays; TLC checks VlaLive and AllClosed in every state; the trace of cleanups, their values and order, VLA sizes and contents must be what the compiled program produces, and VLA addresses must be stable per shape. Random programs."),
 "C22": ("machine traces and spec-evaluated expressions replayed under random combinations of code-generation options",
         "Behaviours of spec/StmtMachine (random programs, functions with inline/always_inline/noinline/static) and values of spec/CEval are required of code compiled under single options and random combinations of 27 option groups. Random sampling of programs and of option sets. Memory-copy strategies and stack realignment are covered by other checks' programs only."),
 "C15": ("spec line/conditional machine (6.10.1) executed by TLC; preprocessed output or rejection compared with the real preprocessor",
         "spec/CppCond.tla: stack of conditionals, macro table, #if expressions parsed by precedence and evaluated in intmax_t/uintmax_t with unevaluated operands; TLC checks Depth, OneGroup, Nested in every state and SkipInert on every step; each run's output tokens, or its rejection, must be what ucc -E produces. Random directive sequences and expressions; expressions with undefined behaviour are dropped."),
 "C16": ("spec rewriting system (6.10.3, Prosser's hide sets) executed by TLC; preprocessed tokens compared with the real preprocessor",
         "spec/Macro.tla: small-step macro expansion with hide sets, argument pre-expansion frames, #, ##, placemarkers, __VA_ARGS__, define/undef/-D/-U history; TLC checks HiddenStays, HideKnown, CallOk in every state, Final and Scoped on every step and Terminates (liveness) on a part of the cases. Uses on which the standard is open (nested or not) or undefined are dropped. Random macro sets and single-line uses."),
 "C21": ("TLC-evaluated sanitizer machine; programs run under trap / handler options",
         "spec/Sanitize.tla: sequences of operations with undefined behaviours; the machine traps exactly at the first operation whose behaviour an enabled sanitizer covers (TLC checks StopsExactly and Agree), and computes the overflow builtins in unbounded arithmetic. Random programs under every sanitizer option and combination; the compiled program must log the same values and stop at the same operation. Float checks and pointer-overflow are not covered."),
 "C17": ('spec position machine (5.1.1.2, 6.10.4) executed by TLC; line markers, __LINE__/__FILE__ values and diagnostic positions compared with the real preprocessor and compiler',
         'spec/Lines.tla: stack of open files with physical line, presumed offset and name; text with splices and multi-line comments, directives over several lines, skipped groups, #line, nested includes. TLC checks Physical and NoLine in every state, Restored and SkipInert on every step. Random files; within a splice any of its lines is accepted.'),
 "C18": ('spec inclusion machine (6.10.2 and the documented search order) executed by TLC; included text, rejection and dependency output compared with the real preprocessor in generated directory trees',
         'spec/Include.tla: file tree, -I/-isystem lists, stack of open files, include guards, macro-formed and absolute names, __has_include, -MM/-MG/-MD/-MF; TLC checks OpenOk, DepsRead in every state and Resumed, Below, LocalFirst on every step. Random layouts and include graphs; no symbolic links.'),
 "C19": ('spec driver state machine (phases, failures, temporaries, outputs) explored by TLC over every failure point; each behaviour replayed on the real driver with stand-in phase programs',
         "spec/Driver.tla: inputs x stop phase x options x every failing sub-process (exit status, signal, exec failure) and failing output; TLC checks NoTemps, FailureIsLast, SuccessMeansAll, NoOutputOnFailure, PhaseOrder in every state and Terminates; each terminal behaviour's process log with arguments, contents, exit status, files and temporaries must be the real driver's. The driver runs as an unprivileged user. Random command lines; failures are exhaustive per command line. Plus short-write enumeration on the real phases."),
 "C26": ('spec abstract map and sequence; every history up to a depth, and long random ones, explored by TLC and replayed on the real containers',
         "spec/Containers.tla: map keyed by equality classes, sequence with padding; TLC explores all histories to depth 5 over small alphabets (6 in thorough) and random histories of up to 60 operations, checks Unique, LastSet in every state and Frame, Conserve on every step; each operation's result and the whole contents must be those of dynmap/dynarray built from the working tree (with ASan/UBSan so that a memory error is a wrong result). Complete for those alphabets and depths, sampled beyond."),
 "C23": ('TLA+ spec (Flt/FEval: IEEE-754 on byte words) model-checked with TLC; every explored evaluation replayed into compiled programs (conformance)',
         'TLC evaluates each generated expression over all arithmetic types exactly (round-to-nearest-even, conversions, comparisons, NaN/inf/-0) and checks format laws; the compiled programs must produce the same bits, folded and at run time. Bounded: sampled operands, expression depth 4, results needing more than 64 exact bits and NaN payloads not judged; two known findings are modelled as alternative semantics.'),
 "C10": ('TLA+ state machine of argument placement checked with TLC; behaviours replayed against register and stack snapshots of compiled callers and assembly invocations of compiled callees',
         'spec/Abi.tla places each argument of a call step by step (invariants: no two arguments share a place, order, contiguity, stack only after registers, the va_list view refines the placement) and classifies returned aggregates by eightbyte; ucc-compiled callers are observed by assembly stubs, callees invoked with garbage in every undefined bit; signatures sampled, not exhausted'),
 "C11": ('TLA+ refinement between an abstract argument cursor and the psABI va_list, checked with TLC; histories replayed in compiled variadic functions',
         'spec/VaList.tla runs scripts of va_start/va_arg/va_copy/va_end/passing on over four lists on an abstract and the psABI machine in step (Refines: every list always denotes the place of the next argument); the same scripts run in functions compiled by ucc or gcc, called from and passing lists to either; signatures and histories sampled'),
 "C14": ('explicit TLA+ lexer machine (Lex.tla) checked with TLC; every token sequence and literal meaning it yields is replayed through the compiler',
         'literals and token texts generated, meanings and token boundaries computed by the model, bytes/values/types/token boundaries compared with the compiled program and with the token-per-line spelling'),
 "C04": ("TLA+ specification checked and executed with TLC; conformance by trace validation: the events and final memory recorded from each compiled program must be a behaviour of Effects.tla's nondeterministic evaluation machine; TLC also explores every order of small programs (confluence)",
         "spec/Effects.tla is a machine with one step per event, taken in any order the sequencing rules allow; generated programs (calls, assignments, ++/--, compound and struct assignments, bit-fields, floats, ?:, &&, ||, comma, statement expressions, unevaluated operands, inlining) are compiled under sampled options; each run's trace must be accepted; programs sampled by seed"),
 "C20": ('TLA+ specification of warning levels under option sequences (Warn.tla), TLC-enumerated histories replayed into the driver',
         '127 cc1 and 9 preprocessor warnings with one triggering construct each; random option sequences up to 10 options'),
 "C12": ('TLA+ state machine over declaration histories (Linkage.tla); enumerated histories replayed into the compiler, its symbol tables and linked programs compared',
         'every history of up to 3 (thorough: 4) declarations and uses of one name, random ones up to 9, with the linkage-relevant options'),
 "C30": ('TLC checks spec/Format.tla, a state machine scanning a format string; its diagnostics for every length/conversion/type triple and for generated calls are compared with what ucc reports for each call',
         "every triple of length modifier, conversion and argument type, plus random formats; TLC enumerates each call's diagnostics"),
 "C24": ('TLA+ byte-memory machine (Memory.tla) executed by TLC; its load/store/copy histories replayed through compiled code, memory images compared',
         'spec/Memory.tla holds objects as bytes and pointers as (object, offset); each step designates bytes by pointer arithmetic, indexing, member access or whole-aggregate copy; TLC checks that a step changes only the bytes it designates; values read and the memory image after each step must be those of the compiled program. Random object graphs and histories; a fixed list of expression spellings.'),
 "C03": ("TLC evaluates spec/Types.tla, a stack machine of C's typing rules, on every generated expression; its types are asserted of the compiler with typeof, _Generic and sizeof",
         "every operator on every pair of 90 kinds of operand (a sample in quick, all in thorough), and two further levels of random nesting; whether arrays decay in _Generic's control, the qualifiers of rvalue structures and the width of bit-field rvalues are not judged"),
 "C25": ("TLC evaluates spec/Types.tla's verdict (accepted, diagnosed, rejected) on every generated construct; the compiler's exit status, diagnostics and output file are compared with it",
         'operators, casts, calls, initialisations, returns, arguments, conditions over 90 kinds of operand, sampled; extensions (void arithmetic and the like) are not judged'),
 "C13": ("TLA+ (TLC) specification of C's scopes and name spaces, run on random programs of declarations and uses; the observations and rejections it gives are compared with what the compiled programs print and what the compiler rejects",
         'the scope machine (ordinary identifiers, tags, labels, members, prototypes, statement scopes, self-reference in initialisers) is explicit; programs are random over three names, so that shadowing is frequent'),
 "C27": ('TLA+ specification (spec/Dwarf.tla over spec/Layout.tla) checked with TLC, its behaviours compared with the DWARF of the compiled programs and with what they record when run; code with and without -g compared',
         'random programs: declarations, types, scopes, #line, includes, multi-line statements; PC-based scope lookup only in straight-line functions (lexical block ranges are a known finding)'),
}
NA = {
 "C28": "determinism of the compiler as a process is not a property of a state machine over the language; nothing in a specification distinguishes runs (the conformance runs of the other checks execute every input afresh)",
 "C29": "a specification of C says nothing about arbitrary byte sequences; robustness to malformed bytes is fuzzing territory, outside this technique (C25 covers ill-formed but lexically valid programs)",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C and os.path.exists(os.path.join(V, "bind", i.lower() + ".py")):
        t, note = C[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bind/%s.py" % i.lower(), "thorough_cmd": "VERIF_TIER=thorough python3 bind/%s.py" % i.lower(),
            "technique": T + t, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet in this framework (see DESIGN.md for the plan)")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
