#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

C = "src/cc1/"
prop("C01", "Compiled integer expressions compute the values C defines",
 "For every program free of undefined behaviour, an integer expression evaluated by compiled code (arithmetic, bitwise, shift, comparison, logical, conditional, assignment, compound assignment, increment/decrement, casts; all integer types including _Bool, char and 64-bit) yields exactly the value the C standard defines for x86-64 LP64 (two's complement, arithmetic right shift of negatives, truncating conversions). This holds whatever the operands are: variables of any storage, constants, array elements, struct members, call results, or nested subexpressions of any depth.",
 ["programs", "inputs"], "every well-defined integer expression over every combination of operand types, operand kinds and values",
 "A test compiles a handful of expressions with a handful of values; the product of operator x operand types x operand placement x boundary value x surrounding register pressure is unbounded.",
 [C+"ops/expr_op.c", C+"ops/expr_cast.c", C+"ops/expr_if.c", C+"ops/expr_assign_compound.c", C+"out/op.c", C+"out/x86_64.c", C+"out/virt.c", C+"out/val.c", C+"out/out.c"],
 [("operator type promotion and insertion of casts", C+"ops/expr_op.c, fold.c"), ("instruction selection for operators", C+"out/x86_64.c impl_op"), ("register allocation and spilling of in-flight values", C+"out/virt.c"), ("casts and extension", C+"out/x86_64.c impl_cast_load")],
 ["values printed by compiled programs"])
prop("C02", "Constant expressions evaluate at compile time to the same value as at run time",
 "Whenever a constant expression is evaluated by the compiler - in a static initialiser, array bound, enumerator, case label, bit-field width, _Static_assert, _Alignas, __builtin_constant_p/__builtin_choose_expr condition, or when folding an ordinary expression - the value is the one C defines for that expression's type, for every operator, type and operand value, and a constraint on it (such as a false _Static_assert or a duplicate case) is judged with exactly that value.",
 ["programs", "inputs"], "every constant expression (operators, types, literals, casts, sizeof, ?:, short-circuit) in every constant context",
 "Tests fold a few expressions; the space of constant expressions, widths and contexts is unbounded, and an error in folding silently changes the program.",
 [C+"const.c", C+"ops/expr_op.c", C+"ops/expr_cast.c", C+"ops/expr_if.c", C+"num.c", C+"ops/stmt_switch.c", C+"fold_sue.c", C+"decl_init.c"],
 [("constant folding", C+"const.c const_fold; ops/expr_op.c const_op_num"), ("constant casts", C+"ops/expr_cast.c fold_const_expr_cast"), ("uses of folded values", C+"const.c const_fold_val_i, fold_sue.c, ops/stmt_switch.c")],
 ["bytes of static objects", "sizeof arrays", "accept/reject of _Static_assert", "switch dispatch"])
prop("C03", "Every expression has the type the C standard assigns to it",
 "For every valid expression, the type the compiler gives it is the one C defines: integer promotions, usual arithmetic conversions, the type of ?: (including pointers, qualifiers and null pointer constants), pointer arithmetic, comparisons, shifts, comma, assignment, casts, literals and decay. This is what sizeof, _Generic, typeof/__auto_type, __builtin_types_compatible_p and further arithmetic on the result observe.",
 ["programs"], "every well-typed expression over arithmetic, pointer, array, function and qualified types",
 "Type rules combine over an unbounded set of operand types and nestings; tests list a few combinations.",
 [C+"ops/expr_op.c", C+"ops/expr_if.c", C+"ops/expr_cast.c", C+"ops/expr__Generic.c", C+"type.c", C+"type_nav.c", C+"type_is.c", C+"fold.c", C+"btype.c"],
 [("binary operator type promotion", C+"ops/expr_op.c op_promote_types"), ("?: result type", C+"ops/expr_if.c"), ("type comparison", C+"type.c type_cmp"), ("type construction/uniquing", C+"type_nav.c")],
 ["_Generic selection", "sizeof", "__builtin_types_compatible_p"])
prop("C04", "Side effects happen exactly once and in sequence-point order",
 "In every execution of a compiled program, each side effect and call in an evaluated expression happens exactly once, unevaluated operands (short-circuited &&/||, the unselected arm of ?:, sizeof of non-VLA, unselected _Generic) have no effect, and effects separated by a sequence point (&&, ||, ?:, comma, full expression, call entry) happen in the required order. The lvalue of a compound assignment or ++/-- and the first operand of the two-operand ?: are evaluated exactly once.",
 ["programs"], "every expression with side effects and calls, at any nesting, in any context (condition, argument, initialiser, return)",
 "The observable order depends on nesting and register pressure; tests only check some expressions' results.",
 [C+"ops/expr_op.c", C+"ops/expr_if.c", C+"ops/expr_comma.c", C+"ops/expr_assign.c", C+"ops/expr_assign_compound.c", C+"ops/expr_funcall.c", C+"ops/expr_stmt.c", C+"out/ctrl.c", C+"out/blk.c", C+"inline.c"],
 [("short-circuit code generation", C+"ops/expr_op.c, out/ctrl.c"), ("phi/merge of values", C+"out/ctrl.c out_ctrl_merge"), ("argument evaluation and register saving around calls", C+"out/x86_64.c impl_call, out/virt.c")],
 ["order and arguments of external calls made by compiled programs", "final values of variables"])
prop("C05", "Control flow follows the abstract machine for every nesting of statements",
 "For every program, the sequence of statements executed by compiled code is the one C defines: if/else, while, do, for, switch (including fallthrough, ranges, default anywhere, cases inside nested blocks, any integer type of controlling expression), break, continue, goto into and out of blocks, computed goto, statement expressions and return, in every nesting. Statements that are unreachable or have constant conditions never change this.",
 ["programs"], "every nesting of control statements and every sequence of run-time conditions",
 "Nestings and jump targets multiply; the suite samples each statement kind mostly alone.",
 [C+"ops/stmt_switch.c", C+"ops/stmt_for.c", C+"ops/stmt_while.c", C+"ops/stmt_do.c", C+"ops/stmt_if.c", C+"ops/stmt_goto.c", C+"ops/stmt_label.c", C+"ops/stmt_case_range.c", C+"ops/stmt_break.c", C+"ops/stmt_continue.c", C+"out/blk.c", C+"out/ctrl.c", C+"parse_stmt.c"],
 [("basic-block construction and flushing", C+"out/blk.c"), ("switch dispatch", C+"ops/stmt_switch.c"), ("parsing of dangling else/labels", C+"parse_stmt.c")],
 ["sequence of external calls made by compiled programs"])
prop("C06", "Leaving a scope runs its cleanups exactly once and releases its VLAs",
 "However control leaves a block - falling off the end, break, continue, goto, return, statement-expression end - the cleanup handlers of exactly the variables whose declarations were passed in the blocks being left run, each once, innermost and latest declared first, after the return value has been computed, and handlers of scopes not left do not run. Storage of variable-length arrays is released at scope exit so that loops and backward jumps do not accumulate stack, and live objects are never overlapped.",
 ["programs"], "every nesting of scopes holding cleanup variables and VLAs, and every exit path",
 "The number of exit-path/scope combinations is unbounded; the suite has a few cleanup and VLA examples.",
 [C+"ops/stmt_code.c", C+"ops/stmt_return.c", C+"ops/stmt_goto.c", C+"ops/stmt_break.c", C+"ops/stmt_for.c", C+"vla.c", C+"out/alloca.c", C+"out/stack.c"],
 [("scope leaving on jumps", C+"ops/stmt_code.c"), ("VLA stack save/restore", C+"vla.c")],
 ["order of cleanup calls", "addresses of VLAs across iterations", "contents of live objects"])
prop("C07", "Records and objects are laid out as the System V x86-64 ABI prescribes",
 "For every struct/union type the compiler accepts - nested, anonymous members, arrays, bit-fields of every width and type including zero-width and unnamed, packed and aligned attributes, _Alignas - sizeof, _Alignof and every member offset (and bit position) equal those the psABI (as implemented by GCC) defines, and every object with static or automatic storage is placed at an address satisfying its alignment.",
 ["programs"], "every record type definition and object declaration",
 "Layout is a function of an unbounded sequence of member types and attributes; tests check particular structs.",
 [C+"fold_sue.c", C+"sue.c", C+"pack.c", C+"type.c", C+"decl.c", C+"fold_sym.c", C+"out/bitfield.c"],
 [("struct layout", C+"fold_sue.c"), ("stack layout of locals", C+"fold_sym.c, out/stack.c"), ("global alignment", C+"gen_asm.c")],
 ["sizeof/_Alignof/offsetof in compiled programs", "addresses of objects", "memory image shared with gcc-compiled code"])
prop("C08", "Bit-field accesses read and write exactly their own bits",
 "A store to a bit-field (plain, compound assignment, ++/--, initialiser) changes the bits of that field only, storing the value modulo 2^width; a read yields that value zero- or sign-extended according to the field's type; and the value of the assignment expression is the value stored. All other bytes of the object and its neighbours keep their contents.",
 ["programs", "histories"], "every sequence of stores and loads on members of records with any bit-field layout",
 "Corruption shows only for particular neighbours, widths, offsets and values.",
 [C+"out/bitfield.c", C+"ops/expr_assign.c", C+"ops/expr_assign_compound.c", C+"ops/expr_struct.c", C+"decl_init.c"],
 [("mask/shift read-modify-write", C+"out/bitfield.c"), ("bit-field packing of static initialisers", C+"gen_asm.c")],
 ["memory image of the object after each store", "values read"])
prop("C09", "Initialisers give every byte of an object the value C prescribes",
 "For every initialiser - braced, brace-elided, designated (member, array, GNU range, nested, continuing after a designator), overriding earlier parts, strings, compound literals, scalars in braces - every subobject of the initialised object has exactly the value C prescribes, subobjects without an initialiser are zero, and unknown array bounds are completed to the right length; objects with static and automatic storage and compound literals agree.",
 ["programs"], "every combination of aggregate type and initialiser shape",
 "The cursor/override rules interact across nesting depth and designators; tests list a few shapes.",
 [C+"decl_init.c", C+"parse_init.c", C+"gen_asm.c", C+"ops/expr_compound_lit.c", C+"ops/stmt_code.c"],
 [("brace normalisation: current-object cursor and designators", C+"decl_init.c decl_init_brace_up"), ("static emission", C+"gen_asm.c"), ("automatic initialisation and zero fill", C+"decl_init.c decl_init_create_assignments")],
 ["object bytes at run time", "sizeof completed arrays"])
prop("C10", "Calls follow the System V calling convention in both directions",
 "For every prototype over integer, pointer and floating types and every struct/union return type the compiler accepts, compiled callers place each argument in the register or stack slot the psABI assigns (correctly extended, with the stack 16-byte aligned and %al bounding the vector registers of variadic and unprototyped calls), compiled callees read them from there, return values travel in the prescribed registers or hidden buffer, and callee-saved registers are preserved. Objects compiled by ucc and by another conforming compiler therefore interoperate.",
 ["programs", "inputs"], "every function signature and argument values, nested calls included",
 "Signatures are unbounded; tests use few signatures and mostly ucc on both sides, where matching mistakes cancel.",
 [C+"out/x86_64.c", C+"out/func.c", C+"ops/expr_funcall.c", C+"funcargs.c", C+"out/virt.c", C+"out/stack.c"],
 [("argument classification and placement", C+"out/x86_64.c impl_call"), ("parameter spill in prologue", C+"out/x86_64.c impl_func_prologue_save_call_regs"), ("struct return", C+"out/x86_64.c, gen_asm.c"), ("callee-save", C+"out/func.c, out/virt.c")],
 ["register/stack snapshot at call entry and return"])
prop("C11", "va_arg delivers the variadic arguments in order",
 "For every call to a variadic function, with any number and mix of integer, pointer and double arguments, successive va_arg (of the passed types) yield exactly the passed values in order, through register-save area and stack overflow alike; va_copy yields an independent cursor, and a va_list passed to another function (including one compiled by another compiler, e.g. vprintf) continues at the right place.",
 ["programs", "histories"], "every fixed/variadic parameter mix and every sequence of va_start/va_arg/va_copy/va_end/va_list passing",
 "The register-exhaustion points depend on the whole argument history; tests exercise a few lists.",
 [C+"ops/__builtin_va.c", C+"out/x86_64.c", C+"out/func.c"],
 [("va_arg expansion", C+"ops/__builtin_va.c"), ("register save area", C+"out/x86_64.c impl_func_prologue_save_variadic")],
 ["values delivered by va_arg"])
prop("C12", "Declarations yield exactly the symbols C's linkage rules prescribe",
 "For every sequence of file-scope and block-scope declarations and definitions of a name (extern, static, tentative, initialised, inline in C99 and gnu89 modes, weak, alias-free attributes, -fcommon, visibility), either the compiler rejects it when the C linkage rules make it ill-formed, or the object file defines, commons, references or omits that symbol with exactly the binding, visibility, size and storage those rules prescribe, and every identifier resolves to the right object.",
 ["programs", "configurations"], "every sequence of declarations of a name, under every linkage-relevant option",
 "Linkage is a state machine over declaration histories; tests contain few histories.",
 [C+"sym.c", C+"fold_sym.c", C+"decl.c", C+"fold.c", C+"gen_asm.c", C+"pass1.c", C+"visibility.c", C+"out/asm.c", C+"inline.c"],
 [("symbol table merge of redeclarations", C+"fold_sym.c symtab_check"), ("emission decisions", C+"gen_asm.c"), ("inline definition rules", C+"decl.c decl_should_emit_code")],
 ["symbol table of the object file", "exit status"])
prop("C13", "Identifiers refer to the innermost visible declaration",
 "In every program, each use of an identifier, tag, label, enumerator, member or typedef name denotes the entity C's scope and name-space rules select at that point - across nested blocks, parameters, for-loop and controlling-statement declarations, prototypes, shadowing of typedef names by variables and vice versa, tags declared in inner scopes, and self-reference in initialisers - and uses of names not in scope are rejected.",
 ["programs"], "every nesting of scopes and every assignment of names to declarations",
 "Name resolution faults need particular shadowing patterns; tests shadow little.",
 [C+"sym.c", C+"parse_type.c", C+"parse_stmt.c", C+"parse_expr.c", C+"sue.c", C+"label.c", C+"ops/expr_identifier.c"],
 [("scope chain lookup", C+"sym.c symtab_search_d"), ("tag lookup", C+"sue.c"), ("typedef-name versus identifier parsing", C+"parse_type.c")],
 ["values printed by compiled programs", "accept/reject"])
prop("C14", "Literals denote the values, types and bytes the standard prescribes",
 "Every integer literal (decimal, octal, hex, binary, any suffix) has the value and the first fitting type C prescribes; every character literal and string literal (all escapes, embedded NULs, wide, adjacent concatenation) has exactly the prescribed value, element type, length and bytes in the emitted object, whatever surrounds it; tokens are formed by longest match and comments act as whitespace.",
 ["inputs"], "every literal spelling and token adjacency",
 "Spellings are unbounded and each boundary (2^31, 2^32, 2^63, 3-digit octal, hex followed by hex digit) is a separate case.",
 [C+"tokenise.c", C+"tokconv.c", C+"str.c", C+"strings.c", "src/util/escape.c", C+"ops/expr_val.c", C+"ops/expr_string.c", C+"out/asm.c"],
 [("numeric literal reading and typing", C+"tokenise.c, ops/expr_val.c"), ("escapes", "src/util/escape.c"), ("string emission", C+"out/asm.c")],
 ["bytes in the object", "sizeof / _Generic of literals"])
prop("C15", "Preprocessor conditionals keep exactly the groups C selects",
 "For every nesting of #if/#ifdef/#ifndef/#elif/#else/#endif, exactly the groups selected by C's rules are processed, directives in skipped groups have no effect, ill-nested sequences are rejected, and each #if/#elif expression is evaluated with C's precedence, intmax_t/uintmax_t arithmetic, short-circuit and defined() rules after macro expansion.",
 ["inputs"], "every nesting of conditional groups and every controlling expression",
 "The state machine has unbounded nesting and the expression language is unbounded; tests fix a few.",
 ["src/cpp2/directive.c", "src/cpp2/expr.c", "src/cpp2/expr_tok.c", "src/cpp2/eval.c"],
 [("conditional stack", "src/cpp2/directive.c if_push/if_pop"), ("#if expression parser and evaluator", "src/cpp2/expr.c")],
 ["tokens surviving preprocessing", "exit status"])
prop("C16", "Macro expansion produces the token sequence C prescribes",
 "For every set of object-like, function-like and variadic macro definitions and every single-line use of them, the preprocessor's output is the token sequence C's rules give: arguments fully expanded before substitution except next to # and ##, stringising and pasting, rescanning with the surrounding tokens of the replacement, and no re-expansion of a macro inside its own expansion. #define/#undef/redefinition and -D/-U take effect exactly from their position onwards.",
 ["inputs", "histories"], "every set of macro definitions, history of #define/#undef and single-line invocation",
 "Expansion is a rewriting system; hidden-set and argument interactions need particular nestings.",
 ["src/cpp2/eval.c", "src/cpp2/macro.c", "src/cpp2/snapshot.c", "src/cpp2/tokenise.c", "src/cpp2/str.c", "src/cpp2/directive.c"],
 [("argument collection and substitution", "src/cpp2/eval.c eval_func_macro"), ("self-reference guard", "src/cpp2/eval.c, snapshot.c")],
 ["token sequence printed by ucc -E"])
prop("C17", "Line and file tracking always matches the source",
 "At every token, __LINE__, __FILE__, the position reported in diagnostics, and the line markers in preprocessed output denote the physical source line and file (as remapped by #line) that token came from - across line splices, multi-line comments, skipped groups, nested includes, directives and macro uses.",
 ["inputs", "histories"], "every sequence of line-affecting constructs across nested files",
 "A drift needs a particular combination of constructs before the observed token.",
 ["src/cpp2/preproc.c", "src/cpp2/directive.c", C+"tokenise.c", C+"cc1.c", "src/util/where.c", "src/util/warn.c"],
 [("physical line counting and marker emission", "src/cpp2/preproc.c"), ("#line / marker parsing", "src/cpp2/directive.c, "+C+"tokenise.c")],
 ["__LINE__ values", "diagnostic positions", "# line markers"])
prop("C18", "#include resolves to the right file and dependencies list exactly those read",
 "For every directory layout and sequence of -I/-isystem options, each #include (quoted, angled, macro-formed, nested, absolute) reads the file the documented search order selects, relative to the including file for quoted names; each inclusion is processed from its start with the includer's state restored afterwards; a missing file is an error; and the dependency output lists the headers that were read by quoted inclusion.",
 ["inputs", "configurations"], "every file-system layout, search path and include graph",
 "Lookup is history- and layout-dependent; tests use a couple of layouts.",
 ["src/cpp2/include.c", "src/cpp2/directive.c", "src/cpp2/deps.c", "src/cpp2/preproc.c", "src/util/path.c"],
 [("search order", "src/cpp2/include.c include_fopen"), ("include/directory stacks", "src/cpp2/preproc.c, directive.c"), ("dependency collection", "src/cpp2/deps.c")],
 ["preprocessed output", "dependency output", "exit status"])
prop("C19", "The driver runs the right phases, and failure is never reported as success",
 "For every combination of inputs (C, preprocessed, assembly, assembly-with-cpp, objects), stop phase (-E, -S, -c, link, -fsyntax-only), -o, -x and -save-temps options, and every failure of any sub-process (non-zero exit or signal) at any point, the driver runs exactly the phases those inputs need in order, later phases do not run after a failure, the exit status is zero if and only if all phases succeeded, outputs appear under the right names only on success, and all temporary files are removed.",
 ["fault_sequences", "configurations", "crash_points"], "every option/input combination and every placement of a failing sub-process",
 "Tests never inject sub-process failures and try few multi-input combinations.",
 ["src/ucc/ucc.c", "src/ucc/ucc_ext.c", "src/ucc/ucc_path.c", "src/util/tmpfile.c"],
 [("phase planning per input", "src/ucc/ucc.c create_file/gen_obj_file"), ("sub-process execution and failure handling", "src/ucc/ucc_ext.c runner"), ("temporary removal", "src/ucc/ucc.c unlink_files")],
 ["exit status", "sub-process log", "file system after the run"])
prop("C20", "Warning options decide exactly which diagnostics appear and which are fatal",
 "For every sequence of -W, -Wno-, -Werror, -Werror=, -Wno-error=, group and -w options, a construct covered by a warning is reported iff that warning is enabled by the documented processing of the sequence, it is an error iff promoted, an error (and only an error) makes compilation fail with non-zero status and no output, and diagnostics never change the code generated for accepted programs.",
 ["configurations", "histories"], "every sequence of warning options over every warning kind",
 "The option state is a history of updates; tests try single flags.",
 [C+"warn.c", C+"warnings.def", C+"cc1.c", "src/ucc/ucc.c"],
 [("warning state update", C+"warn.c warning_on/warnings_upgrade"), ("fatality at emission", C+"warn.c cc1_warn_type"), ("driver pass-through", "src/ucc/ucc.c")],
 ["stderr diagnostics", "exit status", "assembly output"])
prop("C21", "Overflow and undefined-behaviour checks trap exactly on undefined behaviour",
 "With -ftrapv or the undefined-behaviour sanitisers enabled, a program traps (or calls the configured handler) at an operation if and only if that operation has the undefined behaviour the enabled check covers - signed overflow, out-of-range shift, division by zero or overflow, out-of-bounds index, null or misaligned access, invalid bool, VLA bound, unreachable, nonnull - and otherwise computes the same values as without the option. The __builtin_*_overflow functions report overflow exactly when it occurs and always store the wrapped result.",
 ["programs", "inputs", "configurations"], "every operation, operand type and operand value under every sanitiser selection",
 "Traps depend on boundary operand values per type and operation; tests sample few.",
 [C+"sanitize.c", C+"sanitize_opt.c", C+"ops/expr_op.c", C+"out/op.c", C+"out/x86_64.c", C+"ops/__builtin.c", C+"ops/expr_deref.c", C+"vla.c"],
 [("check insertion", C+"sanitize.c"), ("overflow flag tests", C+"out/x86_64.c"), ("overflow builtins", C+"ops/__builtin.c")],
 ["trap / handler call / normal exit and values"])
prop("C22", "Code-generation options never change what a program computes",
 "Every option that only concerns code generation (-O levels, inlining, -fpic/-fpie, -fno-plt, stack protector, -fomit-frame-pointer, -g, -mno-red-zone, -mstringop-strategy, stack realignment, -fno-const-fold, -fno-thread-jumps, section/common/visibility options, -fverbose-asm, dump options), alone or combined, leaves the observable behaviour of every well-defined program unchanged; in particular an inlined call behaves as the call.",
 ["programs", "configurations"], "every program under every combination of code-generation options",
 "Tests run mostly with default options; option x program combinations are unbounded.",
 [C+"fopts.h", C+"inline.c", C+"out/x86_64.c", C+"out/func.c", C+"out/stack_protector.c", C+"out/mem.c", C+"out/lbl.c", C+"out/blk.c", C+"cc1.c", "src/ucc/ucc.c"],
 [("function inlining", C+"inline.c"), ("stack protector", C+"out/stack_protector.c"), ("memcpy/memset strategies", C+"out/mem.c"), ("PIC addressing", C+"out/x86_64.c")],
 ["behaviour of the same program under different options"])
prop("C23", "Floating conversions, comparisons and exact arithmetic are IEEE-754 correct",
 "Conversions between every integer type (64-bit unsigned included), _Bool, float and double, comparisons (including with NaN, infinities and signed zeros) and their use in conditions, and arithmetic whose result is exactly representable yield the IEEE-754/C results, at run time and in constant folding alike, in every operand placement.",
 ["programs", "inputs"], "every floating/integer type pair, operand value with exactly representable result, and context",
 "Boundary values (2^63, 2^64-1, NaN, -0.0) per type pair and context are not sampled by tests.",
 [C+"ops/expr_cast.c", C+"out/x86_64.c", C+"ops/expr_op.c", C+"out/op.c", C+"const.c", C+"num.c"],
 [("int/float conversion code", C+"out/x86_64.c impl_i2f/impl_f2i"), ("float comparison flags", C+"out/x86_64.c"), ("float constant folding", C+"ops/expr_op.c")],
 ["bit patterns printed by compiled programs"])
prop("C24", "Pointer and aggregate accesses touch exactly the designated object",
 "For every sequence of loads, stores, pointer arithmetic (+, -, difference, comparison, ++/--, compound), array indexing (multi-dimensional, VLA, negative offsets), member access and whole-aggregate copies (assignment, initialisation, return by value, through pointers), each access reads or writes exactly the bytes of the object C designates, and leaves all other memory unchanged.",
 ["programs", "histories"], "every sequence of accesses over any object graph",
 "Addressing faults need particular element sizes, offsets and copy sizes.",
 [C+"ops/expr_op.c", C+"ops/expr_deref.c", C+"ops/expr_struct.c", C+"ops/expr_assign.c", C+"ops/expr_addr.c", C+"out/mem.c", C+"out/x86_64.c", C+"out/op.c", C+"vla.c"],
 [("pointer scaling", C+"out/op.c, ops/expr_op.c"), ("aggregate copy", C+"out/mem.c"), ("address folding into operands", C+"out/virt.c, out/op.c")],
 ["memory images after each step", "values read"])
prop("C25", "Ill-formed programs are rejected and well-formed ones accepted",
 "For every assignment, initialisation, argument passing, return, comparison, cast, redeclaration and operator application over types, the compiler accepts it when C's constraints allow it and diagnoses it (error where the construct has no meaning, otherwise the documented warning) when they do not; an input that produces an error never yields an output file or a zero exit status, and no input makes the compiler crash or accept silently what it cannot compile.",
 ["programs"], "every pairing of operand types and construct",
 "The accept/reject matrix over constructed types is unbounded; tests hold isolated points.",
 [C+"type.c", C+"fold.c", C+"ops/expr_assign.c", C+"ops/expr_op.c", C+"ops/expr_cast.c", C+"ops/expr_funcall.c", C+"ops/stmt_return.c", C+"fold_sym.c"],
 [("type compatibility", C+"type.c type_cmp"), ("assignment/call checks", C+"fold.c fold_type_chk_and_cast")],
 ["exit status", "diagnostics"])
prop("C26", "Utility containers behave as the abstract map and sequence",
 "Under every history of operations the compiler's keyed map behaves as a map with the given equality (set reports and replaces an existing key, get returns the latest value, iteration visits every key once, removal removes) and its dynamic array as a sequence (add, pop, insert, remove, join), with no loss or duplication.",
 ["histories"], "every operation history, including colliding hashes and growth",
 "Unit tests run one short history.",
 ["src/util/dynmap.c", "src/util/dynarray.c"],
 [("chained hash buckets", "src/util/dynmap.c"), ("NULL-terminated vector", "src/util/dynarray.c")],
 ["return values of the operations"])
prop("C27", "Debug information describes the program and never changes its code",
 "For every program, -g leaves the machine code unchanged, the line table maps each statement's code to the line it came from, and the emitted DWARF describes each variable, parameter, type, member offset and size as the compiler laid it out.",
 ["programs"], "every program compiled with -g",
 "Tests grep fragments of assembler output for a few programs.",
 [C+"out/dbg.c", C+"out/dbg_file.c", C+"out/leb.c", C+"out/asm.c", C+"out/dbg_lbl.c"],
 [("DIE construction", C+"out/dbg.c"), ("line directives", C+"out/asm.c, out/dbg_file.c")],
 ["DWARF sections as read by readelf/gdb", "text section bytes"])
prop("C28", "Compilation is a function of its input",
 "Compiling the same source with the same options always produces byte-identical output, independent of address-space randomisation, environment, working directory, earlier runs or other inputs on the command line.",
 ["programs", "configurations"], "every program and environment",
 "A two-run property; tests run each input once (bootstrap-compare covers one program).",
 [C+"cc1.c", C+"gen_asm.c", "src/util/dynmap.c", C+"out/lbl.c"],
 [("pointer-keyed maps iterated in insertion order", "src/util/dynmap.c")],
 ["output bytes"])
prop("C29", "Malformed input never crashes the compiler",
 "For every byte sequence given as source, the preprocessor and compiler terminate with a diagnostic or an output, never by a signal, an internal error or non-termination.",
 ["inputs"], "every byte sequence",
 "Unbounded input space.",
 ["src/cpp2/preproc.c", C+"parse_expr.c", C+"parse_type.c", C+"tokenise.c", C+"fold.c"],
 [("syntax error recovery", C+"parse_stmt.c, tokenise.c")],
 ["exit status"])
prop("C30", "Format-string checking warns exactly on mismatching arguments",
 "For every printf-format function call with a literal format, -Wformat diagnoses it iff a conversion's argument is missing, superfluous, or of a type that does not match the conversion and length modifier, and accepts it otherwise.",
 ["programs"], "every format string and argument type list",
 "Conversion x length x type combinations are only sampled.",
 [C+"format_chk.c"],
 [("format scanner", C+"format_chk.c")],
 ["diagnostics"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
