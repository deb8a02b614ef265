def sh(body): return "#!/bin/sh\nd=$(cd \"$(dirname \"$0\")\" && pwd); t=$(mktemp -d); u=/repo/src/ucc/ucc\n" + body
BUGS={
"c01-and-noop-32":{"property":"C01","needs":"a 64-bit operand with high bits set, masked by a constant whose low 32 bits are all ones","what_it_breaks":"the mask is dropped as a no-op",
 "edits":[("src/cc1/out/op.c","			return (sintegral_t)vconst->bits.val_i == -1;","			return (int)vconst->bits.val_i == -1;")],
 "demo":"long f(long a){ return a & 0xffffffffL; }\nint main(){ return f(0x500000007L) != 7; }\n"},
"c15-xor-or-prec":{"property":"C15","needs":"a #if expression mixing | and ^ without parentheses","what_it_breaks":"the two operators' precedence is swapped",
 "edits":[("src/cpp2/expr.c","	PRED_SET(xor,        7);\n	PRED_SET(or,         8);","	PRED_SET(xor,        8);\n	PRED_SET(or,         7);")],
 "demo":"#if 1 | 1 ^ 1\nint main(){ return 0; }\n#else\nint main(){ return 1; }\n#endif\n"},
"c17-deep-include-line":{"property":"C17","needs":"includes nested at least three deep","what_it_breaks":"after returning to a file at depth two, the line number restarts",
 "edits":[("src/cpp2/preproc.c","	if(file_stack_idx >= 0)\n		file_stack[file_stack_idx].line_no = current_line;","	if(file_stack_idx >= 0 && file_stack_idx < 2)\n		file_stack[file_stack_idx].line_no = current_line;")],
 "files":{"a.h":"#include \"b.h\"\n","b.h":"\n\n\n#include \"c.h\"\nint line = __LINE__;\n","c.h":"\n"},
 "demo":"#include \"a.h\"\nint main(){ return line != 5; }\n"},
"c18-angle-curdir":{"property":"C18","needs":"a header found with <> in a -I directory, that includes its neighbour with quotes","what_it_breaks":"the neighbour is looked up beside the including file",
 "edits":[("src/cpp2/directive.c","	dirname_push(udirname(final_path));","	dirname_push(is_angle ? ustrdup(curdir) : udirname(final_path));")],
 "files":{"n.h":"#define V 1\n"},
 "sh":sh("mkdir $t/i; echo '#include \"n.h\"' > $t/i/m.h; echo '#define V 0' > $t/i/n.h; cp $d/n.h $d/demo.c $t\n$u -w -I $t/i -o $t/a $t/demo.c || exit 1\ntimeout 20 $t/a\n"),
 "demo":"#include <m.h>\nint main(){ return V; }\n"},
"c26-rm-chain":{"property":"C26","needs":"removing a map entry from the middle of a collision chain of at least three","what_it_breaks":"the entry after it disappears too",
 "edits":[("src/util/dynmap.c","		i->next = p->next;\n		free(p);","		i->next = p->next ? p->next->next : NULL;\n		free(p);")],
 "files":{"m.c":"""#include <stdlib.h>
#include <stdio.h>
#include "util/dynmap.h"
static unsigned h(const int *p){ return *p & 3; }
int main(){ int k[4] = { 1, 5, 9, 13 }, i; dynmap *m = dynmap_new(int *, NULL, h);
 for(i = 0; i < 4; i++) dynmap_set(int *, int *, m, &k[i], &k[i]);
 dynmap_rm(int *, m, &k[1]);
 return !(dynmap_exists(int *, m, &k[0]) && !dynmap_exists(int *, m, &k[1]) && dynmap_exists(int *, m, &k[2]) && dynmap_exists(int *, m, &k[3])); }
"""},
 "sh":sh("gcc -w -I/repo/src -o $t/a $d/m.c /repo/src/util/dynmap.c /repo/src/util/alloc.c || exit 1\ntimeout 20 $t/a\n")},
"c21-vla-zero":{"property":"C21","needs":"-fsanitize=vla-bound and an array size of exactly zero","what_it_breaks":"not caught",
 "edits":[("src/cc1/sanitize.c","	sanitize_assert_order(vla_sz, op_gt, 0, sz_ty, octx, \"vla\");","	sanitize_assert_order(vla_sz, op_ge, 0, sz_ty, octx, \"vla\");")],
 "sh":sh("$u -w -fsanitize=vla-bound -fsanitize-error=trap -o \"$t/a\" \"$d/demo.c\" 2>/dev/null || $u -w -fsanitize=vla-bound -o \"$t/a\" \"$d/demo.c\" || exit 1\ntimeout 20 \"$t/a\" 1 || exit 1\nif timeout 20 \"$t/a\"; then exit 1; fi\nexit 0\n"),
 "demo":"int main(int argc, char **argv){ int n = argc - 1; char a[n]; return sizeof a != argc - 1; }\n"},
"c11-va-le":{"property":"C11","needs":"more variable integer arguments than fit in registers","what_it_breaks":"the first one on the stack is read from the floating save area",
 "edits":[("src/cc1/ops/__builtin_va.c","			out_op(octx,\n				op_lt,\n				gpoff_val,","			out_op(octx,\n				op_le,\n				gpoff_val,")],
 "demo":"int f(int n, ...){ __builtin_va_list l; int i, s = 0; __builtin_va_start(l, n); for(i = 0; i < n; i++) s = s * 3 + __builtin_va_arg(l, int); __builtin_va_end(l); return s; }\nint main(){ return f(7, 1, 0, 0, 0, 0, 0, 2) != 731; }\n"},
"c23-le-nan":{"property":"C23","needs":"a <= comparison with a NaN operand","what_it_breaks":"it is true",
 "edits":[("src/cc1/out/x86_64.c","		case flag_ge:\n		case flag_gt:\n			/* can skip parity checks */","		case flag_ge:\n		case flag_le:\n		case flag_gt:\n			/* can skip parity checks */")],
 "demo":"double z; int f(double a, double b){ return a <= b; }\nint main(){ double n = z / z; return f(n, 1) || f(1, n) || !f(1, 1) || !f(1, 2) || f(2, 1); }\n"},
"c14-hex-ulong-type":{"property":"C14","needs":"a hex or octal constant above LONG_MAX, whose exact type matters","what_it_breaks":"it is unsigned long long rather than unsigned long",
 "edits":[("src/cc1/ops/expr_val.c","	&& (!is_signed || can_change_sign || cc1_std <= STD_C89))","	&& (!is_signed || cc1_std <= STD_C89))")],
 "demo":"int main(){ return _Generic(0x8000000000000000, unsigned long: 0, default: 1); }\n"},
"c10-stret-six-ints":{"property":"C10","needs":"a call of a function that returns a large struct in memory, with exactly six integer arguments","what_it_breaks":"the sixth argument isn't passed",
 "edits":[("src/cc1/out/x86_64.c","			nints++; /* only an extra pointer arg for stret_memcpy */","			if(nints < n_call_iregs)\n				nints++; /* only an extra pointer arg for stret_memcpy */")],
 "demo":"struct s { long a[3]; }; struct s f(int a, int b, int c, int d, int e, int g){ struct s r; r.a[0] = a; r.a[1] = e; r.a[2] = g; return r; }\nint main(){ struct s r = f(1, 2, 3, 4, 5, 6); return r.a[0] != 1 || r.a[1] != 5 || r.a[2] != 6; }\n"},
"c06-vla-inner-size-slot":{"property":"C06","needs":"a VLA of two variable dimensions, whose size is used again after it was declared","what_it_breaks":"the saved size of a row overwrites the saved size of the array (same stack slot)",
 "edits":[("src/cc1/vla.c","							out_new_l(octx, arith_ty, platform_word_size()));\n\n					new_stack_ent","							out_new_l(octx, arith_ty, t->bits.array.vla_kind == VLA_STAR ? 0 : platform_word_size()));\n\n					new_stack_ent")],
 "demo":"int main(){ int n = 3, m = 5; int a[n][m]; n = m = 9; return sizeof a != 60 || sizeof a[0] != 20; }\n"},
"c09-range-copy-shared":{"property":"C09","needs":"a range designator initialising aggregates with nested aggregates, one of which is partly overridden at the inner level afterwards","what_it_breaks":"the override shows up in every element of the range",
 "edits":[("src/cc1/decl_init.c","				ret->bits.ar.inits[i] = decl_init_copy_const(di->bits.ar.inits[i]);","				ret->bits.ar.inits[i] = di->bits.ar.inits[i];")],
 "demo":"struct s { int a; struct { int x, y[2]; } b; }; struct s v[] = { [0 ... 2] = { 1, { 2, { 3, 4 } } }, [1].b.y[0] = 9 };\nint main(){ return v[0].b.y[0] != 3 || v[1].b.y[0] != 9 || v[2].b.y[0] != 3 || v[1].b.x != 2; }\n"},
"c16-trailing-empty-arg":{"property":"C16","needs":"a macro call whose last argument is empty","what_it_breaks":"the call has one argument too few",
 "edits":[("src/cpp2/eval.c","	if(anchor != ti\n	|| (ti > tokens && ti[-1]->tok == TOKEN_COMMA))","	if(anchor != ti)")],
 "demo":"#define f(a, b) sizeof(\"\" #b #a)\nint main(){ return f(1, ) != 2; }\n"},
"c22-inline-recursive-outval":{"property":"C22","needs":"inlining of a function that is reached again while it is being inlined, and changes its parameter","what_it_breaks":"the outer call's parameter is lost",
 "edits":[("src/cc1/inline.c","		sym_setoutval(s, pushed_vals[i].sym_outval);","		sym_setoutval(s, pushed_vals[i].map_val ? NULL : pushed_vals[i].sym_outval);")],
 "demo":"static int f(int n){ int r; if(n <= 0) return 1; r = f(n - 1); n += r; return n; }\nint main(){ return f(3) != 7; }\n"},
"c19-status-128":{"property":"C19","needs":"a stage that exits with a status of 128 or more, as a wrapper does when its command is killed","what_it_breaks":"the driver carries on and reports success",
 "edits":[("src/ucc/ucc_ext.c","			if(WIFEXITED(status) && (i = WEXITSTATUS(status)) != 0){","			if(WIFEXITED(status) && (i = WEXITSTATUS(status)) != 0 && i < 128){")],
 "sh":sh("chmod 755 $t; mkdir $t/bin; printf '#!/bin/sh\\nexit 137\\n' > $t/bin/as; chmod 755 $t/bin/as; cp $d/demo.c $t; cd $t\nif PATH=$t/bin:$PATH $u -w -c -o $t/o.o $t/demo.c; then exit 1; fi\nexit 0\n"),
 "demo":"int x;\n"},
}
