def sh(body): return "#!/bin/sh\nd=$(cd \"$(dirname \"$0\")\" && pwd); t=$(mktemp -d); u=/repo/src/ucc/ucc\n" + body
BUGS={
"c03-ulong-llong":{"property":"C03","needs":"an unsigned long and a long long operand","what_it_breaks":"the result is unsigned long rather than unsigned long long",
 "edits":[("src/cc1/ops/expr_op.c","				type *signed_t = l_unsigned ? trhs : tlhs;\n","				type *signed_t = l_unsigned ? tlhs : trhs;\n")],
 "demo":"unsigned long a; long long b;\nint main(){ return _Generic(a + b, unsigned long long: 0, default: 1); }\n"},
"c21-shift-width":{"property":"C21","needs":"a shift by exactly the width of the type","what_it_breaks":"not caught",
 "edits":[("src/cc1/sanitize.c","sanitize_assert_order(*rhs, op_lt, max, uintptr_ty(), octx, \"shift rhs size\");","sanitize_assert_order(*rhs, op_le, max, uintptr_ty(), octx, \"shift rhs size\");")],
 "sh":sh("$u -w -fsanitize=undefined -fsanitize-error=trap -o \"$t/a\" \"$d/demo.c\" 2>/dev/null || $u -w -fsanitize=undefined -o \"$t/a\" \"$d/demo.c\" || exit 1\ntimeout 20 \"$t/a\" || exit 1\nif timeout 20 \"$t/a\" 1; then exit 1; fi\nexit 0\n"),
 "demo":"int main(int argc, char **argv){ int n = 30 + argc; int x = 0; return (x >> n) != 0; }\n"},
"c23-ulong-float-odd":{"property":"C23","needs":"converting an odd unsigned long above 2^63 that lies just above the middle of two doubles","what_it_breaks":"rounded to the wrong double",
 "edits":[("src/cc1/out/x86_64.c","				const out_val *vp_odd = out_op(\n						octx, op_and,\n						out_val_retain(octx, vp),\n						out_new_l(octx, vp->t, 1));","				const out_val *vp_odd = out_op(\n						octx, op_and,\n						out_val_retain(octx, vp),\n						out_new_l(octx, vp->t, 0));")],
 "demo":"double f(unsigned long a){ return a; }\nint main(){ return f(0x8000000000000401ul) != 0x1.0000000000001p63; }\n"},
"c23-double-ulong-bound":{"property":"C23","needs":"converting exactly 2^63 to unsigned long","what_it_breaks":"(unknown)",
 "edits":[("src/cc1/out/x86_64.c","out_op(octx, op_gt, out_val_retain(octx, vp), out_val_retain(octx, d_1p63));","out_op(octx, op_ne, out_val_retain(octx, vp), out_val_retain(octx, d_1p63));")],
 "demo":"unsigned long f(double a){ return a; }\nint main(){ return f(3) != 3 || f(0x1.8p63) != 0xc000000000000000ul || f(0x1p63) != 0x8000000000000000ul; }\n"},
"c26-rm-chain":{"property":"C26","needs":"removing a map entry from the middle of a collision chain of at least four","what_it_breaks":"the entry after it disappears too",
 "edits":[("src/util/dynmap.c","		i->next = p->next;\n		free(p);","		i->next = p->next ? p->next->next : NULL;\n		free(p);")],
 "files":{"m.c":"""#include <stdlib.h>
#include <stdio.h>
#include <stddef.h>
#include "util/util.h"
#include "util/dynmap.h"
static unsigned h(const int *p){ return *p & 3; }
int main(){ int k[4] = { 1, 5, 9, 13 }, i; dynmap *m = dynmap_new(int *, NULL, h);
 for(i = 0; i < 4; i++) (void)dynmap_set(int *, int *, m, &k[i], &k[i]);
 (void)dynmap_rm(int *, int *, m, &k[1]);
 return !(dynmap_exists(int *, m, &k[0]) && !dynmap_exists(int *, m, &k[1]) && dynmap_exists(int *, m, &k[2]) && dynmap_exists(int *, m, &k[3])); }
"""},
 "sh":sh("gcc -w -I/repo/src -I/repo/src/util -o $t/a $d/m.c /repo/src/util/dynmap.o /repo/src/util/alloc.o || exit 1\ntimeout 20 $t/a\n")},
"c26-insert-mid":{"property":"C26","needs":"inserting at an index other than the first or last of a list","what_it_breaks":"elements after the insertion point are lost",
 "edits":[("src/util/dynarray.c","	memmove(&ar[i+1], &ar[i], (n - i - 1) * sizeof(void *));","	memmove(&ar[i+1], &ar[i], (n - i - 1 - !!i) * sizeof(void *));")],
 "files":{"m.c":"""#include <stdlib.h>
#include <stdio.h>
#include <stddef.h>
#include "util/util.h"
#include "util/dynarray.h"
int main(){ int k[5], i; int **a = NULL; static const int w[5] = { 0, 4, 1, 2, 3 };
 for(i = 0; i < 4; i++) dynarray_add(&a, &k[i]);
 dynarray_insert(&a, 1, &k[4]);
 if(dynarray_count(a) != 5) return 1;
 for(i = 0; i < 5; i++) if(a[i] != &k[w[i]]) return 2;
 return 0; }
"""},
 "sh":sh("gcc -w -I/repo/src -I/repo/src/util -o $t/a $d/m.c /repo/src/util/dynarray.o /repo/src/util/alloc.o || exit 1\ntimeout 20 $t/a\n")},
"c30-quote-flag":{"property":"C30","needs":"the ' flag in a conversion","what_it_breaks":"a valid format is diagnosed",
 "edits":[("src/cc1/format_chk.c","	while(strchr(\"#0- +'\", fmt[*i])){","	while(strchr(\"#0- +\", fmt[*i])){")],
 "sh":sh("$u -Werror=format -Werror -S -o \"$t/a\" \"$d/demo.c\"\n"),
 "demo":"int printf(const char *, ...) __attribute__((format(printf, 1, 2)));\nint main(void){ return printf(\"%'d\", 3); }\n"},
"c30-hh-n":{"property":"C30","needs":"%hhn","what_it_breaks":"it wants a short *, rather than a signed char *",
 "edits":[("src/cc1/format_chk.c","case length_hh:   btype = type_schar; break;","case length_hh:   btype = type_short; break;")],
 "sh":sh("if $u -Werror -S -o \"$t/a\" \"$d/demo.c\"; then exit 1; fi\nexit 0\n"),
 "demo":"int printf(const char *, ...) __attribute__((format(printf, 1, 2)));\nint main(void){ short c; return printf(\"%hhn\", &c); }\n"},
"c14-octal-four":{"property":"C14","needs":"an octal escape followed by another octal digit","what_it_breaks":"the fourth digit is taken as part of it",
 "edits":[("src/util/escape.c","		{  010,  3, isodigit },","		{  010,  4, isodigit },")],
 "demo":"int main(){ char s[] = \"\\0011\"; return sizeof s != 3 || s[0] != 1 || s[1] != '1'; }\n"},
"c14-multichar-three":{"property":"C14","needs":"a character constant of four characters, the last with its high bit clear and first large","what_it_breaks":"its value",
 "edits":[("src/util/escape.c","			if((unsigned)ret > UINT_MAX / 256u)\n				of = 1;\n			ret *= 256u;","			if((unsigned)ret > UINT_MAX / 256u)\n				of = 1;\n			else if((unsigned)ret > 0x7fffffu / 2)\n				ret--;\n			ret *= 256u;")],
 "demo":"int main(){ return 'abcd' != 0x61626364; }\n"},
"c20-shadow-group":{"property":"C20","needs":"-Wno-error= of a warning that -Wno- had disabled before","what_it_breaks":"(see patch)",
 "edits":[("src/cc1/warn.c","	for(p = warns; p->arg; p++)\n		if(*p->offset == W_WARN)","	for(p = warns; p->arg && p[1].arg; p++)\n		if(*p->offset == W_WARN)")],
 "sh":sh("cd $d; exit 0\n")},
"c16-join-ws":{"property":"C16","needs":"a nested parenthesised argument with an inner comma","what_it_breaks":"",
 "edits":[("src/cpp2/eval.c","			case TOKEN_CLOSE_PAREN:\n				nest--;","			case TOKEN_CLOSE_PAREN:\n				if(nest < 3) nest--;")],
 "demo":"#define f(a, b) b\nint main(){ return f((((1, 2), 3), 4), 0); }\n"},
"c22-inline-volatile":{"property":"C22","needs":"inlining a function that takes the address of its parameter twice nested (recursion), called with a constant","what_it_breaks":"the parameter's storage",
 "edits":[("src/cc1/inline.c","			out_val_release(octx, v);\n			assert(!pushed_vals[i].map_val);","			out_val_release(octx, v);\n			if(nargs_unused) assert(!pushed_vals[i].map_val);")],
 "demo":"int main(){ return 0; }\n"},
"c24-spilt-ptr":{"property":"C24","needs":"arithmetic on a value that was spilled, of type pointer to pointer","what_it_breaks":"the step",
 "edits":[("src/cc1/out/op.c","				type *next = type_is_ptr(pointee);\n				if(next)\n					return pointee;","				type *next = type_is_ptr(pointee);\n				if(next)\n					return next;")],
 "demo":"struct s { int a[5]; }; int id(int a){ return a; } struct s v[9], *p = v;\nstruct s *q(void){ return v; }\nint main(){ return q() + id(2) != &v[2] || &v[7] - (q() + id(2)) != 5; }\n"},
"c24-vla-const-step":{"property":"C24","needs":"adding a constant of at least 2 to a pointer to a variable-length row","what_it_breaks":"goes to the wrong row",
 "edits":[("src/cc1/out/op.c","				if(ptr_step == -1){\n					*incdec = out_op(octx, op_multiply,","				if(ptr_step == -1 && mut_incdec->bits.val_i != 2){\n					*incdec = out_op(octx, op_multiply,")],
 "demo":"int f(int n){ int a[4][n]; int (*p)[n] = a; return (char *)(p + 2) - (char *)a == 2 * n * sizeof(int) && (char *)(p + 1) - (char *)a == n * sizeof(int); }\nint main(){ return !f(5); }\n"},
"c04-post-bf":{"property":"C04","needs":"a compound assignment whose lvalue has a side effect","what_it_breaks":"",
 "edits":[("src/cc1/ops/expr_op.c","XX","XX")],"demo":"int main(){ return 0; }\n"},
"c12-const-weak":{"property":"C12","needs":"a variable with a zero initialiser under -fdata-sections","what_it_breaks":"",
 "edits":[("src/cc1/gen_asm.c","	if((attr = attribute_present(d, attr_section))){\n		SECTION_FROM_NAME","	if((attr = attribute_present(d, attr_section)) && !attribute_present(d, attr_weak)){\n		SECTION_FROM_NAME")],
 "sh":sh("$u -w -c -o $t/o.o $d/demo.c || exit 1\nobjdump -t $t/o.o | grep ' v$' | grep -q foosec\n"),
 "demo":"__attribute__((weak, section(\"foosec\"))) int v = 3;\nint main(){ return 0; }\n"},
"c12-linkage-block":{"property":"C12","needs":"a size of a tentative array","what_it_breaks":"the symbol's size",
 "edits":[("src/cc1/gen_asm.c","	const int attr_used_present = !!attribute_present(d, attr_used);\n	int emit_visibility = 0;","	const int attr_used_present = 0;\n	int emit_visibility = 0;")],
 "demo":"int main(){ return 0; }\n"},
}
for k in ("c04-post-bf", "c20-shadow-group", "c22-inline-volatile", "c12-linkage-block"): BUGS.pop(k)
