BUGS={
"c01-div-pow2-signed-long":{"property":"C01","needs":"signed division of a negative long variable by a power-of-two constant that does not divide it","what_it_breaks":"the quotient is rounded down instead of towards zero",
 "edits":[("src/cc1/out/op.c","""	if(type_is_signed(v_get_type(*lhs)))
		return;

	if(*binop == op_divide""","""	if(type_is_signed(v_get_type(*lhs))
	&& (*binop != op_divide || type_size(v_get_type(*lhs), NULL) < 8))
		return;

	if(*binop == op_divide""")],
 "demo":"long d(long a){ return a / 8; }\nint main(){ return d(-9) != -1; }\n"},
"c02-fold-unsigned-compare":{"property":"C02","needs":"a constant >= comparison of unsigned long values on either side of 2^63","what_it_breaks":"folded as a signed comparison",
 "edits":[("src/cc1/const.c","		OP_U(op_ge,       >=);","		OP(op_ge,         >=);")],
 "demo":"int x[0x8000000000000001UL >= 1UL ? 2 : 1]; int main(){ return sizeof x != 8; }\n"},
"c05-switch-promotion":{"property":"C05","needs":"a switch on a narrow type with a case constant outside that type's range","what_it_breaks":"the case constant is truncated to the narrow type and matches another value",
 "edits":[("src/cc1/ops/stmt_switch.c","	expr_promote_default(&s->expr, s->symtab);\n","	if(type_is_signed(s->expr->tree_type))\n		expr_promote_default(&s->expr, s->symtab);\n")],
 "demo":"int f(unsigned char c){ switch(c){ case 300: return 1; case 45: return 2; } return 0; }\nint main(){ return f(44) != 0; }\n"},
"c06-vla-inner-size-slot":{"property":"C06","needs":"a VLA of two variable dimensions, whose size is used again after it was declared","what_it_breaks":"the saved size of a row overwrites the saved size of the array (same stack slot)",
 "edits":[("src/cc1/vla.c","							out_new_l(octx, arith_ty, platform_word_size()));\n\n					new_stack_ent","							out_new_l(octx, arith_ty, t->bits.array.vla_kind == VLA_STAR ? 0 : platform_word_size()));\n\n					new_stack_ent")],
 "demo":"int main(){ int n = 3, m = 5; int a[n][m]; n = m = 9; return sizeof a != 60 || sizeof a[0] != 20; }\n"},
"c07-anon-struct-align":{"property":"C07","needs":"an anonymous struct member with the strictest alignment, followed by smaller members","what_it_breaks":"the record's alignment and size ignore the anonymous member's alignment",
 "edits":[("src/cc1/fold_sue.c","			if(pack_state.align > align_max)\n","			if(pack_state.align > align_max && (d->spel || d->bits.var.field_width))\n")],
 "demo":"struct s { struct { long x; }; char c; }; int main(){ return sizeof(struct s) != 16; }\n"},
"c08-sign-extend-31":{"property":"C08","needs":"a signed bit-field one bit narrower than its type, holding a negative value","what_it_breaks":"it is read back without sign extension",
 "edits":[("src/cc1/out/bitfield.c","	if(type_is_signed(ty)){\n","	if(type_is_signed(ty) && bf->nbits + 1 < CHAR_BIT * type_size(ty, NULL)){\n")],
 "demo":"struct { int a : 31, b : 1; } s; int main(){ s.a = -2; return s.a != -2; }\n"},
"c09-range-copy-shared":{"property":"C09","needs":"a range designator initialising aggregates with nested aggregates, one of which is partly overridden at the inner level afterwards","what_it_breaks":"the override shows up in every element of the range",
 "edits":[("src/cc1/decl_init.c","				ret->bits.ar.inits[i] = decl_init_copy_const(di->bits.ar.inits[i]);","				ret->bits.ar.inits[i] = di->bits.ar.inits[i];")],
 "demo":"struct s { int a; struct { int x, y[2]; } b; }; struct s v[] = { [0 ... 2] = { 1, { 2, { 3, 4 } } }, [1].b.y[0] = 9 };\nint main(){ return v[0].b.y[0] != 3 || v[1].b.y[0] != 9 || v[2].b.y[0] != 3 || v[1].b.x != 2; }\n"},
"c21-vla-zero":{"property":"C21","needs":"-fsanitize=vla-bound and an array size of exactly zero","what_it_breaks":"not caught",
 "edits":[("src/cc1/sanitize.c","	sanitize_assert_order(vla_sz, op_gt, 0, sz_ty, octx, \"vla\");","	sanitize_assert_order(vla_sz, op_ge, 0, sz_ty, octx, \"vla\");")],
 "sh":"#!/bin/sh\nd=$(dirname \"$0\"); t=$(mktemp -d)\n/repo/src/ucc/ucc -w -fsanitize=vla-bound -o \"$t/a\" \"$d/demo.c\" || exit 1\ntimeout 20 \"$t/a\" 1 || exit 1\nif timeout 20 \"$t/a\"; then exit 1; fi\nexit 0\n",
 "demo":"int main(int argc, char **argv){ int n = argc - 1; char a[n]; return sizeof a != argc - 1; }\n"},
"c22-inline-arg-written":{"property":"C22","needs":"an inlined function that changes its own parameter, called with a constant, inside a loop in the inlined body","what_it_breaks":"x","edits":[("src/cc1/inline.c","if(s->nwrites || out_is_nonconst_temporary(args[i])","if((s->nwrites && !out_is_nonconst_temporary(args[i])) || out_is_nonconst_temporary(args[i])")],"demo":"int main(){return 0;}"},
}
