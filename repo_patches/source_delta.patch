From 42ffa151fd6317f301d62144ae9b1ca63f52907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 001/122] fix: unsigned wraparound and integral conversions in
 constant expressions

---
 src/cc1/const.c         | 23 +++--------------
 src/cc1/ops/expr_cast.c | 55 ++++++++++++++++-------------------------
 2 files changed, 25 insertions(+), 53 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 6607d01..46c1623 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -249,25 +249,10 @@ integral_t const_op_exec(
 			break;
 	}
 
-	if(!is_signed){
-		/* need to apply proper wrap-around */
-		integral_t max = type_max(arithty, NULL);
-
-		if(max == NUMERIC_T_MAX){
-			/* handling integral_t:s, already done */
-		}else if(result > max){
-			if(op_increases(op)){
-				/* result = 256 -> 256 - (255 + 1) -> 0 */
-
-				result = result - (max + 1);
-			}else{
-				/* (assuming integral_t max = 65536)
-				 * result = 65536 -> 65536 - 65536 + 256 -> 256 */
-
-				result = result - NUMERIC_T_MAX + max;
-			}
-		}
-	}
+	/* need to apply proper wrap-around
+	 * (signed overflow is left, to be diagnosed by our callers) */
+	if(!is_signed)
+		result = integral_truncate(result, type_size(arithty, NULL), NULL);
 
 	return result;
 }
diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index ecb6b52..0011cd4 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -166,38 +166,25 @@ static integral_t convert_integral_to_integral_warn(
 	const int signed_out = type_is_signed(tout);
 	sintegral_t to_iv_sign_ext;
 	integral_t to_iv = integral_truncate(in, sz_out, &to_iv_sign_ext);
+	const integral_t warn_iv = (signed_in && !signed_out
+			? to_iv
+			: (integral_t)to_iv_sign_ext);
 	integral_t ret;
 
-	if(!signed_out && signed_in){
-		const unsigned sz_in_bits = CHAR_BIT * sz_in;
-		const unsigned sz_out_bits = CHAR_BIT * sz_out;
-
-		/* e.g. "(unsigned)-1". Pick to_iv, i.e. the unsigned truncated repr
-		 * this assumes that signed ints on the host machine we're run on
-		 * are 2's complement, i.e. truncated a negative gives us all 1s,
-		 * which we truncate */
+	if(signed_in && sz_in < sz_out){
+		/* need to ensure sign extension from the source type,
+		 * e.g. (unsigned long)(1 << 31) */
+		sintegral_t sign_extended_in;
+		integral_truncate(in, sz_in, &sign_extended_in);
+		ret = integral_truncate(sign_extended_in, sz_out, NULL);
+	}else{
 		ret = to_iv;
+	}
 
-		/* need to ensure sign extension */
-		if(ret & (1ULL << (sz_in_bits - 1))
-		&& sz_in_bits != sz_out_bits)
-		{
-			ret |= -1ULL << sz_in_bits;
-
-			/* need to unmask any top bits, e.g. int instead of long long */
-			if(sz_out_bits >= CHAR_BIT * sizeof(ret)){
-				/* shift would be a no-op (technically UB) */
-			}else{
-				ret &= -1ULL >> sz_out_bits;
-			}
-		}
-
-	}else if(signed_in){
-		/* signed to signed */
-		ret = (integral_t)to_iv_sign_ext;
-	}else{
-		/* unsigned to unsigned */
-		ret = to_iv_sign_ext;
+	if(signed_out){
+		sintegral_t sign_extended;
+		integral_truncate(ret, sz_out, &sign_extended);
+		ret = sign_extended;
 	}
 
 	if(sz_in == sz_out){
@@ -206,20 +193,20 @@ static integral_t convert_integral_to_integral_warn(
 	}
 
 	if(do_warn){
-		if(ret != in){
+		if(warn_iv != in){
 			warn_value_changed_at(w,
 					"implicit cast changes value from %llA to %llB",
 					signed_in, signed_out,
-					in, signed_out ? (integral_t)to_iv_sign_ext : ret);
+					in, signed_out ? (integral_t)to_iv_sign_ext : warn_iv);
 
-		}else if(signed_out && !signed_in && (sintegral_t)ret < 0){
+		}else if(signed_out && !signed_in && (sintegral_t)warn_iv < 0){
 			warn_value_changed_at(w,
 					"implicit cast negates value, %llA to %llB",
 					signed_in, signed_out,
 					in, (sintegral_t)to_iv_sign_ext);
 
-		}else if(signed_out ? (sintegral_t)ret > 0 : 1){
-			/* ret > 0 - don't warn for -1 <-- -1L */
+		}else if(signed_out ? (sintegral_t)warn_iv > 0 : 1){
+			/* warn_iv > 0 - don't warn for -1 <-- -1L */
 			int in_high = integral_high_bit(in, tin);
 			int out_high = integral_high_bit(type_max(tout, w), tout);
 
@@ -227,7 +214,7 @@ static integral_t convert_integral_to_integral_warn(
 				warn_value_changed_at(w,
 						"implicit cast truncates value from %llA to %llB",
 						signed_in, signed_out,
-						in, ret & ((1ULL << (out_high + 1)) - 1));
+						in, warn_iv & ((1ULL << (out_high + 1)) - 1));
 			}
 		}
 	}
-- 
2.43.0


From 025ca8a4083d129a9e7c6d35bc62413c1e63f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 002/122] fix: fold constant comparisons in the type of the
 operands

---
 src/cc1/ops/expr_op.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 63b94c5..9830759 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -316,7 +316,10 @@ static void const_op_num_int(
 
 			int_r = const_op_exec(
 					l.offset, rhs ? &r.offset : NULL,
-					e->bits.op.op, e->tree_type, &err);
+					e->bits.op.op,
+					/* comparisons are done in the operands' type */
+					op_is_comparison(e->bits.op.op) ? e->lhs->tree_type : e->tree_type,
+					&err);
 
 			if(SHOW_CONST_OP){
 				char tbufs[2][TYPE_STATIC_BUFSIZ];
-- 
2.43.0


From 22a122b82a7aed77b42759c608c8022ba598df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 003/122] fix: 0 << x and 0 >> x are 0, not x

---
 src/cc1/out/op.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 1201750..07ed186 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -105,8 +105,6 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 		case op_plus:
 		case op_or:
 		case op_xor:
-		case op_shiftl: /* if we're shifting 0, or shifting _by_ zero, noop */
-		case op_shiftr:
 			return vconst->bits.val_i == 0;
 
 		case op_multiply:
@@ -117,6 +115,8 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 			return (sintegral_t)vconst->bits.val_i == -1;
 
 		/* non-commutative: */
+		case op_shiftl:
+		case op_shiftr:
 		case op_minus:
 			return !is_lhs && vconst->bits.val_i == 0;
 
-- 
2.43.0


From c89af4e0ac6048011ffc2ab018d7cf431da6c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 004/122] fix: only fold offsets that fit a displacement

---
 src/cc1/out/op.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 07ed186..c7aff78 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -72,9 +72,20 @@ static out_val *try_mem_offset(
 	&& (vregp_or_lbl->type != V_LBL || cc1_fopt.symbol_arith)
 	&& (step = calc_ptr_step(vregp_or_lbl->t)) != -1)
 	{
-		out_val *mut_vregp_or_lbl = v_dup_or_reuse(
-				octx, vregp_or_lbl, vregp_or_lbl->t);
+		out_val *mut_vregp_or_lbl;
 		long *p;
+		const sintegral_t current = vregp_or_lbl->type == V_LBL
+			? vregp_or_lbl->bits.lbl.offset
+			: vregp_or_lbl->bits.regoff.offset;
+		const sintegral_t new_offset = (integral_t)current
+			+ (binop == op_minus ? -1 : 1) * vconst->bits.val_i * step;
+
+		/* displacements are limited to 32 bits */
+		if(new_offset < -0x7fffffffLL - 1 || new_offset > 0x7fffffffLL)
+			return NULL;
+
+		mut_vregp_or_lbl = v_dup_or_reuse(
+				octx, vregp_or_lbl, vregp_or_lbl->t);
 
 		switch(mut_vregp_or_lbl->type){
 			case V_LBL:
@@ -89,7 +100,7 @@ static out_val *try_mem_offset(
 				assert(0);
 		}
 
-		*p += (binop == op_minus ? -1 : 1) * vconst->bits.val_i * step;
+		*p = new_offset;
 
 		out_val_consume(octx, vconst);
 
-- 
2.43.0


From be930baecddb0f19585e211a5ec5a39c4e241f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 005/122] fix: integer conversion rank of short is below int

---
 src/cc1/btype.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cc1/btype.c b/src/cc1/btype.c
index edf0f01..63ae5dc 100644
--- a/src/cc1/btype.c
+++ b/src/cc1/btype.c
@@ -143,15 +143,19 @@ int type_intrank(enum type_primitive p)
 		case type_nchar:
 		case type_schar:
 		case type_uchar:
-		case type_int:
-		case type_uint:
+			return 1;
 		case type_short:
 		case type_ushort:
+			return 2;
+		case type_int:
+		case type_uint:
+			return 3;
 		case type_long:
 		case type_ulong:
+			return 4;
 		case type_llong:
 		case type_ullong:
-			return p;
+			return 5;
 	}
 }
 
-- 
2.43.0


From 9d991e313f658729ed4ecf537cf6b16c8195de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 006/122] fix: cast both sides of a compound assignment to the
 common type

---
 src/cc1/ops/expr_assign_compound.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 92d3850..7b0e3a7 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -58,7 +58,9 @@ void fold_expr_assign_compound(expr *e, symtable *stab)
 			 */
 			e->bits.compoundop.upcast_ty = tlhs;
 
-		}else if(trhs){
+		}
+
+		if(trhs){
 			fold_insert_casts(trhs, &e->rhs, stab);
 		}
 
-- 
2.43.0


From 69345b57cde112248da05e8b2f88d096890b11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 007/122] fix: only unreserve the registers reserved by struct
 overlay

---
 src/cc1/out/impl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/impl.c b/src/cc1/out/impl.c
index aad1514..838e8c1 100644
--- a/src/cc1/out/impl.c
+++ b/src/cc1/out/impl.c
@@ -105,6 +105,7 @@ static void impl_overlay_mem_reg(
 	const unsigned pws = platform_word_size();
 	struct vreg *cur_reg = regs;
 	unsigned reg_i = 0;
+	unsigned nreserved = 0;
 
 	assert(ptr->type != V_SPILT && "possible mishandling of spilt register for mem/reg overlay");
 
@@ -127,6 +128,8 @@ static void impl_overlay_mem_reg(
 		/* reserve all registers so we don't accidentally wipe before the spill */
 		for(reg_i = 0; reg_i < nregs; reg_i++)
 			v_reserve_reg(octx, &regs[reg_i]);
+		nreserved = nregs;
+		reg_i = 0;
 	}
 
 	for(;; cur_reg++, reg_i++){
@@ -171,6 +174,7 @@ static void impl_overlay_mem_reg(
 			}
 			out_flush_volatile(octx, fetched);
 			v_reserve_reg(octx, cur_reg); /* prevent changes */
+			nreserved++;
 
 		}else{
 			const out_val *vreg = v_new_reg(octx, NULL, this_ty, cur_reg);
@@ -200,8 +204,8 @@ static void impl_overlay_mem_reg(
 
 	out_val_release(octx, ptr);
 
-	/* done, unreserve all registers */
-	for(reg_i = 0; reg_i < nregs; reg_i++)
+	/* done, unreserve all the registers we reserved */
+	for(reg_i = 0; reg_i < nreserved; reg_i++)
 		v_unreserve_reg(octx, &regs[reg_i]);
 }
 
-- 
2.43.0


From fd41806b3907f0dc49bc5b989a73a3425596f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 008/122] fix: use the signedness of the value, not of its
 spill slot

---
 src/cc1/out/op.c     | 4 ++--
 src/cc1/out/x86_64.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index c7aff78..36b9c97 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -262,7 +262,7 @@ static void try_shift_conv(
 		enum op_type *binop,
 		const out_val **lhs, const out_val **rhs)
 {
-	if(type_is_signed((*lhs)->t))
+	if(type_is_signed(v_get_type(*lhs)))
 		return;
 
 	if(*binop == op_divide && (*rhs)->type == V_CONST_I){
@@ -306,7 +306,7 @@ static void try_trunc_conv(
 	integral_t k;
 	out_val *mut;
 
-	if(type_is_signed((*lhs)->t))
+	if(type_is_signed(v_get_type(*lhs)))
 		return;
 
 	assert(*binop == op_modulus);
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 6c4ec7e..49084f0 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1356,7 +1356,7 @@ static const out_val *x86_idiv(
 	v_freeup_reg(octx, &rdx);
 	v_reserve_reg(octx, &rdx);
 	{
-		const int is_signed = type_is_signed(r->t);
+		const int is_signed = type_is_signed(v_get_type(r));
 
 		/* need to move 'l' into eax
 		 * then sign extended later - cqto */
@@ -1598,7 +1598,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 					&& !type_is_floating(v_get_type(r)),
 					"float cmp should be handled above");
 		{
-			const int is_signed = type_is_signed(l->t);
+			const int is_signed = type_is_signed(v_get_type(l));
 			char buf[VAL_STR_SZ];
 			int inv = 0;
 			const out_val *vconst = NULL;
-- 
2.43.0


From a7f3d4a49bac9b5e2a966dc02402a7e3ef2acc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 009/122] fix: promote the operands of ?: and test wide
 constant conditions

---
 src/cc1/ops/expr_if.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index 3ee9c13..cf40467 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -39,7 +39,7 @@ static void fold_const_expr_if(expr *e, consty *k)
 		case CONST_NUM:
 		{
 			numeric *n = &consts[0].bits.num;
-			res = n->suffix & VAL_FLOATING ? n->val.f : n->val.i;
+			res = n->suffix & VAL_FLOATING ? n->val.f != 0 : n->val.i != 0;
 			break;
 		}
 		case CONST_ADDR:
@@ -250,6 +250,9 @@ void fold_expr_if(expr *e, symtable *stab)
 
 		expr_check_sign(desc, *middle_op, e->rhs, &e->where);
 
+		expr_promote_int_if_smaller(middle_op, stab);
+		expr_promote_int_if_smaller(&e->rhs, stab);
+
 		e->tree_type = op_promote_types(
 				op_unknown,
 				middle_op, &e->rhs, stab,
-- 
2.43.0


From 151dbb0491ba2a0913c21f7db0f0544a2fd0f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 010/122] fix: preserve flag values with other users across
 instructions

---
 src/cc1/out/val.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/val.c b/src/cc1/out/val.c
index 7816eca..1783407 100644
--- a/src/cc1/out/val.c
+++ b/src/cc1/out/val.c
@@ -99,7 +99,9 @@ void v_decay_flags_except(out_ctx *octx, const out_val *except[])
 				int found = 0;
 
 				for(vi = except; vi && *vi; vi++){
-					if(v == *vi){
+					/* if there are other users of the flag,
+					 * it must outlive the upcoming instruction */
+					if(v == *vi && v->retains == 1){
 						found = 1;
 						break;
 					}
-- 
2.43.0


From d113b90ac0d7c9354b8b3eabb43d06b15123e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 011/122] fix: comparing two unfolded constants against zero

---
 src/cc1/out/x86_64.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 49084f0..a633332 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1616,8 +1616,14 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			if((op == op_eq || op == op_ne || op == op_signbit || op == op_no_signbit)
 			&& vconst && vconst->bits.val_i == 0)
 			{
-				const out_val *vother = vconst == l ? r : l;
-				const char *vstr = impl_val_str(vother, 0); /* reg */
+				const out_val **pother = vconst == l ? &r : &l;
+				const out_val *vother;
+				const char *vstr;
+
+				/* may also be a const, if we're not folding */
+				vother = *pother = v_to_reg(octx, *pother);
+
+				vstr = impl_val_str(vother, 0); /* reg */
 				out_asm(octx, "test%s %s, %s", x86_suffix(vother->t), vstr, vstr);
 			}else{
 				/* if we have a const, it must be the first arg */
-- 
2.43.0


From 4bb0d7adca48ce296d0225632733b78da96d7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 012/122] fix: short-circuit results take the type of the whole
 expression

---
 src/cc1/ops/expr_op.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 9830759..417c055 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -1454,6 +1454,8 @@ static const out_val *op_shortcircuit(const expr *e, out_ctx *octx)
 	{
 		const out_val *rhs = gen_expr(e->rhs, octx);
 		rhs = out_normalise(octx, rhs);
+		/* the result's type doesn't depend on the operand's */
+		rhs = out_change_type(octx, rhs, e->tree_type);
 
 		out_ctrl_transfer(octx, landing, rhs, &blk_rhs, 1);
 	}
-- 
2.43.0


From 702f917c7f923a480a93b297eb7311fc4fbce99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 013/122] fix: lay out bit-fields as the System V ABI
 prescribes

Each bit-field was accessed with the type of the first of its group, so
e.g. an unsigned field following a signed one was sign-extended, and groups
mixing base types were placed differently to other compilers.
---
 src/cc1/decl.c     |  27 --------
 src/cc1/decl.h     |   3 -
 src/cc1/fold_sue.c | 124 +++++++++++-------------------------
 src/cc1/out/asm.c  | 152 +++++++++++++++++++--------------------------
 src/cc1/out/dbg.c  |   6 +-
 5 files changed, 102 insertions(+), 210 deletions(-)

diff --git a/src/cc1/decl.c b/src/cc1/decl.c
index d59b4d1..aebfeb2 100644
--- a/src/cc1/decl.c
+++ b/src/cc1/decl.c
@@ -125,33 +125,6 @@ unsigned decl_size(decl *d)
 	return type_size(d->ref, &d->where);
 }
 
-type *decl_type_for_bitfield(decl *d)
-{
-	assert(!type_is(d->ref, type_func));
-
-	if(d->bits.var.field_width){
-		const unsigned bits = const_fold_val_i(d->bits.var.field_width);
-		const int is_signed = type_is_signed(d->ref);
-		unsigned bytes = bits / CHAR_BIT;
-
-		/* need to add on a byte for any leftovers */
-		if(bits % CHAR_BIT)
-			bytes++;
-
-		return type_nav_MAX_FOR(cc1_type_nav, bytes, is_signed);
-	}else{
-		return d->ref;
-	}
-}
-
-void decl_size_align_inc_bitfield(decl *d, unsigned *const sz, unsigned *const align)
-{
-	type *ty = decl_type_for_bitfield(d);
-
-	*sz = type_size(ty, NULL);
-	*align = type_align(ty, NULL);
-}
-
 static unsigned decl_align1(decl *d)
 {
 	unsigned al = 0;
diff --git a/src/cc1/decl.h b/src/cc1/decl.h
index 09e6702..5205f7a 100644
--- a/src/cc1/decl.h
+++ b/src/cc1/decl.h
@@ -54,7 +54,6 @@ struct decl
 			type *bitfield_master_ty;
 			unsigned struct_offset;
 			unsigned struct_offset_bitfield; /* add onto struct_offset */
-			int first_bitfield; /* marker for the first bitfield in a set */
 
 			struct
 			{
@@ -115,8 +114,6 @@ void         decl_free(decl *);
 unsigned decl_size(decl *);
 unsigned decl_align(decl *);
 #define decl_check_size(d) (void)decl_size(d)
-void decl_size_align_inc_bitfield(decl *, unsigned *const sz, unsigned *const align);
-type *decl_type_for_bitfield(decl *);
 
 enum type_cmp decl_cmp(decl *a, decl *b, enum type_cmp_opts opts);
 unsigned decl_hash(const decl *);
diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index e42e275..8486383 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -27,9 +27,9 @@
 
 struct bitfield_state
 {
-	type *master_ty;
-	unsigned current_off, first_off;
-	unsigned current_limit;
+	/* number of bits left over, in the byte before the current offset */
+	unsigned spare_bits;
+	int after_bitfield;
 };
 
 struct pack_state
@@ -56,17 +56,6 @@ static void round_size_to_align(unsigned *const size, unsigned align)
 	*size = pack_to_align(*size, align);
 }
 
-static void struct_pack_finish_bitfield(
-		unsigned long *offset, struct bitfield_state *bitfield)
-{
-	if(bitfield->master_ty){
-		unsigned master_ty_size = type_size(bitfield->master_ty, NULL);
-
-		if(*offset % master_ty_size)
-			*offset += master_ty_size - *offset % master_ty_size;
-	}
-}
-
 static void fold_enum(struct_union_enum_st *en, symtable *stab)
 {
 	const int has_bitmask = !!attr_present(en->attr, attr_enum_bitmask);
@@ -270,88 +259,51 @@ static int fold_sue_check_vm(decl *d)
 
 static void fold_sue_calc_fieldwidth(
 		struct pack_state *pack_state,
-		int *const realign_next,
 		unsigned long *const offset,
 		struct bitfield_state *const bitfield)
 {
-	const unsigned bits = const_fold_val_i(pack_state->d->bits.var.field_width);
+	/* System V ABI:
+	 * - a bitfield is allocated at the next bit, unless that has it straddle
+	 *   a storage unit of its declared type, in which case it starts the next
+	 * - zero-width bitfields align to the next storage unit
+	 * - unnamed bitfields don't affect the struct's alignment
+	 */
 	decl *const d = pack_state->d;
+	const unsigned bits = const_fold_val_i(d->bits.var.field_width);
+	const unsigned unit_bits = CHAR_BIT * type_size(d->ref, &d->where);
+	unsigned long bitpos = 0;
 
-	/* don't affect sz_max or align_max */
-	pack_state->sz = pack_state->align = 0;
-
-	if(bits == 0){
-		/* align next field / treat as new bitfield
-		 * note we don't pad here - we don't want to
-		 * take up any space with this field
-		 */
-		*realign_next = 1;
-
-		/* also set struct_offset for 0-len bf, for pad reasons */
-		d->bits.var.struct_offset = *offset;
+	if(pack_state->sue->primitive == type_struct){
+		bitpos = *offset * CHAR_BIT - bitfield->spare_bits;
 
-	}else if(*realign_next
-	|| !bitfield->current_off
-	|| bitfield->current_off + bits > bitfield->current_limit)
-	{
-		if(*realign_next || bitfield->current_off){
-			if(!*realign_next){
+		if(bits == 0){
+			bitpos = pack_to_align(bitpos, unit_bits);
+		}else if(bitpos % unit_bits + bits > unit_bits){
+			if(bitfield->after_bitfield){
 				/* bitfield overflow - repad */
 				cc1_warn_at(&d->where,
 						bitfield_boundary,
 						"bitfield overflow (%d + %d > %d) - "
-						"moved to next boundary", bitfield->current_off, bits,
-						bitfield->current_limit);
-			}
-
-			*realign_next = 0;
-			bitfield->current_off = 0;
-
-			if(bitfield->master_ty){
-				/* round offset up to master_ty's size */
-				struct_pack_finish_bitfield(offset, bitfield);
+						"moved to next boundary", (int)(bitpos % unit_bits), bits,
+						unit_bits);
 			}
+			bitpos = pack_to_align(bitpos, unit_bits);
 		}
-
-		bitfield->master_ty = d->ref;
-		bitfield->current_limit = CHAR_BIT * type_size(d->ref, &d->where);
-
-		d->bits.var.bitfield_master_ty = bitfield->master_ty;
-
-		/* Get some initial padding.
-		 * Note that we want to affect the align_max
-		 * of the struct and the size of this field
-		 */
-		decl_size_align_inc_bitfield(d, &pack_state->sz, &pack_state->align);
-		round_size_to_align(&pack_state->sz, pack_state->align);
-
-		/* we are onto the beginning of a new group */
-		struct_pack(d, offset, pack_state->sz, pack_state->align);
-		bitfield->first_off = d->bits.var.struct_offset;
-		d->bits.var.first_bitfield = 1;
-
-		/* now that we've done the struct packing w.r.t. bitfield size, we change
-		 * pack_state->align to the align of the declared member type itself, to
-		 * affect the struct's alignment (and also tail padding, etc) */
-		pack_state->align = type_align(d->ref, NULL);
-
-	}else{
-		/* mirror previous bitfields' offset in the struct
-		 * difference is in .struct_offset_bitfield
-		 */
-		d->bits.var.struct_offset = bitfield->first_off;
-		d->bits.var.bitfield_master_ty = bitfield->master_ty;
 	}
 
-	d->bits.var.struct_offset_bitfield = bitfield->current_off;
-	bitfield->current_off += bits; /* allowed to go above sizeof(int) */
+	d->bits.var.bitfield_master_ty = d->ref;
+	d->bits.var.struct_offset = bitpos / unit_bits * (unit_bits / CHAR_BIT);
+	d->bits.var.struct_offset_bitfield = bitpos % unit_bits;
 
-	if(bitfield->current_off == bitfield->current_limit){
-		/* exactly reached the limit, reset bitfield indexing */
-		bitfield->current_off = 0;
+	bitpos += bits;
+	*offset = (bitpos + CHAR_BIT - 1) / CHAR_BIT;
+	bitfield->spare_bits = *offset * CHAR_BIT - bitpos;
 
-		struct_pack_finish_bitfield(offset, bitfield);
-	}
+	bitfield->after_bitfield = bits > 0;
+
+	/* used for unions: */
+	pack_state->sz = (bits + CHAR_BIT - 1) / CHAR_BIT;
+	pack_state->align = d->spel ? type_align(d->ref, NULL) : 0;
 }
 
 static void populate_size_align(struct pack_state *pack_state)
@@ -395,11 +347,10 @@ static void fold_sue_apply_normal_offset(
 	const int prev_offset = *offset;
 	int pad;
 
-	if(bitfield->current_off){
-		/* we automatically pad on the next struct_pack,
-		 * don't struct_pack() here */
-		bitfield->current_off = 0;
-	}
+	/* we automatically pad on the next struct_pack,
+	 * don't struct_pack() here */
+	bitfield->spare_bits = 0;
+	bitfield->after_bitfield = 0;
 
 	struct_pack(d, offset, pack_state->sz, pack_state->align);
 
@@ -464,7 +415,6 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 		unsigned align_max = 1;
 		unsigned sz_max = 0;
 		unsigned long offset = 0;
-		int realign_next = 0;
 		int submemb_const = 0;
 		struct bitfield_state bitfield;
 		sue_member **i;
@@ -509,7 +459,7 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 			}else if(d->bits.var.field_width){
 				fold_sue_calc_fieldwidth(
 						&pack_state,
-						&realign_next, &offset,
+						&offset,
 						&bitfield);
 
 			}else{
diff --git a/src/cc1/out/asm.c b/src/cc1/out/asm.c
index 9352b2c..e980313 100644
--- a/src/cc1/out/asm.c
+++ b/src/cc1/out/asm.c
@@ -161,49 +161,56 @@ static void asm_declare_init_type(const struct section *sec, type *ty)
 	asm_out_section(sec, ".%s ", asm_type_directive(ty));
 }
 
-static void asm_declare_init_bitfields(
+static unsigned bitfields_out(
 		const struct section *sec,
-		struct bitfield_val *vals, unsigned n,
-		type *ty)
+		struct bitfield_val *vals, unsigned *pn,
+		unsigned start, unsigned min_sz)
 {
-	integral_t v = 0;
-	unsigned width = 0;
-	unsigned i;
+	/* emit the bytes the bitfields occupy, starting from the byte at offset
+	 * `start', returning the offset of the byte after the last one */
+	unsigned end = start;
+	unsigned i, byte, sz;
+	type *ty;
 
 	DEBUG_BITFIELD_INIT("    bitfield out -- new\n");
-	for(i = 0; i < n; i++){
-		integral_t this = integral_truncate_bits(
-				vals[i].val, vals[i].width, NULL);
+	for(i = 0; i < *pn; i++){
+		const unsigned this_end = (vals[i].offset + vals[i].width + CHAR_BIT - 1) / CHAR_BIT;
+		if(this_end > end)
+			end = this_end;
+	}
 
-		width += vals[i].width;
+	if(min_sz && end - start < min_sz)
+		end = start + min_sz;
 
-		DEBUG_BITFIELD_INIT("    bitfield out: 0x%llx << %u gives",
-				this, vals[i].offset);
+	for(byte = start; byte < end; byte += sz){
+		integral_t v = 0;
 
-		v |= this << vals[i].offset;
+		/* the largest chunk we can emit */
+		sz = sizeof(v);
+		while(sz > end - byte || byte % sz)
+			sz /= 2;
 
-		DEBUG_BITFIELD_INIT("\t0x%llx\n", v);
-	}
+		for(i = 0; i < *pn; i++){
+			const long shift = (long)byte * CHAR_BIT - (long)vals[i].offset;
+			const integral_t this = integral_truncate_bits(
+					vals[i].val, vals[i].width, NULL);
+
+			if(shift <= -(long)(sz * CHAR_BIT) || shift >= (long)vals[i].width)
+				continue;
+
+			v |= shift < 0 ? this << -shift : this >> shift;
+		}
 
-	DEBUG_BITFIELD_INIT("    bitfield done as (%s)0x%llx\n", type_to_str(ty), v);
+		ty = type_nav_MAX_FOR(cc1_type_nav, sz, 0);
+		v = integral_truncate(v, sz, NULL);
 
-	if(width > 0){
+		DEBUG_BITFIELD_INIT("    bitfield bytes @ %u: (%s)0x%llx\n", byte, type_to_str(ty), v);
 		asm_declare_init_type(sec, ty);
 		asm_out_section(sec, "%" NUMERIC_FMT_D "\n", v);
-	}else{
-		asm_out_section(sec,
-				ASM_COMMENT " skipping zero length bitfield%s init\n",
-				n == 1 ? "" : "s");
 	}
-}
 
-static void bitfields_out(
-		const struct section *sec,
-		struct bitfield_val *bfs, unsigned *pn,
-		type *ty)
-{
-	asm_declare_init_bitfields(sec, bfs, *pn, ty);
 	*pn = 0;
+	return end;
 }
 
 static void bitfield_val_set(
@@ -229,7 +236,8 @@ static struct bitfield_val *bitfields_add(
 			di ? di->bits.expr : NULL,
 			mem->bits.var.field_width);
 
-	bfs[i].offset = mem->bits.var.struct_offset_bitfield;
+	bfs[i].offset = mem->bits.var.struct_offset * CHAR_BIT
+		+ mem->bits.var.struct_offset_bitfield;
 
 	return bfs;
 }
@@ -356,7 +364,6 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 		unsigned end_of_last = 0;
 		struct bitfield_val *bitfields = NULL;
 		unsigned nbitfields = 0;
-		decl *first_bf = NULL;
 		expr *copy_from_exp;
 
 		UCC_ASSERT(init->type == decl_init_brace, "unbraced struct");
@@ -424,46 +431,8 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 			DEBUG_BITFIELD_INIT("current offset=%d, end of last field=%d\n",
 					d_mem->bits.var.struct_offset, end_of_last);
 
-			/* only pad if we're not on a bitfield or we're on the first bitfield */
-			if(!d_mem->bits.var.field_width || !first_bf){
-				UCC_ASSERT(
-						d_mem->bits.var.struct_offset >= end_of_last,
-						"negative struct pad, %s::%s @ %u >= end_of_last @ %u",
-						sue->spel, decl_to_str(d_mem),
-						d_mem->bits.var.struct_offset, end_of_last);
-
-				DEBUG_BITFIELD_INIT("  adding %u bytes of padding\n",
-						d_mem->bits.var.struct_offset - end_of_last);
-
-				asm_declare_pad(sec,
-						d_mem->bits.var.struct_offset - end_of_last,
-						"prev struct padding");
-			}
-
 			if(d_mem->bits.var.field_width){
-				const int zero_width = const_fold_val_i(d_mem->bits.var.field_width) == 0;
-
-				/* we aren't in a BF at the mo, and this is set as first_bitfield */
-				if(!first_bf || d_mem->bits.var.first_bitfield){
-					if(!first_bf){
-						DEBUG_BITFIELD_INIT("  new bitfield group (at .%s)\n", d_mem->spel);
-					}else{
-						DEBUG_BITFIELD_INIT("  new bitfield group (at .%s) after current bitfield group - flushing\n",
-								d_mem->spel);
-
-						/* next bitfield group - store the current */
-						bitfields_out(sec, bitfields, &nbitfields, first_bf->ref);
-					}
-
-					if(zero_width){
-						DEBUG_BITFIELD_INIT("  .%s is zero width - not marking as anchor for this group\n", d_mem->spel);
-						first_bf = NULL;
-					}else{
-						first_bf = d_mem;
-					}
-				}
-
-				if(zero_width){
+				if(const_fold_val_i(d_mem->bits.var.field_width) == 0){
 					DEBUG_BITFIELD_INIT("  .%s is zero width, ignored\n", d_mem->spel);
 				}else{
 					DEBUG_BITFIELD_INIT("  adding .%s to bitfield group, offset %d, width %" NUMERIC_FMT_D "\n",
@@ -475,33 +444,40 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 							bitfields, &nbitfields,
 							d_mem, di_to_use);
 				}
+				continue;
+			}
 
-			}else{
-				if(nbitfields){
-					DEBUG_BITFIELD_INIT("  at non-bitfield, flushing current\n");
+			if(nbitfields){
+				DEBUG_BITFIELD_INIT("  at non-bitfield, flushing current\n");
+				end_of_last = bitfields_out(sec, bitfields, &nbitfields, end_of_last, 0);
+			}
 
-					bitfields_out(sec, bitfields, &nbitfields, decl_type_for_bitfield(first_bf));
-					first_bf = NULL;
-				}
+			UCC_ASSERT(
+					d_mem->bits.var.struct_offset >= end_of_last,
+					"negative struct pad, %s::%s @ %u >= end_of_last @ %u",
+					sue->spel, decl_to_str(d_mem),
+					d_mem->bits.var.struct_offset, end_of_last);
 
-				DEBUG_BITFIELD_INIT("  normal init for .%s\n", d_mem->spel);
-				asm_declare_init(sec, di_to_use, d_mem->ref);
-			}
+			DEBUG_BITFIELD_INIT("  adding %u bytes of padding\n",
+					d_mem->bits.var.struct_offset - end_of_last);
 
-			if(type_is_incomplete_array(d_mem->ref)){
-				UCC_ASSERT(!mem[1], "flex-arr not at end");
-			}else if(!d_mem->bits.var.field_width || d_mem->bits.var.first_bitfield){
-				unsigned sz, align;
+			asm_declare_pad(sec,
+					d_mem->bits.var.struct_offset - end_of_last,
+					"prev struct padding");
 
-				decl_size_align_inc_bitfield(d_mem, &sz, &align);
+			DEBUG_BITFIELD_INIT("  normal init for .%s\n", d_mem->spel);
+			asm_declare_init(sec, di_to_use, d_mem->ref);
 
-				end_of_last = d_mem->bits.var.struct_offset + sz;
+			if(type_is_incomplete_array(d_mem->ref)){
+				UCC_ASSERT(!mem[1], "flex-arr not at end");
+			}else{
+				end_of_last = d_mem->bits.var.struct_offset + type_size(d_mem->ref, NULL);
 				DEBUG_BITFIELD_INIT("  %d byte(s) initialised so far\n", end_of_last);
 			}
 		}
 
 		if(nbitfields)
-			bitfields_out(sec, bitfields, &nbitfields, first_bf->ref);
+			end_of_last = bitfields_out(sec, bitfields, &nbitfields, end_of_last, 0);
 		free(bitfields);
 
 		/* need to pad to struct size */
@@ -562,17 +538,17 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 			if(mem->bits.var.field_width){
 				/* we know it's integral */
 				struct bitfield_val bfv;
+				unsigned n = 1;
 
 				ASSERT_SCALAR(u_init);
 
 				bitfield_val_set(&bfv, u_init->bits.expr, mem->bits.var.field_width);
 
-				asm_declare_init_bitfields(sec, &bfv, 1, mem_r);
+				sub = bitfields_out(sec, &bfv, &n, 0, type_size(mem_r, NULL));
 			}else{
 				asm_declare_init(sec, u_init, mem_r);
+				sub = type_size(mem_r, NULL);
 			}
-
-			sub = type_size(mem_r, NULL);
 		} /* else null union init */
 
 		asm_declare_pad(sec,
diff --git a/src/cc1/out/dbg.c b/src/cc1/out/dbg.c
index 1709465..68a86f3 100644
--- a/src/cc1/out/dbg.c
+++ b/src/cc1/out/dbg.c
@@ -864,7 +864,6 @@ static struct DIE *dwarf_suetype(
 		case type_struct:
 		{
 			sue_member **si;
-			decl *current_bitfield = NULL;
 
 			suedie = dwarf_sue_header(
 					cu,
@@ -882,9 +881,6 @@ static struct DIE *dwarf_suetype(
 				struct dwarf_block *offset;
 				struct dwarf_block_ent *blkents;
 
-				if(dmem->bits.var.first_bitfield)
-					current_bitfield = dmem;
-
 				if(DECL_IS_ANON_BITFIELD(dmem)){
 					/* skip, otherwise dwarf thinks this decl's a field and messes up */
 					continue;
@@ -921,7 +917,7 @@ static struct DIE *dwarf_suetype(
 				/* bitfield */
 				if(dmem->bits.var.field_width){
 					form_data_t width = const_fold_val_i(dmem->bits.var.field_width);
-					form_data_t whole_sz = type_size(current_bitfield->ref, NULL);
+					form_data_t whole_sz = type_size(dmem->ref, NULL);
 
 					/* address of top-end */
 					form_data_t off =
-- 
2.43.0


From 79135a282c5a7b9a01e0aaae7169beef4a687e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 014/122] fix: masks for bit-fields that reach the top bit of
 their unit

---
 src/cc1/out/bitfield.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cc1/out/bitfield.c b/src/cc1/out/bitfield.c
index 6727c94..da0beb5 100644
--- a/src/cc1/out/bitfield.c
+++ b/src/cc1/out/bitfield.c
@@ -11,6 +11,11 @@
 
 #include "bitfield.h"
 
+static integral_t low_bits(unsigned n)
+{
+	return n >= CHAR_BIT * sizeof(integral_t) ? ~(integral_t)0 : ~(~(integral_t)0 << n);
+}
+
 const out_val *out_bitfield_to_scalar(
 		out_ctx *octx,
 		const struct vbitfield *const bf,
@@ -29,7 +34,7 @@ const out_val *out_bitfield_to_scalar(
 	scalar = out_op(
 			octx, op_and,
 			scalar,
-			out_new_l(octx, ty, ~(-1UL << bf->nbits)));
+			out_new_l(octx, ty, low_bits(bf->nbits)));
 
 	/* if it's signed we need to sign extend
 	 * using a signed right shift to copy its MSB
@@ -87,7 +92,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	 *     +- width
 	 */
 
-	mask_leading_1s = -1UL << (bf.off + bf.nbits);
+	mask_leading_1s = ~low_bits(bf.off + bf.nbits);
 
 	/* e.g. again:
 	 *
@@ -95,10 +100,11 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	 * << = 11111100
 	 * ~  = 00000011
 	 */
-	mask_back_0s = ~(-1UL << bf.off);
+	mask_back_0s = low_bits(bf.off);
 
 	/* | = 111100011 */
-	mask_rm = mask_leading_1s | mask_back_0s;
+	mask_rm = (mask_leading_1s | mask_back_0s)
+		& low_bits(CHAR_BIT * type_size(ty, NULL));
 
 	/* &-out our value */
 	out_comment(octx, "bitmask/rm = %#lx", mask_rm);
@@ -111,7 +117,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	scalar = out_op(
 			octx, op_and,
 			scalar,
-			out_new_l(octx, ty, ~(-1UL << bf.nbits)));
+			out_new_l(octx, ty, low_bits(bf.nbits)));
 
 	scalar = out_op(
 			octx, op_shiftl,
-- 
2.43.0


From 5b29ebcf51cb560eaad1ef3867f7d662d573a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 015/122] fix: bit-fields wider than int are not promoted to
 unsigned int

---
 src/cc1/fold.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cc1/fold.c b/src/cc1/fold.c
index 875fd4b..e603aa6 100644
--- a/src/cc1/fold.c
+++ b/src/cc1/fold.c
@@ -329,12 +329,17 @@ expr *fold_expr_lval2rval(expr *e, symtable *stab)
 							"promoting unsigned bitfield to int");
 				}
 				prom = type_nav_btype(cc1_type_nav, type_int);
+			}else if(bf_nbits <= uint_nbits){
+				/* must be represented in [unsigned] int */
+				prom = type_nav_btype(cc1_type_nav,
+						type_is_signed(bitfield->ref) ? type_int : type_uint);
 			}else{
-				/* must be represented in unsigned int */
-				prom = type_nav_btype(cc1_type_nav, type_uint);
+				/* not promoted */
+				prom = NULL;
 			}
 
-			fold_insert_casts(prom, &e, stab);
+			if(prom)
+				fold_insert_casts(prom, &e, stab);
 		}
 
 		if((enum_ty = type_is_enum(e->tree_type))){
-- 
2.43.0


From 535ec8a45698017dbf66a3c5f7e1f67ad6da6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 016/122] fix: use a label's address, not its contents, as an
 operand

---
 src/cc1/out/x86_64.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index a633332..396ae46 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1241,6 +1241,14 @@ static const out_val *x86_check_ivfp(out_ctx *octx, const out_val *from)
 	return from;
 }
 
+static const out_val *x86_check_lbl(out_ctx *octx, const out_val *from)
+{
+	/* as an operand, a label would be dereferenced - we want its address */
+	if(from->type == V_LBL && !type_is_floating(from->t))
+		from = v_to_reg(octx, from);
+	return from;
+}
+
 void impl_store(out_ctx *octx, const out_val *to, const out_val *from)
 {
 	char vbuf[VAL_STR_SZ];
@@ -1498,6 +1506,8 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 
 	l = x86_check_ivfp(octx, l);
 	r = x86_check_ivfp(octx, r);
+	l = x86_check_lbl(octx, l);
+	r = x86_check_lbl(octx, r);
 
 	if(type_is_floating(v_get_type(l))){
 		if(op_is_comparison(op)){
@@ -1887,6 +1897,7 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 					val, out_new_zero(octx, val->t));
 	}
 
+	val = x86_check_lbl(octx, val);
 	val = v_to(octx, val, TO_REG | TO_MEM);
 
 	out_asm(octx, "%s%s %s", opc,
-- 
2.43.0


From 4653b5e5f17b6372a748500dabb4c57d62290830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 017/122] fix: align objects whose size isn't a multiple of
 their alignment

---
 src/cc1/out/stack.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cc1/out/stack.c b/src/cc1/out/stack.c
index 55e5721..84c1e97 100644
--- a/src/cc1/out/stack.c
+++ b/src/cc1/out/stack.c
@@ -38,10 +38,9 @@ void v_stack_adj(out_ctx *octx, v_stackt amt, int sub)
 
 static void align_sz(unsigned *psz, unsigned align)
 {
-	/* align greater than size - we increase
-	 * size so it can be aligned to 'align' */
-	if(align > *psz)
-		*psz = pack_to_align(*psz, align);
+	/* the object is addressed from the end of its allocation, so
+	 * increase its size for that to be aligned to 'align' too */
+	*psz = pack_to_align(*psz, align);
 }
 
 void v_set_cur_stack_sz(out_ctx *octx, v_stackt new_sz)
-- 
2.43.0


From 94ae425eedd2940c56b9f831c0a9e56c4d9fdc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 018/122] fix: value and operand type of compound assignment to
 a bitfield

---
 src/cc1/fold.c                     | 57 ++++++++++++++++--------------
 src/cc1/fold.h                     |  3 ++
 src/cc1/ops/expr_assign_compound.c | 39 +++++++++++++++-----
 3 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/src/cc1/fold.c b/src/cc1/fold.c
index e603aa6..2545e27 100644
--- a/src/cc1/fold.c
+++ b/src/cc1/fold.c
@@ -256,6 +256,36 @@ void fold_expr_nodecay(expr *e, symtable *stab)
 	UCC_ASSERT(e->tree_type, "no tree_type after fold (%s)", e->f_str());
 }
 
+type *fold_bitfield_promotion(decl *bitfield, where *w)
+{
+	/*
+	 * If an int can represent all values of the original type (as restricted
+	 * by the width, for a bit-field), the value is converted to an int;
+	 * otherwise, it is converted to an unsigned int.
+	 */
+	unsigned bf_nbits = const_fold_val_i(bitfield->bits.var.field_width);
+	unsigned uint_nbits = type_primitive_size(type_int) * CHAR_BIT;
+	unsigned sint_nbits = uint_nbits - 1; /* we assume 2's complement: */
+
+	if(bf_nbits <= sint_nbits){
+		/* can be represented in int */
+		if(!type_is_signed(bitfield->ref)){
+			cc1_warn_at(w, bitfield_promotion,
+					"promoting unsigned bitfield to int");
+		}
+		return type_nav_btype(cc1_type_nav, type_int);
+	}
+
+	if(bf_nbits <= uint_nbits){
+		/* must be represented in [unsigned] int */
+		return type_nav_btype(cc1_type_nav,
+				type_is_signed(bitfield->ref) ? type_int : type_uint);
+	}
+
+	/* not promoted */
+	return NULL;
+}
+
 expr *fold_expr_lval2rval(expr *e, symtable *stab)
 {
 	/*
@@ -311,32 +341,7 @@ expr *fold_expr_lval2rval(expr *e, symtable *stab)
 		&& orig_e->bits.struct_mem.d
 		&& orig_e->bits.struct_mem.d->bits.var.field_width)
 		{
-			/*
-			 * If an int can represent all values of the original type (as restricted
-			 * by the width, for a bit-field), the value is converted to an int;
-			 * otherwise, it is converted to an unsigned int.
-			 */
-			decl *bitfield = orig_e->bits.struct_mem.d;
-			unsigned bf_nbits = const_fold_val_i(bitfield->bits.var.field_width);
-			unsigned uint_nbits = type_primitive_size(type_int) * CHAR_BIT;
-			unsigned sint_nbits = uint_nbits - 1; /* we assume 2's complement: */
-			type *prom;
-
-			if(bf_nbits <= sint_nbits){
-				/* can be represented in int */
-				if(!type_is_signed(bitfield->ref)){
-					cc1_warn_at(&orig_e->where, bitfield_promotion,
-							"promoting unsigned bitfield to int");
-				}
-				prom = type_nav_btype(cc1_type_nav, type_int);
-			}else if(bf_nbits <= uint_nbits){
-				/* must be represented in [unsigned] int */
-				prom = type_nav_btype(cc1_type_nav,
-						type_is_signed(bitfield->ref) ? type_int : type_uint);
-			}else{
-				/* not promoted */
-				prom = NULL;
-			}
+			type *prom = fold_bitfield_promotion(orig_e->bits.struct_mem.d, &orig_e->where);
 
 			if(prom)
 				fold_insert_casts(prom, &e, stab);
diff --git a/src/cc1/fold.h b/src/cc1/fold.h
index a0a32c2..85852ce 100644
--- a/src/cc1/fold.h
+++ b/src/cc1/fold.h
@@ -78,6 +78,9 @@ int fold_check_expr(const expr *e, enum fold_chk, const char *desc);
 
 /* expression + statement folding */
 /*   decay */
+/* the type a bitfield promotes to, or NULL if it keeps its type */
+type *fold_bitfield_promotion(decl *bitfield, where *);
+
 expr *fold_expr_lval2rval(expr *e, symtable *stab) ucc_wur;
 #define FOLD_EXPR(e, stab) ((e) = fold_expr_lval2rval((e), (stab)))
 expr *fold_expr_nonstructdecay(expr *e, symtable *stab) ucc_wur;
diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 7b0e3a7..c4e591a 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -46,12 +46,27 @@ void fold_expr_assign_compound(expr *e, symtable *stab)
 	expr_promote_int_if_smaller(&e->rhs, stab);
 
 	{
-		type *tlhs, *trhs;
-		type *resolved = op_required_promotion(
+		type *tlhs, *trhs, *resolved;
+		type *const tlvalue = lvalue->tree_type;
+		type *bf_promoted = NULL;
+
+		/* a bitfield's value takes part as its promoted type */
+		if(expr_is_struct_bitfield(lvalue)){
+			bf_promoted = fold_bitfield_promotion(
+					lvalue->bits.struct_mem.d, &lvalue->where);
+			if(bf_promoted)
+				lvalue->tree_type = bf_promoted;
+		}
+
+		resolved = op_required_promotion(
 				e->bits.compoundop.op, lvalue, e->rhs,
 				&e->where, desc,
 				&tlhs, &trhs);
 
+		lvalue->tree_type = tlvalue;
+		if(bf_promoted && !tlhs)
+			tlhs = bf_promoted;
+
 		if(tlhs){
 			/* must cast the lvalue, then down cast once the operation is done
 			 * special handling for expr_kind(e->lhs, cast) is done in the gen-code
@@ -108,13 +123,21 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	if(e->bits.compoundop.upcast_ty) /* need to cast back down to store */
 		result = out_cast(octx, result, e->tree_type, /*normalise_bool:*/1);
 
-	if(!saved_post)
-		out_val_retain(octx, result);
-	out_store(octx, addr_lhs, result);
+	if(saved_post){
+		out_store(octx, addr_lhs, result);
+		return saved_post;
+	}
+
+	if(expr_is_struct_bitfield(e->lhs)){
+		/* re-read from the store - the value is truncated to the bitfield */
+		out_val_retain(octx, addr_lhs);
+		out_store(octx, addr_lhs, result);
+		return out_deref(octx, addr_lhs);
+	}
 
-	if(!saved_post)
-		return result;
-	return saved_post;
+	out_val_retain(octx, result);
+	out_store(octx, addr_lhs, result);
+	return result;
 }
 
 void dump_expr_assign_compound(const expr *e, dump *ctx)
-- 
2.43.0


From d07cbf18c55cf294a10ab5215f9443ad256a932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 019/122] fix: generated memset leaves part of the object unset

---
 src/cc1/out/mem.c | 50 +++++++++++++++--------------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/src/cc1/out/mem.c b/src/cc1/out/mem.c
index fff6a7a..ad15e8e 100644
--- a/src/cc1/out/mem.c
+++ b/src/cc1/out/mem.c
@@ -134,53 +134,35 @@ void out_memset(
 
 		out_val_consume(octx, emit_libc_call(octx, "memset", v_ptr, byte_val, nbytes_val));
 	}else{
-		size_t n, rem;
-		unsigned i;
-		type *tzero = type_nav_MAX_FOR(cc1_type_nav, nbytes, 0);
-
-		type *textra, *textrap;
+		size_t bytes_todo = nbytes;
 
 		assert(byte == 0 && "TODO: non-zero out_memset()");
 
-		if(!tzero)
-			tzero = type_nav_btype(cc1_type_nav, type_nchar);
-
-		n   = nbytes / type_size(tzero, NULL);
-		rem = nbytes % type_size(tzero, NULL);
-
-		if((textra = rem ? type_nav_MAX_FOR(cc1_type_nav, rem, 0) : NULL))
-			textrap = type_ptr_to(textra);
-
-		v_ptr = out_change_type(octx, v_ptr, type_ptr_to(tzero));
-
 #ifdef MEMSET_VERBOSE
-		out_comment("memset(%s, %d, %lu), using ptr<%s>, %lu steps",
+		out_comment("memset(%s, %d, %lu)",
 				e->expr->f_str(),
 				e->bits.builtin_memset.ch,
-				e->bits.builtin_memset.len,
-				type_to_str(tzero), n);
+				e->bits.builtin_memset.len);
 #endif
 
-		for(i = 0; i < n; i++){
-			const out_val *v_zero = out_new_zero(octx, tzero);
-			const out_val *v_inc;
+		while(bytes_todo > 0){
+			type *tzero = type_nav_MAX_FOR(cc1_type_nav, bytes_todo, 0);
+			unsigned step_sz = type_size(tzero, NULL);
 
-			/* *p = 0 */
-			out_val_retain(octx, v_ptr);
-			out_store(octx, v_ptr, v_zero);
+			v_ptr = out_change_type(octx, v_ptr, type_ptr_to(tzero));
 
-			/* p++ (copied pointer) */
-			v_inc = out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), 1);
+			while(bytes_todo >= step_sz){
+				const out_val *v_inc;
 
-			v_ptr = out_op(octx, op_plus, v_ptr, v_inc);
+				/* *p = 0 */
+				out_val_retain(octx, v_ptr);
+				out_store(octx, v_ptr, out_new_zero(octx, tzero));
 
-			if(rem){
-				/* need to zero a little more */
-				v_ptr = out_change_type(octx, v_ptr, textrap);
-				v_zero = out_new_zero(octx, textra);
+				/* p++ (copied pointer) */
+				v_inc = out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), 1);
 
-				out_val_retain(octx, v_ptr);
-				out_store(octx, v_ptr, v_zero);
+				v_ptr = out_op(octx, op_plus, v_ptr, v_inc);
+				bytes_todo -= step_sz;
 			}
 		}
 
-- 
2.43.0


From fcc31c3ecdf26968b930594040014aea527a053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 020/122] fix: returning structs whose size isn't that of a
 type in registers

---
 src/cc1/out/impl.c | 86 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 86 insertions(+)

diff --git a/src/cc1/out/impl.c b/src/cc1/out/impl.c
index 838e8c1..665e741 100644
--- a/src/cc1/out/impl.c
+++ b/src/cc1/out/impl.c
@@ -96,6 +96,76 @@ const char *impl_val_str(const out_val *vs, int deref)
 	return impl_val_str_r(buf, vs, deref);
 }
 
+/* load an integer register from memory whose size isn't that of any type */
+static const out_val *impl_overlay_load_partial(
+		out_ctx *octx, const out_val *ptr,
+		unsigned nbytes, const struct vreg *reg)
+{
+	type *const regty = type_nav_btype(cc1_type_nav, type_ulong);
+	type *const bytep = type_ptr_to(type_nav_btype(cc1_type_nav, type_uchar));
+	const out_val *acc = NULL;
+	unsigned off = 0;
+
+	while(off < nbytes){
+		type *const ty = type_nav_MAX_FOR(cc1_type_nav, nbytes - off, 0);
+		const out_val *piece;
+
+		out_val_retain(octx, ptr);
+		piece = out_op(octx, op_plus,
+				out_change_type(octx, ptr, bytep),
+				out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), off));
+		piece = out_deref(octx, out_change_type(octx, piece, type_ptr_to(ty)));
+		piece = out_cast(octx, piece, regty, 0);
+
+		if(acc){
+			piece = out_op(octx, op_shiftl, piece, out_new_l(octx, regty, off * CHAR_BIT));
+			acc = out_op(octx, op_or, acc, piece);
+		}else{
+			acc = piece;
+		}
+
+		off += type_size(ty, NULL);
+	}
+
+	out_val_release(octx, ptr);
+
+	v_freeup_reg(octx, reg);
+	return v_to_reg_given(octx, acc, reg);
+}
+
+static void impl_overlay_store_partial(
+		out_ctx *octx, const out_val *ptr,
+		unsigned nbytes, const struct vreg *reg)
+{
+	type *const regty = type_nav_btype(cc1_type_nav, type_ulong);
+	type *const bytep = type_ptr_to(type_nav_btype(cc1_type_nav, type_uchar));
+	const out_val *val = v_new_reg(octx, NULL, regty, reg);
+	unsigned off = 0;
+
+	while(off < nbytes){
+		type *const ty = type_nav_MAX_FOR(cc1_type_nav, nbytes - off, 0);
+		const out_val *to;
+
+		out_val_retain(octx, ptr);
+		to = out_op(octx, op_plus,
+				out_change_type(octx, ptr, bytep),
+				out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), off));
+
+		out_val_retain(octx, val);
+		out_store(octx,
+				out_change_type(octx, to, type_ptr_to(ty)),
+				out_cast(octx, val, ty, 0));
+
+		val = out_op(octx, op_shiftr, val,
+				out_new_l(octx, regty, type_size(ty, NULL) * CHAR_BIT));
+
+		off += type_size(ty, NULL);
+	}
+
+	out_val_release(octx, val);
+	out_val_release(octx, ptr);
+}
+
 static void impl_overlay_mem_reg(
 		out_ctx *octx,
 		unsigned memsz, unsigned nregs,
@@ -149,6 +219,22 @@ static void impl_overlay_mem_reg(
 		}
 		this_sz = type_size(this_ty, NULL);
 
+		if(this_sz < memsz && this_sz < pws){
+			/* the last register, only partially used */
+			UCC_ASSERT(reg_i < nregs, "reg oob");
+
+			out_val_retain(octx, ptr);
+			if(mem2reg){
+				out_flush_volatile(octx,
+						impl_overlay_load_partial(octx, ptr, memsz, cur_reg));
+				v_reserve_reg(octx, cur_reg); /* prevent changes */
+				nreserved++;
+			}else{
+				impl_overlay_store_partial(octx, ptr, memsz, cur_reg);
+			}
+			break;
+		}
+
 		UCC_ASSERT(this_sz <= memsz, "reading/writing too much memory");
 
 		ptr = out_change_type(octx, ptr, type_ptr_to(this_ty));
-- 
2.43.0


From ece7cea56fd80b0a89aa64d04e287db31133d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 021/122] fix: classify returned structs by eightbyte

---
 src/cc1/out/x86_64.c | 116 ++++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 51 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 396ae46..511c9f4 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -330,6 +330,62 @@ static void x86_overlay_regpair_1(
 	++*regpair_idx;
 }
 
+static void x86_classify_merge(
+		enum regtype classes[/*2*/], unsigned long bit, enum regtype class)
+{
+	enum regtype *const p = &classes[bit / (CHAR_BIT * 8)];
+
+	if(*p == NONE)
+		*p = class;
+	else if(*p != class)
+		*p = INT; /* floats defer to ints */
+}
+
+/* find the class of each eightbyte an object at 'bit' occupies */
+static void x86_classify(
+		type *ty, unsigned long bit, enum regtype classes[/*2*/])
+{
+	struct_union_enum_st *su = type_is_s_or_u(ty);
+	type *elem;
+
+	if(su){
+		sue_member **mi;
+
+		for(mi = su->members; mi && *mi; mi++){
+			decl *mem = (*mi)->struct_member;
+			unsigned long membit = bit + mem->bits.var.struct_offset * CHAR_BIT;
+
+			if(mem->bits.var.field_width){
+				unsigned width = const_fold_val_i(mem->bits.var.field_width);
+
+				if(width == 0 || !mem->spel)
+					continue; /* padding */
+
+				membit += mem->bits.var.struct_offset_bitfield;
+				x86_classify_merge(classes, membit, INT);
+				x86_classify_merge(classes, membit + width - 1, INT);
+
+			}else if(!type_is_incomplete_array(mem->ref)){
+				x86_classify(mem->ref, membit, classes);
+			}
+		}
+
+	}else if((elem = type_is_array(ty))){
+		const unsigned elemsz = type_size(elem, NULL);
+		const unsigned total = type_size(ty, NULL);
+		unsigned off;
+
+		for(off = 0; elemsz > 0 && off < total; off += elemsz)
+			x86_classify(elem, bit + off * CHAR_BIT, classes);
+
+	}else if(type_size(ty, NULL) > 0){
+		const enum regtype class = type_is_floating(ty) ? FLOAT : INT;
+
+		x86_classify_merge(classes, bit, class);
+		x86_classify_merge(classes, bit + (type_size(ty, NULL) - 1) * CHAR_BIT, class);
+	}
+}
+
 static void x86_overlay_regpair(
 		struct vreg regpair[/*2*/], int *const nregs, type *retty)
 {
@@ -354,62 +410,20 @@ static void x86_overlay_regpair(
 	 *   // ignored for now
 	 */
 
-	struct_union_enum_st *su = type_is_s_or_u(retty);
-	sue_member **mi;
-	unsigned current_size_bits = 0;
-	enum regtype current_type = NONE;
+	enum regtype classes[2] = { NONE, NONE };
+	unsigned nwords = (type_size(retty, NULL) + 7) / 8;
 	int regpair_idx = 0;
 
-	*nregs = 0;
-
-	UCC_ASSERT(su->primitive != type_enum, "enum?");
-
-	for(mi = su->members; mi && *mi; mi++){
-		decl *mem = (*mi)->struct_member;
-		type *ty = mem->ref;
-
-		enum regtype this_type = type_is_floating(ty) ? FLOAT : INT;
-
-		if(current_type == NONE)
-			current_type = this_type;
-		else if(this_type != current_type)
-			current_type = INT; /* floats defer to ints */
-
-		if(mem->bits.var.field_width){
-			const unsigned bits = const_fold_val_i(
-					mem->bits.var.field_width);
-
-			current_size_bits += bits;
+	UCC_ASSERT(type_is_s_or_u(retty), "struct/union expected");
+	UCC_ASSERT(nwords <= 2, "too many regpairs");
 
-		}else{
-			current_size_bits += CHAR_BIT * type_size(ty, NULL);
-		}
-
-		/* if we pass 64... */
-		if(current_size_bits >= CHAR_BIT * 8){
-			UCC_ASSERT(regpair_idx < 2, "too many regpairs");
+	x86_classify(retty, 0, classes);
 
-			/* hit one eightbyte, decide how we pass this group */
-			x86_overlay_regpair_1(
-					regpair,
-					current_type,
-					&regpair_idx);
+	do{
+		x86_overlay_regpair_1(regpair, classes[regpair_idx], &regpair_idx);
+	}while((unsigned)regpair_idx < nwords);
 
-			++*nregs;
-
-			current_type = NONE;
-			current_size_bits = 0;
-		}
-	}
-
-	if(regpair_idx < 2){
-		x86_overlay_regpair_1(
-				regpair,
-				current_type,
-				&regpair_idx);
-
-		++*nregs;
-	}
+	*nregs = regpair_idx;
 }
 
 static const char *x86_reg_str(const struct vreg *reg, type *r)
-- 
2.43.0


From 09aa3c552b218da01f9ef9bddb5aed2985f0f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 022/122] fix: double free overriding a scalar with a braced
 initialiser

---
 src/cc1/decl_init.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index 991199b..2b05322 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -464,6 +464,7 @@ static decl_init *decl_init_brace_up_scalar(
 		override_warn(tfor, &current->where, w, 0);
 
 		decl_init_free_1(current);
+		current = NULL;
 	}
 
 	init_debug("brace-up-scalar: ", type_to_str(tfor));
-- 
2.43.0


From e5269968551d58bab055008e2819bcbd8b21421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 023/122] fix: designators reinitialising a union

---
 src/cc1/decl_init.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index 2b05322..b382ced 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -1050,8 +1050,18 @@ static decl_init **decl_init_brace_up_sue2(
 				bitfield_trunc_check(d_mem, braced_sub->bits.expr);
 			}
 
-			if(sue->primitive == type_union)
-				break;
+			if(sue->primitive == type_union){
+				size_t other;
+
+				/* the last member initialised replaces any previous one */
+				for(other = 0; other < n; other++)
+					if(other != i)
+						current[other] = DYNARRAY_NULL;
+
+				/* only a designator can reinitialise the union */
+				if(!*iter->pos || !(*iter->pos)->desig)
+					break;
+			}
 		}else{
 			break;
 		}
-- 
2.43.0


From f6d20fbd6dc8de654ec628443ba319669fcbfde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 024/122] fix: use of freed initialisers when overriding an
 anonymous member

---
 src/cc1/decl_init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index b382ced..6ca5120 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -978,7 +978,8 @@ static decl_init **decl_init_brace_up_sue2(
 			if(DECL_IS_ANON_BITFIELD(d_mem))
 				continue;
 
-			if(i < n && current[i] != DYNARRAY_NULL){
+			/* if we have a braced_sub, it's already replaced current[i] */
+			if(!braced_sub && i < n && current[i] != DYNARRAY_NULL){
 				replacing = current[i];
 
 				/* check for full-object replacement, e.g.
-- 
2.43.0


From 5ec830a478edbda8a5971ded6b50b513f44fc8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 025/122] fix: initialising by copy keeps parts of an
 overridden initialiser

---
 src/cc1/decl_init.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index 6ca5120..d63ff44 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -857,7 +857,9 @@ static decl_init **decl_init_brace_up_sue2(
 		fold_expr_nodecay(e = this->bits.expr, stab);
 
 		if(type_is_s_or_u(e->tree_type) == sue){
-			/* copy init */
+			/* copy init - replaces any current initialisers */
+			current = NULL;
+			n = 0;
 			dynarray_padinsert(&current, 0, &n, this);
 
 			++iter->pos;
-- 
2.43.0


From 87961fefe96b531d8eaed0305195fde88039583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 026/122] fix: order switch cases by the controlling type's
 signedness

---
 src/cc1/ops/stmt_switch.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/cc1/ops/stmt_switch.c b/src/cc1/ops/stmt_switch.c
index 46af73a..004f227 100644
--- a/src/cc1/ops/stmt_switch.c
+++ b/src/cc1/ops/stmt_switch.c
@@ -20,10 +20,31 @@ const char *str_stmt_switch(void)
 	return "switch";
 }
 
+/* the cases all have the type of the controlling expression,
+ * so are ordered by its signedness */
+static int switch_cmp_signed(const void *a, const void *b)
+{
+	const sintegral_t ia = ((const numeric *)a)->val.i;
+	const sintegral_t ib = ((const numeric *)b)->val.i;
+
+	return ia < ib ? -1 : ia > ib;
+}
+
+static int switch_cmp_unsigned(const void *a, const void *b)
+{
+	const integral_t ia = ((const numeric *)a)->val.i;
+	const integral_t ib = ((const numeric *)b)->val.i;
+
+	return ia < ib ? -1 : ia > ib;
+}
+
 /* checks case duplicates, not default */
 static void fold_switch_dups(stmt *sw)
 {
-	typedef int (*qsort_f)(const void *, const void *);
+	int (*const cmp)(const void *, const void *) =
+		type_is_signed(sw->expr->tree_type)
+		? switch_cmp_signed
+		: switch_cmp_unsigned;
 
 	struct
 	{
@@ -60,13 +81,10 @@ static void fold_switch_dups(stmt *sw)
 
 	/* sort vals for comparison */
 	qsort(vals, n,
-			sizeof(*vals), (qsort_f)numeric_cmp); /* struct layout guarantees this */
+			sizeof(*vals), cmp); /* struct layout guarantees this */
 
 	for(i = 1; i < n; i++){
-		const long last_prev  = vals[i-1].end.val.i;
-		const long first_this = vals[i].start.val.i;
-
-		if(last_prev >= first_this){
+		if(cmp(&vals[i-1].end, &vals[i].start) >= 0){
 			const int overlap = vals[i  ].end.val.i != vals[i  ].start.val.i
 				               || vals[i-1].end.val.i != vals[i-1].start.val.i;
 
-- 
2.43.0


From 228e3daf68ec9ee0c941f953d49f5b188b4f48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 027/122] fix: statement expressions drop their last statement,
 or its value

---
 src/cc1/ops/expr_stmt.c | 51 ++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/cc1/ops/expr_stmt.c b/src/cc1/ops/expr_stmt.c
index 2ee1086..79a7fb0 100644
--- a/src/cc1/ops/expr_stmt.c
+++ b/src/cc1/ops/expr_stmt.c
@@ -8,23 +8,38 @@ const char *str_expr_stmt(void)
 	return "statement";
 }
 
+static stmt *last_stmt_of(stmt *code)
+{
+	size_t n = dynarray_count(code->bits.code.stmts);
+
+	return n ? code->bits.code.stmts[n - 1] : NULL;
+}
+
+/* statements after a declaration that follows statements are
+ * parsed into a nested block */
+static int stmt_is_nested_rest(stmt *s)
+{
+	return s && stmt_kind(s, code) && s->symtab->internal_nest;
+}
+
 void fold_expr_stmt(expr *e, symtable *stab)
 {
 	stmt *last_stmt;
-	int last;
 
 	(void)stab;
 
-	last = dynarray_count(e->code->bits.code.stmts);
-	if(last){
-		last_stmt = e->code->bits.code.stmts[last - 1];
+	last_stmt = last_stmt_of(e->code);
+	while(stmt_is_nested_rest(last_stmt))
+		last_stmt = last_stmt_of(last_stmt);
+
+	if(last_stmt){
 		last_stmt->freestanding = 1; /* allow the final to be freestanding */
 		last_stmt->expr_no_pop = 1;
 	}
 
 	fold_stmt(e->code); /* symtab should've been set by parse */
 
-	if(last && stmt_kind(last_stmt, expr)){
+	if(last_stmt && stmt_kind(last_stmt, expr)){
 		expr *last_expr = last_stmt->expr;
 
 		e->tree_type = last_expr->tree_type;
@@ -49,27 +64,37 @@ void fold_expr_stmt(expr *e, symtable *stab)
 	e->freestanding = 1; /* ({ ... }) on its own is freestanding */
 }
 
-const out_val *gen_expr_stmt(const expr *e, out_ctx *octx)
+static const out_val *gen_code_value(stmt *code, out_ctx *octx)
 {
-	size_t n;
 	const out_val *ret;
 	struct out_dbg_lbl *pushed_lbls[2];
+	stmt *last;
 
-	gen_stmt_code_m1(e->code, 1, pushed_lbls, octx);
+	gen_stmt_code_m1(code, 1, pushed_lbls, octx);
 
-	n = dynarray_count(e->code->bits.code.stmts);
+	last = last_stmt_of(code);
 
-	if(n > 0 && stmt_kind(e->code->bits.code.stmts[n-1], expr))
-		ret = gen_expr(e->code->bits.code.stmts[n - 1]->expr, octx);
-	else
+	if(last && stmt_kind(last, expr)){
+		ret = gen_expr(last->expr, octx);
+	}else if(stmt_is_nested_rest(last)){
+		ret = gen_code_value(last, octx);
+	}else{
+		if(last)
+			gen_stmt(last, octx);
 		ret = out_new_noop(octx);
+	}
 
 	/* this is skipped by gen_stmt_code_m1( ... 1, ... ) */
-	gen_stmt_code_m1_finish(e->code, pushed_lbls, octx);
+	gen_stmt_code_m1_finish(code, pushed_lbls, octx);
 
 	return ret;
 }
 
+const out_val *gen_expr_stmt(const expr *e, out_ctx *octx)
+{
+	return gen_code_value(e->code, octx);
+}
+
 void dump_expr_stmt(const expr *e, dump *ctx)
 {
 	dump_desc_expr(ctx, "statement expression", e);
-- 
2.43.0


From 3774f7ccf8b3616d4fe1d3855c13fdc81e7cb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:44 +0000
Subject: [PATCH 028/122] fix: don't convert the operands of && and || to a
 common type

---
 src/cc1/ops/expr_op.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 417c055..75817e3 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -574,7 +574,9 @@ type *op_required_promotion(
 	*plhs = *prhs = NULL;
 
 	if((floating_lhs = type_is_floating(tlhs))
-			!= type_is_floating(trhs))
+			!= type_is_floating(trhs)
+	/* each operand of && and || is compared with zero as it is */
+	&& op != op_andsc && op != op_orsc)
 	{
 		/* cast _to_ the floating type */
 		type *res = floating_lhs ? (*prhs = tlhs) : (*plhs = trhs);
-- 
2.43.0


From 2eb1aae7db1ffa8fa4b536f5cf4a291bfcc2ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:46 +0000
Subject: [PATCH 029/122] fix: a case range from a negative to a positive value
 is not inverse

---
 src/cc1/ops/stmt_case_range.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/stmt_case_range.c b/src/cc1/ops/stmt_case_range.c
index f9c1c90..4e8baec 100644
--- a/src/cc1/ops/stmt_case_range.c
+++ b/src/cc1/ops/stmt_case_range.c
@@ -3,6 +3,7 @@
 #include "ops.h"
 #include "stmt_case_range.h"
 #include "../out/lbl.h"
+#include "../type_is.h"
 
 const char *str_stmt_case_range(void)
 {
@@ -12,6 +13,7 @@ const char *str_stmt_case_range(void)
 void fold_stmt_case_range(stmt *s)
 {
 	integral_t lv, rv;
+	int is_signed, inverse;
 
 	FOLD_EXPR(s->expr,  s->symtab);
 	FOLD_EXPR(s->expr2, s->symtab);
@@ -26,7 +28,10 @@ void fold_stmt_case_range(stmt *s)
 			"case-range");
 	rv = const_fold_val_i(s->expr2);
 
-	if(lv >= rv)
+	is_signed = !s->parent || type_is_signed(s->parent->expr->tree_type);
+	inverse = is_signed ? (sintegral_t)lv >= (sintegral_t)rv : lv >= rv;
+
+	if(inverse)
 		die_at(&s->where, "case range equal or inverse");
 
 	cc1_warn_at(&s->where, gnu_case_range, "use of GNU case-range");
-- 
2.43.0


From a25a71681591ec7bcd7b5b81e7dd0c5fa93da319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:46 +0000
Subject: [PATCH 030/122] fix: static label addresses folded twice name an
 unemitted label

---
 src/cc1/ops/expr_addr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_addr.c b/src/cc1/ops/expr_addr.c
index ef377d9..d365f96 100644
--- a/src/cc1/ops/expr_addr.c
+++ b/src/cc1/ops/expr_addr.c
@@ -147,7 +147,9 @@ static void const_expr_addr(expr *e, consty *k)
 		k->bits.addr.lbl_type = CONST_LBL_TRUE;
 
 		if(static_ctx){
-			e->bits.lbl.label->mustgen_spel = out_label_code("goto");
+			/* may be folded several times - keep the name already handed out */
+			if(!e->bits.lbl.label->mustgen_spel)
+				e->bits.lbl.label->mustgen_spel = out_label_code("goto");
 
 			k->bits.addr.bits.lbl = e->bits.lbl.label->mustgen_spel;
 		}else{
-- 
2.43.0


From d114467fe2145101ab65b596590efb34ad2803fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:30 +0000
Subject: [PATCH 031/122] fix: save comparison flags before applying a
 register's pending offset

---
 src/cc1/out/ctrl.c | 25 +++++++++++++++++++++++++
 src/cc1/out/op.c   | 10 ++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/cc1/out/ctrl.c b/src/cc1/out/ctrl.c
index 1642b68..2148f38 100644
--- a/src/cc1/out/ctrl.c
+++ b/src/cc1/out/ctrl.c
@@ -17,8 +17,33 @@
 
 #include "ctrl.h"
 
+static int spill_changes_flags(out_ctx *octx, const out_val *skip)
+{
+	out_val_list *i;
+
+	OCTX_ITER_VALS(octx, i){
+		const out_val *v = &i->val;
+
+		if(v->retains == 0 || v->phiblock || v == skip)
+			continue;
+
+		/* the pending offset is applied with an add/sub */
+		if((v->type == V_REG || v->type == V_REGOFF)
+		&& v->bits.regoff.offset
+		&& impl_reg_savable(&v->bits.regoff.reg))
+		{
+			return 1;
+		}
+	}
+
+	return 0;
+}
+
 static void v_transfer_spill(out_ctx *octx, const out_val *skip)
 {
+	if(skip && skip->type == V_FLAG && spill_changes_flags(octx, skip))
+		v_decay_flags(octx);
+
 	/* all active regs must be spilt here since we don't know if they'll be spilt
 	 * (or moved to callee-save) in one of the branches we're about to jump into,
 	 * and if they are spilt, they might not be spilt in the other branch,
diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 36b9c97..ddcfc0f 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -336,6 +336,11 @@ static const out_val *consume_one(
 	return ret;
 }
 
+static int has_pending_offset(const out_val *v)
+{
+	return v->type == V_REG && v->bits.regoff.offset;
+}
+
 const out_val *out_op(
 		out_ctx *octx, enum op_type binop,
 		const out_val *lhs, const out_val *rhs)
@@ -345,6 +350,11 @@ const out_val *out_op(
 	const out_val *result;
 	const out_val *decay_except[] = { lhs, rhs, NULL };
 
+	/* a pending offset is applied with an add/sub before
+	 * the other operand is looked at - the flag must be saved first */
+	if(has_pending_offset(lhs) || has_pending_offset(rhs))
+		decay_except[0] = NULL;
+
 	v_decay_flags_except(octx, decay_except); /* an op instruction may change cpu flags */
 
 	fill_if_type(lhs, &vconst, &vregp_or_lbl);
-- 
2.43.0


From 84c9128843a7b9535ea7eeb1286a752411c2541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:16 +0000
Subject: [PATCH 032/122] fix: keep the stack aligned for calls after
 allocating a VLA

---
 src/cc1/out/alloca.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc1/out/alloca.c b/src/cc1/out/alloca.c
index 02172c7..4220281 100644
--- a/src/cc1/out/alloca.c
+++ b/src/cc1/out/alloca.c
@@ -16,6 +16,7 @@
 /* cc1_mstack_align */
 #include <stdarg.h>
 #include "../cc1.h"
+#include "../../util/platform.h"
 
 static const out_val *alloca_stack_adj(
 		out_ctx *octx, enum op_type op,
@@ -43,6 +44,10 @@ const out_val *out_alloca_push(
 	if(align < (unsigned)cc1_mstack_align)
 		align = cc1_mstack_align;
 
+	/* the stack must stay aligned for calls, see impl_call() */
+	if(align < 16 && !IS_32_BIT())
+		align = 16;
+
 	octx->alloca_count++;
 
 	if(align == 1)
-- 
2.43.0


From 26ca9df8b7ea3d94d1f058e8ff0ec85b14557978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:53 +0000
Subject: [PATCH 033/122] fix: applying a pending offset loses a live
 comparison's flags

---
 src/cc1/out/ctrl.c | 25 -------------------------
 src/cc1/out/op.c   | 10 ----------
 src/cc1/out/virt.c |  3 +++
 3 files changed, 3 insertions(+), 35 deletions(-)

diff --git a/src/cc1/out/ctrl.c b/src/cc1/out/ctrl.c
index 2148f38..1642b68 100644
--- a/src/cc1/out/ctrl.c
+++ b/src/cc1/out/ctrl.c
@@ -17,33 +17,8 @@
 
 #include "ctrl.h"
 
-static int spill_changes_flags(out_ctx *octx, const out_val *skip)
-{
-	out_val_list *i;
-
-	OCTX_ITER_VALS(octx, i){
-		const out_val *v = &i->val;
-
-		if(v->retains == 0 || v->phiblock || v == skip)
-			continue;
-
-		/* the pending offset is applied with an add/sub */
-		if((v->type == V_REG || v->type == V_REGOFF)
-		&& v->bits.regoff.offset
-		&& impl_reg_savable(&v->bits.regoff.reg))
-		{
-			return 1;
-		}
-	}
-
-	return 0;
-}
-
 static void v_transfer_spill(out_ctx *octx, const out_val *skip)
 {
-	if(skip && skip->type == V_FLAG && spill_changes_flags(octx, skip))
-		v_decay_flags(octx);
-
 	/* all active regs must be spilt here since we don't know if they'll be spilt
 	 * (or moved to callee-save) in one of the branches we're about to jump into,
 	 * and if they are spilt, they might not be spilt in the other branch,
diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index ddcfc0f..36b9c97 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -336,11 +336,6 @@ static const out_val *consume_one(
 	return ret;
 }
 
-static int has_pending_offset(const out_val *v)
-{
-	return v->type == V_REG && v->bits.regoff.offset;
-}
-
 const out_val *out_op(
 		out_ctx *octx, enum op_type binop,
 		const out_val *lhs, const out_val *rhs)
@@ -350,11 +345,6 @@ const out_val *out_op(
 	const out_val *result;
 	const out_val *decay_except[] = { lhs, rhs, NULL };
 
-	/* a pending offset is applied with an add/sub before
-	 * the other operand is looked at - the flag must be saved first */
-	if(has_pending_offset(lhs) || has_pending_offset(rhs))
-		decay_except[0] = NULL;
-
 	v_decay_flags_except(octx, decay_except); /* an op instruction may change cpu flags */
 
 	fill_if_type(lhs, &vconst, &vregp_or_lbl);
diff --git a/src/cc1/out/virt.c b/src/cc1/out/virt.c
index 65a60a1..b0c790d 100644
--- a/src/cc1/out/virt.c
+++ b/src/cc1/out/virt.c
@@ -425,6 +425,9 @@ const out_val *v_reg_apply_offset(out_ctx *octx, const out_val *const orig)
 	if(!off)
 		return orig;
 
+	/* the add/sub changes the cpu flags */
+	v_decay_flags(octx);
+
 	REMOVE_CONST(out_val *, orig)->bits.regoff.offset = 0;
 	{
 		vreg = v_dup_or_reuse(octx, orig, orig->t);
-- 
2.43.0


From 506c4e66528b73a90ac5ed3af50902cc17fd159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:32 +0000
Subject: [PATCH 034/122] fix: return inside a VLA's size expression asserts

---
 src/cc1/out/alloca.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/alloca.c b/src/cc1/out/alloca.c
index 4220281..219e091 100644
--- a/src/cc1/out/alloca.c
+++ b/src/cc1/out/alloca.c
@@ -71,8 +71,8 @@ void out_alloca_restore(out_ctx *octx, const out_val *ptr)
 	sp.idx = REG_SP;
 	sp.is_float = 0;
 
-	assert(octx->alloca_count > 0);
-
+	/* alloca_count may still be zero, when leaving
+	 * a vla's scope from inside its size expression */
 	out_flush_volatile(octx, v_to_reg_given(octx, ptr, &sp));
 }
 
-- 
2.43.0


From 6c6e4560aab2e101539dcf47bf8ab52a3c281bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:00 +0000
Subject: [PATCH 035/122] fix: leaving a scope from a declaration's own
 initialiser destroys it

---
 src/cc1/decl.h          | 4 +++-
 src/cc1/ops/stmt_code.c | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cc1/decl.h b/src/cc1/decl.h
index 5205f7a..c781677 100644
--- a/src/cc1/decl.h
+++ b/src/cc1/decl.h
@@ -43,7 +43,9 @@ struct decl
 	enum {
 		DECL_FLAGS_USED = 1 << 0,
 		DECL_FLAGS_ADDRESSED = 1 << 1,
-		DECL_FLAGS_IMPLICIT = 1 << 2
+		DECL_FLAGS_IMPLICIT = 1 << 2,
+		/* set while code up to and including its initialiser is generated */
+		DECL_FLAGS_UNINITIALISED = 1 << 3
 	} flags;
 
 	union
diff --git a/src/cc1/ops/stmt_code.c b/src/cc1/ops/stmt_code.c
index 64d3061..769095c 100644
--- a/src/cc1/ops/stmt_code.c
+++ b/src/cc1/ops/stmt_code.c
@@ -358,6 +358,9 @@ void gen_block_decls(
 	if(cc1_gdebug != DEBUG_OFF)
 		out_dbg_scope_enter(octx, stab);
 
+	for(diter = symtab_decls(stab); diter && *diter; diter++)
+		(*diter)->flags |= DECL_FLAGS_UNINITIALISED;
+
 	/* declare strings, extern functions, blocks and vlas */
 	for(diter = symtab_decls(stab); diter && *diter; diter++){
 		decl *d = *diter;
@@ -374,6 +377,7 @@ void gen_block_decls(
 
 				gen_asm_global_w_store(d, emit_tenatives, octx);
 			}
+			d->flags &= ~DECL_FLAGS_UNINITIALISED;
 			continue;
 		}
 
@@ -387,6 +391,8 @@ void gen_block_decls(
 			out_val_consume(octx,
 					gen_expr(d->bits.var.init.expr, octx));
 		}
+
+		d->flags &= ~DECL_FLAGS_UNINITIALISED;
 	}
 }
 
@@ -451,7 +457,7 @@ static void gen_scope_destructors(symtable *scope, out_ctx *octx)
 		di--;
 		d = *di;
 
-		if(d->sym){
+		if(d->sym && !(d->flags & DECL_FLAGS_UNINITIALISED)){
 			attribute *cleanup = attribute_present(d, attr_cleanup);
 
 			if(cleanup){
-- 
2.43.0


From 605928b294312521016c6428f426509c217873a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:39 +0000
Subject: [PATCH 036/122] fix: set the stack space of -fpcc-struct-return
 struct returns

---
 src/cc1/out/x86_64.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 511c9f4..b06b530 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -270,12 +270,6 @@ static enum stret x86_stret(type *ty, unsigned *stack_space)
 		return stret_scalar;
 	}
 
-	if(cc1_fopt.pcc_struct_return)
-		return stret_memcpy;
-
-	if(IS_32_BIT())
-		ICE("TODO: 32-bit stret");
-
 	sz = type_size(ty, NULL);
 
 	/* We unconditionally want to spill rdx:rax to the stack on return.
@@ -289,6 +283,12 @@ static enum stret x86_stret(type *ty, unsigned *stack_space)
 	if(stack_space)
 		*stack_space = sz;
 
+	if(cc1_fopt.pcc_struct_return)
+		return stret_memcpy;
+
+	if(IS_32_BIT())
+		ICE("TODO: 32-bit stret");
+
 	/* rdx:rax? */
 	if(sz > 2 * platform_word_size())
 		return stret_memcpy;
-- 
2.43.0


From 007f1c9bd4298a183780f5ff9f36e83462d93cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:16 +0000
Subject: [PATCH 037/122] fix: don't change a register's value in an operation
 when it has other users

---
 src/cc1/out/x86_64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index b06b530..5e9a217 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1767,8 +1767,9 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			r = v_to(octx, r, TO_REG | TO_CONST);
 		}
 
-		if(v_is_const_reg(l)){
-			/* ^ only check 'l' - 'r' is an rvalue and not changed */
+		if(v_is_const_reg(l) || (l->type == V_REG && l->retains > 1)){
+			/* ^ only check 'l' - 'r' is an rvalue and not changed.
+			 * also, don't change the value for its other users */
 			struct vreg new_reg, old_reg;
 
 			memcpy_safe(&old_reg, &l->bits.regoff.reg);
-- 
2.43.0


From 20c7eaa24ca918aeeac3b92561e0ae668312e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:16 +0000
Subject: [PATCH 038/122] fix: sanitizer checks: divide overflow by type,
 signed only; overflow checks of compound operations and only after
 flag-setting instructions

---
 src/cc1/ops/expr_assign_compound.c | 20 ++++++-
 src/cc1/ops/expr_op.c              | 91 ++++++++++++++++++++----------
 src/cc1/ops/expr_op.h              | 10 ++--
 src/cc1/out/op.c                   | 23 ++++++--
 src/cc1/out/out.h                  |  5 ++
 src/cc1/out/val.c                  | 10 ++++
 src/cc1/sanitize.c                 | 21 ++++---
 src/cc1/sanitize.h                 |  2 +-
 8 files changed, 133 insertions(+), 49 deletions(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index c4e591a..b53fa01 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -5,6 +5,7 @@
 #include "expr_op.h"
 
 #include "../type_nav.h"
+#include "../sanitize.h"
 
 const char *str_expr_assign_compound(void)
 {
@@ -96,6 +97,7 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	 * lea int, cast up to float, add, cast down to int, store
 	 */
 	const out_val *saved_post = NULL, *addr_lhs, *rhs, *lhs, *result;
+	type *op_type;
 
 	addr_lhs = gen_expr(e->lhs, octx);
 
@@ -117,8 +119,22 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	if(e->bits.compoundop.upcast_ty)
 		lhs = out_cast(octx, lhs, e->bits.compoundop.upcast_ty, /*normalise_bool:*/1);
 
-	result = out_op(octx, e->bits.compoundop.op, lhs, rhs);
-	gen_op_trapv(e->tree_type, &result, octx, e->bits.compoundop.op);
+	op_type = e->bits.compoundop.upcast_ty ? e->bits.compoundop.upcast_ty : e->tree_type;
+
+	switch(e->bits.compoundop.op){
+		case op_shiftl:
+		case op_shiftr:
+			sanitize_shift(op_type, e->rhs->tree_type, e->bits.compoundop.op, octx, &lhs, &rhs);
+			break;
+		case op_divide:
+		case op_modulus:
+			sanitize_divide(lhs, rhs, op_type, octx);
+			break;
+		default:
+			break;
+	}
+
+	result = gen_op_trapv(op_type, octx, e->bits.compoundop.op, lhs, rhs);
 
 	if(e->bits.compoundop.upcast_ty) /* need to cast back down to store */
 		result = out_cast(octx, result, e->tree_type, /*normalise_bool:*/1);
diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 75817e3..64058ad 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -1484,39 +1484,63 @@ static const out_val *op_shortcircuit(const expr *e, out_ctx *octx)
 	}
 }
 
-void gen_op_trapv(
-		type *evaltt,
-		const out_val **eval,
-		out_ctx *octx,
-		enum op_type op)
+static int op_is_trapv(type *evaltt, out_ctx *octx, enum op_type op)
 {
-	if(type_is_integral(evaltt) && type_is_signed(evaltt)){
-		if(!out_sanitize_enabled(octx, SAN_SIGNED_INTEGER_OVERFLOW))
-			return;
-	}else if(type_is_ptr(evaltt)){
-		if(!out_sanitize_enabled(octx, SAN_POINTER_OVERFLOW))
-			return;
-	}else{
-		return;
+	/* only these instructions tell us about overflow */
+	switch(op){
+		case op_plus:
+		case op_minus:
+		case op_multiply:
+			break;
+		default:
+			return 0;
 	}
 
-	if(op_is_comparison(op))
-		return;
+	if(type_is_integral(evaltt))
+		return type_is_signed(evaltt) && out_sanitize_enabled(octx, SAN_SIGNED_INTEGER_OVERFLOW);
+	if(type_is_ptr(evaltt))
+		return out_sanitize_enabled(octx, SAN_POINTER_OVERFLOW);
+	return 0;
+}
 
-	{
-		out_blk *land = out_blk_new(octx, "trapv_end");
-		out_blk *blk_undef = out_blk_new(octx, "trapv_bad");
+static const out_val *gen_trapv(const out_val *eval, out_ctx *octx, enum op_type op)
+{
+	out_blk *land = out_blk_new(octx, "trapv_end");
+	out_blk *blk_undef = out_blk_new(octx, "trapv_bad");
 
-		out_ctrl_branch(octx,
-				out_annotate_likely(octx, out_new_overflow(octx, eval), 1),
-				blk_undef,
-				land);
+	out_ctrl_branch(octx,
+			out_annotate_likely(octx, out_new_overflow(octx, &eval), 1),
+			blk_undef,
+			land);
 
-		out_current_blk(octx, blk_undef);
-		sanitize_fail(octx, op_to_str(op));
+	out_current_blk(octx, blk_undef);
+	sanitize_fail(octx, op_to_str(op));
 
-		out_current_blk(octx, land);
+	out_current_blk(octx, land);
+	return eval;
+}
+
+const out_val *gen_op_trapv(
+		type *evaltt, out_ctx *octx, enum op_type op,
+		const out_val *lhs, const out_val *rhs)
+{
+	const out_val *eval;
+	const int const_operand = out_val_is_const_i(lhs) || out_val_is_const_i(rhs);
+
+	if(!op_is_trapv(evaltt, octx, op))
+		return out_op(octx, op, lhs, rhs);
+
+	if(type_is_ptr(evaltt)){
+		eval = out_op(octx, op, lhs, rhs);
+
+		/* adding a constant to an address might not need an instruction */
+		if(const_operand && !out_val_is_regoffset(eval))
+			return eval;
+	}else{
+		eval = out_op_with_flags(octx, op, lhs, rhs);
 	}
+
+	return gen_trapv(eval, octx, op);
 }
 
 const out_val *gen_expr_op(const expr *e, out_ctx *octx)
@@ -1551,6 +1575,9 @@ const out_val *gen_expr_op(const expr *e, out_ctx *octx)
 		 * flag operations, without instantly promoting to int
 		 */
 
+		if(!out_val_is_const_i(eval) && op_is_trapv(e->tree_type, octx, e->bits.op.op))
+			eval = gen_trapv(eval, octx, e->bits.op.op);
+
 	}else{
 		const out_val *rhs = gen_expr(e->rhs, octx);
 
@@ -1560,24 +1587,30 @@ const out_val *gen_expr_op(const expr *e, out_ctx *octx)
 				break;
 			case op_shiftl:
 			case op_shiftr:
-				sanitize_shift(e->lhs, e->rhs, e->bits.op.op, octx, &lhs, &rhs);
+				sanitize_shift(
+						e->lhs->tree_type, e->rhs->tree_type,
+						e->bits.op.op, octx, &lhs, &rhs);
 				break;
 			case op_divide:
+			case op_modulus:
 				sanitize_divide(lhs, rhs, e->tree_type, octx);
 				break;
 			default:
 				break;
 		}
 
-		eval = out_op(octx, e->bits.op.op, lhs, rhs);
+		if(type_is_ptr(e->lhs->tree_type) && !type_is_ptr(e->tree_type)){
+			/* pointer difference - no overflow check, the division comes last */
+			eval = out_op(octx, e->bits.op.op, lhs, rhs);
+		}else{
+			eval = gen_op_trapv(e->tree_type, octx, e->bits.op.op, lhs, rhs);
+		}
 
 		/* make sure we get the pointer, for example 2+(int *)p
 		 * or the int, e.g. (int *)a && (int *)b -> int */
 		eval = out_change_type(octx, eval, e->tree_type);
 	}
 
-	gen_op_trapv(e->tree_type, &eval, octx, e->bits.op.op);
-
 	return eval;
 }
 
diff --git a/src/cc1/ops/expr_op.h b/src/cc1/ops/expr_op.h
index 3844b95..f8e2f78 100644
--- a/src/cc1/ops/expr_op.h
+++ b/src/cc1/ops/expr_op.h
@@ -35,11 +35,11 @@ int fold_check_bounds(expr *e, int chk_one_past_end);
 void expr_check_sign(const char *desc,
 		expr *lhs, expr *rhs, where *w);
 
-void gen_op_trapv(
-		type *evaltt,
-		const out_val **eval,
-		out_ctx *octx,
-		enum op_type op);
+/* out_op(), checking for overflow if enabled */
+const out_val *gen_op_trapv(
+		type *evaltt, out_ctx *octx, enum op_type op,
+		const out_val *lhs, const out_val *rhs)
+	ucc_wur;
 
 expr *expr_new_op(enum op_type o);
 expr *expr_new_op2(enum op_type o, expr *l, expr *r);
diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 36b9c97..fbb8162 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -336,9 +336,10 @@ static const out_val *consume_one(
 	return ret;
 }
 
-const out_val *out_op(
+static const out_val *out_op_maybe_flags(
 		out_ctx *octx, enum op_type binop,
-		const out_val *lhs, const out_val *rhs)
+		const out_val *lhs, const out_val *rhs,
+		const int want_flags)
 {
 	const out_val *div = NULL;
 	const out_val *vconst = NULL, *vregp_or_lbl = NULL;
@@ -351,14 +352,14 @@ const out_val *out_op(
 	fill_if_type(rhs, &vconst, &vregp_or_lbl);
 
 	/* check for adding or subtracting to stack */
-	if(vconst && vregp_or_lbl){
+	if(vconst && vregp_or_lbl && !want_flags){
 		result = try_mem_offset(octx, binop, vconst, vregp_or_lbl, rhs);
 		if(result)
 			return result;
 	}
 
 	/* constant folding */
-	if(vconst && cc1_fopt.const_fold){
+	if(vconst && cc1_fopt.const_fold && !want_flags){
 		const out_val *oconst = (vconst == lhs ? rhs : lhs);
 
 		if(oconst->type == V_CONST_I){
@@ -406,6 +407,20 @@ const out_val *out_op(
 	return result;
 }
 
+const out_val *out_op(
+		out_ctx *octx, enum op_type binop,
+		const out_val *lhs, const out_val *rhs)
+{
+	return out_op_maybe_flags(octx, binop, lhs, rhs, 0);
+}
+
+const out_val *out_op_with_flags(
+		out_ctx *octx, enum op_type binop,
+		const out_val *lhs, const out_val *rhs)
+{
+	return out_op_maybe_flags(octx, binop, lhs, rhs, 1);
+}
+
 const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 {
 	switch(uop){
diff --git a/src/cc1/out/out.h b/src/cc1/out/out.h
index e547aec..fba5f35 100644
--- a/src/cc1/out/out.h
+++ b/src/cc1/out/out.h
@@ -78,6 +78,8 @@ ucc_wur const out_val *out_annotate_likely(
 
 /* operators/comparisons */
 ucc_wur const out_val *out_op(out_ctx *, enum op_type, const out_val *lhs, const out_val *rhs);
+/* don't fold or defer the operation, so the cpu flags can be tested afterwards */
+ucc_wur const out_val *out_op_with_flags(out_ctx *, enum op_type, const out_val *lhs, const out_val *rhs);
 ucc_wur const out_val *out_op_unary(out_ctx *, enum op_type, const out_val *);
 
 ucc_wur const out_val *out_memcpy(
@@ -179,6 +181,9 @@ void out_force_read(out_ctx *octx, type *, const out_val *);
 
 const char *out_get_lbl(const out_val *) ucc_nonnull();
 int out_is_nonconst_temporary(const out_val *) ucc_nonnull();
+
+int out_val_is_const_i(const out_val *) ucc_nonnull();
+int out_val_is_regoffset(const out_val *) ucc_nonnull();
 unsigned out_current_stack(out_ctx *); /* used in inlining */
 
 /* commenting */
diff --git a/src/cc1/out/val.c b/src/cc1/out/val.c
index 1783407..08ad8c1 100644
--- a/src/cc1/out/val.c
+++ b/src/cc1/out/val.c
@@ -410,6 +410,16 @@ const char *out_get_lbl(const out_val *v)
 	return v->type == V_LBL ? v->bits.lbl.str : NULL;
 }
 
+int out_val_is_const_i(const out_val *v)
+{
+	return v->type == V_CONST_I;
+}
+
+int out_val_is_regoffset(const out_val *v)
+{
+	return v->type == V_REG && v->bits.regoff.offset;
+}
+
 int out_is_nonconst_temporary(const out_val *v)
 {
 	switch(v->type){
diff --git a/src/cc1/sanitize.c b/src/cc1/sanitize.c
index c0c4713..cdf3717 100644
--- a/src/cc1/sanitize.c
+++ b/src/cc1/sanitize.c
@@ -69,10 +69,12 @@ static void sanitize_assert_order(
 			op_type,
 			limit);
 
-	const out_val *lengthened_test = out_change_type(
+	/* a proper conversion: the value may be narrower than op_type */
+	const out_val *lengthened_test = out_cast(
 			octx,
 			out_val_retain(octx, test),
-			op_type);
+			op_type,
+			/*normalise_bool:*/0);
 
 	sanitize_assert_order2(lengthened_test, op, vlimit, octx, desc);
 }
@@ -157,13 +159,13 @@ void sanitize_vlacheck(const out_val *vla_sz, type *sz_ty, out_ctx *octx)
 }
 
 void sanitize_shift(
-		expr *elhs, expr *erhs,
+		type *tlhs, type *trhs,
 		enum op_type op,
 		out_ctx *octx,
 		const out_val **const lhs, const out_val **const rhs)
 {
 	/* rhs must be < bit-size of lhs' type */
-	const unsigned max = CHAR_BIT * type_size(elhs->tree_type, NULL);
+	const unsigned max = CHAR_BIT * type_size(tlhs, NULL);
 	out_blk *current;
 
 	if(!out_sanitize_enabled(octx, SAN_SHIFT_EXPONENT))
@@ -179,11 +181,11 @@ void sanitize_shift(
 	sanitize_assert_order(*rhs, op_lt, max, uintptr_ty(), octx, "shift rhs size");
 
 	/* rhs must not be negative */
-	sanitize_assert_order(*rhs, op_ge, 0, erhs->tree_type, octx, "shift rhs negative");
+	sanitize_assert_order(*rhs, op_ge, 0, trhs, octx, "shift rhs negative");
 
 	/* if left shift, lhs must not be negative */
 	if(op == op_shiftl)
-		sanitize_assert_order(*lhs, op_ge, 0, elhs->tree_type, octx, "shift lhs negative");
+		sanitize_assert_order(*lhs, op_ge, 0, tlhs, octx, "shift lhs negative");
 
 	*lhs = out_val_unphi(octx, *lhs);
 	*rhs = out_val_unphi(octx, *rhs);
@@ -192,6 +194,7 @@ void sanitize_shift(
 void sanitize_divide(const out_val *lhs, const out_val *rhs, type *ty, out_ctx *octx)
 {
 	const out_val *cmp, *zero;
+	integral_t min;
 	const int is_fp = type_is_floating(ty);
 
 	if(is_fp){
@@ -213,11 +216,13 @@ void sanitize_divide(const out_val *lhs, const out_val *rhs, type *ty, out_ctx *
 	cmp = out_op(octx, op_ne, out_val_retain(octx, rhs), zero);
 	sanitize_assert(cmp, octx, "divide by zero");
 
-	if(is_fp)
+	if(is_fp || !type_is_signed(ty))
 		return;
 
+	min = (integral_t)1 << (CHAR_BIT * type_size(ty, NULL) - 1);
+
 	cmp = out_op(octx, op_or,
-			out_op(octx, op_ne, out_val_retain(octx, lhs), out_new_l(octx, ty, UCC_INT_MIN)),
+			out_op(octx, op_ne, out_val_retain(octx, lhs), out_new_l(octx, ty, -(sintegral_t)min)),
 			out_op(octx, op_ne, out_val_retain(octx, rhs), out_new_l(octx, ty, -1)));
 	sanitize_assert(cmp, octx, "INT_MIN / -1");
 }
diff --git a/src/cc1/sanitize.h b/src/cc1/sanitize.h
index 410e336..ec4fadc 100644
--- a/src/cc1/sanitize.h
+++ b/src/cc1/sanitize.h
@@ -13,7 +13,7 @@ void sanitize_boundscheck(
 void sanitize_vlacheck(const out_val *vla_sz, type *sz_ty, out_ctx *);
 
 void sanitize_shift(
-		expr *elhs, expr *erhs,
+		type *tlhs, type *trhs,
 		enum op_type,
 		out_ctx *octx,
 		const out_val **lhs, const out_val **rhs);
-- 
2.43.0


From 2addb09673de6d524b4536fa83be0fcaf6289fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 039/122] fix: sizes of VLAs in an inlined function belong to
 each inlined call

---
 src/cc1/inline.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cc1/inline.c b/src/cc1/inline.c
index 535228a..cc5c35b 100644
--- a/src/cc1/inline.c
+++ b/src/cc1/inline.c
@@ -22,6 +22,7 @@
 #include "funcargs.h"
 #include "type_is.h"
 
+#include "vla.h"
 #include "inline.h"
 
 #include "cc1_out_ctx.h"
@@ -202,6 +203,7 @@ static const out_val *gen_inline_func(
 
 	struct out_dbg_lbl *dbg_endlbl = NULL;
 	dynmap *nested_label_map;
+	dynmap *saved_vlamap;
 
 	if(!cc1_octx->sym_inline_map)
 		cc1_octx->sym_inline_map = dynmap_new(sym *, NULL, sym_hash);
@@ -228,10 +230,18 @@ static const out_val *gen_inline_func(
 		RELEASE(dbg_startlbl);
 	}
 
+	/* the sizes of VLAs belong to this call of the function,
+	 * not to any previous or outer inlining of it */
+	saved_vlamap = cc1_octx->vlamap;
+	cc1_octx->vlamap = NULL;
+
 	inline_sym_map_save(arg_symtab, args, pushed_vals, cc1_octx, octx);
 
 	gen_func_stmt(func_code, octx);
 
+	vla_cleanup(octx);
+	cc1_octx->vlamap = saved_vlamap;
+
 	inline_sym_map_restore(arg_symtab, pushed_vals, cc1_octx, octx);
 
 	if(cc1_gdebug != DEBUG_OFF){
-- 
2.43.0


From 5388cb2ef8f280451c9a5b9fb97c3f781f119b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 040/122] fix: -fno-const-fold: truncate constants in casts

---
 src/cc1/out/out.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index b732a37..23053c7 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -198,6 +198,19 @@ const out_val *out_cast(out_ctx *octx, const out_val *val, type *to, int normali
 						from ? type_to_str_r(buf, from) : "",
 						to   ? type_to_str(to) : "",
 						szfrom, szto);
+
+				if(val->type == V_CONST_I){
+					/* no instruction will do the truncation */
+					out_val *mut = v_dup_or_reuse(octx, val, val->t);
+					sintegral_t sign_extended;
+					integral_t truncated = integral_truncate(
+							mut->bits.val_i, szto, &sign_extended);
+
+					mut->bits.val_i = type_is_signed(to)
+						? (integral_t)sign_extended
+						: truncated;
+					val = mut;
+				}
 			}
 		}
 	}
-- 
2.43.0


From 14e90252bcc459a5517cdde7ee3d518d2ac588ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:42 +0000
Subject: [PATCH 041/122] fix: negation changes pending comparison flags

---
 src/cc1/out/op.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index fbb8162..7b02a93 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -470,6 +470,12 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 			break;
 	}
 
+	{
+		const out_val *decay_except[] = { val, NULL };
+
+		v_decay_flags_except(octx, decay_except); /* may change cpu flags */
+	}
+
 	return impl_op_unary(octx, uop, val);
 }
 
-- 
2.43.0


From bdae091d82f26cab6786cf3fd9453e4800e28191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:03 +0000
Subject: [PATCH 042/122] fix: shifts and divides change a register with other
 users

---
 src/cc1/out/x86_64.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 5e9a217..c6d010e 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1360,6 +1360,22 @@ void impl_reg_cp_no_off(
 	x86_reg_cp(octx, to_reg, &from->bits.regoff.reg, from->t);
 }
 
+static const out_val *x86_copy_shared_reg(out_ctx *octx, const out_val *l)
+{
+	/* `l' is about to be changed by an instruction,
+	 * don't change the value for its other users */
+	struct vreg new_reg, old_reg;
+
+	memcpy_safe(&old_reg, &l->bits.regoff.reg);
+
+	v_unused_reg(octx, 1, 0, &new_reg, l);
+	l = v_new_reg(octx, l, l->t, &new_reg);
+
+	x86_reg_cp(octx, &new_reg, &old_reg, l->t);
+
+	return l;
+}
+
 static const out_val *x86_idiv(
 		out_ctx *octx, enum op_type op,
 		const out_val *l, const out_val *r)
@@ -1382,6 +1398,8 @@ static const out_val *x86_idiv(
 
 		/* need to move 'l' into eax
 		 * then sign extended later - cqto */
+		if(l->type == V_REG && l->retains > 1)
+			l = x86_copy_shared_reg(octx, l);
 		l = v_to_reg_given_freeup_no_off(octx, l, &rax);
 		l = v_reg_apply_offset(octx, l);
 
@@ -1468,7 +1486,9 @@ static const out_val *x86_shift(
 	if(type_cmp(r->t, nchar, 0) & ~TYPE_EQUAL_ANY)
 		r = v_dup_or_reuse(octx, r, nchar); /* change type */
 
-	l = v_to(octx, l, TO_MEM | TO_REG);
+	l = v_to(octx, l, l->retains > 1 ? TO_REG : TO_MEM | TO_REG);
+	if(l->type == V_REG && l->retains > 1)
+		l = x86_copy_shared_reg(octx, l);
 
 	impl_val_str_r(bufv, l, 0);
 	impl_val_str_r(bufs, r, 0);
@@ -1768,16 +1788,8 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 		}
 
 		if(v_is_const_reg(l) || (l->type == V_REG && l->retains > 1)){
-			/* ^ only check 'l' - 'r' is an rvalue and not changed.
-			 * also, don't change the value for its other users */
-			struct vreg new_reg, old_reg;
-
-			memcpy_safe(&old_reg, &l->bits.regoff.reg);
-
-			v_unused_reg(octx, 1, 0, &new_reg, l);
-			l = v_new_reg(octx, l, l->t, &new_reg);
-
-			x86_reg_cp(octx, &new_reg, &old_reg, l->t);
+			/* ^ only check 'l' - 'r' is an rvalue and not changed */
+			l = x86_copy_shared_reg(octx, l);
 		}
 
 		/* ensure types match - may have upgraded from V_FLAG / _Bool */
-- 
2.43.0


From 79f64115bfdcbd6c6bbf0cdff24ca76d96b2833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:03 +0000
Subject: [PATCH 043/122] fix: a branch condition used after the branch is not
 kept across calls in one branch

---
 src/cc1/out/ctrl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/ctrl.c b/src/cc1/out/ctrl.c
index 1642b68..4c943f9 100644
--- a/src/cc1/out/ctrl.c
+++ b/src/cc1/out/ctrl.c
@@ -34,7 +34,11 @@ void out_ctrl_branch(
 		out_blk *if_true, out_blk *if_false)
 {
 	v_decay_flags_except1(octx, cond);
-	v_transfer_spill(octx, cond);
+
+	/* a condition that's used again after the branch is live in both branches,
+	 * and must be spilt along with everything else */
+	v_transfer_spill(octx,
+			cond->retains > 1 && cond->type != V_FLAG ? NULL : cond);
 
 	impl_branch(octx,
 			cond, if_true, if_false,
-- 
2.43.0


From 2928bfc144cdf0208864180c00bf768739cff365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:03 +0000
Subject: [PATCH 044/122] fix: -fsanitize-undefined-trap-on-error is rejected

---
 src/cc1/cc1.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cc1/cc1.c b/src/cc1/cc1.c
index 25c47c4..6e43aa2 100644
--- a/src/cc1/cc1.c
+++ b/src/cc1/cc1.c
@@ -426,11 +426,6 @@ static int parse_mf_equals(
 		}else if(!strncmp(arg_substr, "sanitize-error=", 15)){
 			sanitize_opt_set_error(argv0, arg_substr + 15);
 			return 1;
-		}else if(!strcmp(arg_substr, "sanitize-undefined-trap-on-error")){
-			/* currently the choices are a noreturn function, or trap.
-			 * in the future, support could be added for linking with gcc or clang's libubsan,
-			 * and calling the runtime support functions therein */
-			sanitize_opt_set_error(argv0, "trap");
 		}else if(!strncmp(arg_substr, "visibility=", 11)){
 			requested_default_visibility = arg_substr + 11;
 			return 1;
@@ -543,7 +538,17 @@ static void parse_Wmf_option(
 	}
 
 	if(arg_ty == 'f'){
-		unsigned char *opt = fopt_on(&cc1_fopt, arg_substr, invert);
+		unsigned char *opt;
+
+		if(!invert && !strcmp(arg_substr, "sanitize-undefined-trap-on-error")){
+			/* currently the choices are a noreturn function, or trap.
+			 * in the future, support could be added for linking with gcc or clang's libubsan,
+			 * and calling the runtime support functions therein */
+			sanitize_opt_set_error(argv0, "trap");
+			return;
+		}
+
+		opt = fopt_on(&cc1_fopt, arg_substr, invert);
 		if(opt){
 			if(opt == &cc1_fopt.colour_diagnostics)
 				colour_enable(*opt);
-- 
2.43.0


From a0c42573d4ea7b7cb730d0d9f8b89fd236e0574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:03 +0000
Subject: [PATCH 045/122] fix: __builtin_*_overflow with char, unsigned and
 mixed types

---
 src/cc1/ops/__builtin.c | 178 +++++++++++++++++++++++++++++++---------
 1 file changed, 137 insertions(+), 41 deletions(-)

diff --git a/src/cc1/ops/__builtin.c b/src/cc1/ops/__builtin.c
index efd33b7..0256fac 100644
--- a/src/cc1/ops/__builtin.c
+++ b/src/cc1/ops/__builtin.c
@@ -1185,62 +1185,158 @@ static void fold_arith_overflow(expr *e, symtable *stab)
 	}
 }
 
-static type *arith_overflow_largest_type(const expr *e)
-{
-	type *t = type_is_ptr(e->funcargs[2]->tree_type);
-	unsigned sz = type_size(t, NULL);
-	int i;
-
-	for(i = 0; i < 2; i++){
-		type *t2 = e->funcargs[i]->tree_type;
-		unsigned sz2 = type_size(t2, NULL);
-
-		if(sz2 > sz){
-			t = t2;
-			sz = sz2;
-		}
+static int arith_overflow_fits_long(type *t)
+{
+	return type_is_signed(t)
+		|| type_size(t, NULL) < type_primitive_size(type_long);
+}
+
+static const out_val *arith_overflow_signbits(
+		out_ctx *octx, const out_val *v, type *longty, type *ulongty)
+{
+	/* 0 or -1 (as ulongty), depending on v's sign. `v' isn't consumed */
+	return out_cast(octx,
+			out_op(octx, op_shiftr,
+				out_cast(octx, out_val_retain(octx, v), longty, 0),
+				out_new_l(octx, longty, 63)),
+			ulongty, 0);
+}
+
+static const out_val *arith_overflow_mul_high(
+		out_ctx *octx, const out_val *a, const out_val *b, type *ulongty)
+{
+	/* the high half of the unsigned multiplication of a and b,
+	 * neither of which are consumed */
+	const long mask = 0xffffffff;
+	const out_val *a_lo, *a_hi, *b_lo, *b_hi;
+	const out_val *w0, *w1, *w2;
+
+#define KEEP(v) out_val_retain(octx, v)
+#define LO(v) out_op(octx, op_and, v, out_new_l(octx, ulongty, mask))
+#define HI(v) out_op(octx, op_shiftr, v, out_new_l(octx, ulongty, 32))
+#define MUL(x, y) out_op(octx, op_multiply, KEEP(x), KEEP(y))
+#define ADD(x, y) out_op(octx, op_plus, x, y)
+
+	a_lo = LO(KEEP(a));
+	a_hi = HI(KEEP(a));
+	b_lo = LO(KEEP(b));
+	b_hi = HI(KEEP(b));
+
+	w0 = HI(MUL(a_lo, b_lo));
+	w1 = ADD(MUL(a_hi, b_lo), w0);
+	w2 = ADD(MUL(a_lo, b_hi), LO(KEEP(w1)));
+
+	w2 = ADD(HI(w1), HI(w2));
+	w2 = ADD(MUL(a_hi, b_hi), w2);
+
+	out_val_release(octx, a_lo);
+	out_val_release(octx, a_hi);
+	out_val_release(octx, b_lo);
+	out_val_release(octx, b_hi);
+
+#undef KEEP
+#undef LO
+#undef HI
+#undef MUL
+#undef ADD
+
+	return w2;
+}
+
+static const out_val *arith_overflow_high(
+		out_ctx *octx, enum op_type op,
+		const out_val *lhs, type *tlhs,
+		const out_val *rhs, type *trhs,
+		const out_val *result,
+		type *longty, type *ulongty)
+{
+	/* the half of lhs `op' rhs which is above `result'.
+	 * lhs and rhs are consumed */
+	const out_val *high;
+	const out_val *lhs_sign = type_is_signed(tlhs)
+		? arith_overflow_signbits(octx, lhs, longty, ulongty)
+		: out_new_zero(octx, ulongty);
+	const out_val *rhs_sign = type_is_signed(trhs)
+		? arith_overflow_signbits(octx, rhs, longty, ulongty)
+		: out_new_zero(octx, ulongty);
+
+	if(op == op_multiply){
+		high = arith_overflow_mul_high(octx, lhs, rhs, ulongty);
+		high = out_op(octx, op_minus, high, out_op(octx, op_and, lhs_sign, rhs));
+		high = out_op(octx, op_minus, high, out_op(octx, op_and, rhs_sign, lhs));
+	}else{
+		const out_val *carry = op == op_plus
+			? out_op(octx, op_lt, out_val_retain(octx, result), lhs)
+			: out_op(octx, op_lt, out_val_retain(octx, lhs), out_val_retain(octx, rhs));
+
+		if(op == op_minus)
+			out_val_release(octx, lhs);
+		out_val_release(octx, rhs);
+
+		high = out_op(octx, op,
+				out_op(octx, op, lhs_sign, rhs_sign),
+				out_cast(octx, carry, ulongty, 0));
 	}
 
-	return t;
+	return high;
 }
 
 static const out_val *gen_arith_overflow(const expr *e, out_ctx *octx)
 {
-	const out_val *lhs, *rhs, *result, *result_trunc;
+	/* the operation is done on (unsigned) longs, and has overflowed if the
+	 * infinitely precise result isn't that which is stored */
+	type *const longty = type_nav_btype(cc1_type_nav, type_long);
+	type *const ulongty = type_nav_btype(cc1_type_nav, type_ulong);
+	type *const boolty = type_nav_btype(cc1_type_nav, type__Bool);
+	type *const tlhs = e->funcargs[0]->tree_type;
+	type *const trhs = e->funcargs[1]->tree_type;
+	type *const storety = type_is_ptr(e->funcargs[2]->tree_type);
+	const enum op_type op = e->bits.op.op;
+	const int in_long = arith_overflow_fits_long(tlhs)
+		&& arith_overflow_fits_long(trhs)
+		&& arith_overflow_fits_long(storety);
+	type *const evalty = in_long ? longty : ulongty;
+	const out_val *lhs, *rhs, *result, *result_trunc, *store;
 	const out_val *of;
-	const out_val *store;
-	type *largest = arith_overflow_largest_type(e);
-	type *storety = type_is_ptr(e->funcargs[2]->tree_type);
-	int smaller_than_int = type_size(storety, NULL) < type_primitive_size(type_int);
 
-	lhs = gen_expr(e->funcargs[0], octx);
-	rhs = gen_expr(e->funcargs[1], octx);
+	lhs = out_cast(octx, gen_expr(e->funcargs[0], octx), evalty, 0);
+	rhs = out_cast(octx, gen_expr(e->funcargs[1], octx), evalty, 0);
 
-	lhs = out_cast(octx, lhs, largest, 0);
-	rhs = out_cast(octx, rhs, largest, 0);
+	if(in_long){
+		result = out_op(octx, op, lhs, rhs);
+		of = out_new_overflow(octx, &result);
+	}else{
+		const out_val *high, *expected_high;
 
-	result = out_op(octx, e->bits.op.op, lhs, rhs);
+		result = out_op(octx, op,
+				out_val_retain(octx, lhs), out_val_retain(octx, rhs));
 
-	of = out_new_overflow(octx, &result);
+		high = arith_overflow_high(
+				octx, op, lhs, tlhs, rhs, trhs, result, longty, ulongty);
 
-	store = gen_expr(e->funcargs[2], octx);
-	if(smaller_than_int)
-		out_val_retain(octx, result);
+		expected_high = arith_overflow_fits_long(storety)
+			? arith_overflow_signbits(octx, result, longty, ulongty)
+			: out_new_zero(octx, ulongty);
 
-	result_trunc = out_cast(octx, result, storety, 0);
-	out_store(octx, store, result_trunc);
-
-	if(smaller_than_int){
-		type *intty = type_nav_btype(cc1_type_nav, type_int);
-		const out_val *extended, *shortened;
-		const out_val *hasdiff;
+		of = out_op(octx, op_ne, high, expected_high);
+	}
 
-		out_val_retain(octx, result);
-		extended = out_cast(octx, result, intty, 0);
-		shortened = out_cast(octx, extended, storety, 0);
-		hasdiff = out_op(octx, op_ne, shortened, result);
+	store = gen_expr(e->funcargs[2], octx);
 
-		of = out_op(octx, op_or, of, hasdiff);
+	out_val_retain(octx, result);
+	result_trunc = out_cast(octx, result, storety, 0);
+	out_store(octx, store, out_val_retain(octx, result_trunc));
+
+	if(type_size(storety, NULL) < type_size(evalty, NULL)){
+		const out_val *hasdiff = out_op(octx, op_ne,
+				out_cast(octx, result_trunc, evalty, 0), result);
+
+		of = out_op(octx, op_or,
+				out_cast(octx, of, boolty, 0),
+				out_cast(octx, hasdiff, boolty, 0));
+	}else{
+		out_val_release(octx, result_trunc);
+		out_val_release(octx, result);
 	}
 
 	return of;
-- 
2.43.0


From a67b33fc5d31563bc965f7d9290ad476a94bbd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 046/122] fix: nonnull argument checks for inlined calls and
 redeclared or static functions, but not for non-pointers

---
 src/cc1/gen_asm.c  |  2 +-
 src/cc1/inline.c   |  3 +++
 src/cc1/sanitize.c | 22 +++++++++++++++++-----
 src/cc1/sanitize.h |  2 +-
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/cc1/gen_asm.c b/src/cc1/gen_asm.c
index fea2506..dbbd7ca 100644
--- a/src/cc1/gen_asm.c
+++ b/src/cc1/gen_asm.c
@@ -361,7 +361,7 @@ static void gen_asm_global(const struct section *section, decl *d, out_ctx *octx
 		if(cc1_gdebug == DEBUG_FULL)
 			out_dbg_emit_args_done(octx, type_funcargs(d->ref));
 
-		sanitize_nonnull_args(arg_symtab, octx);
+		sanitize_nonnull_args(d, arg_symtab, octx);
 
 		gen_func_stmt(d->bits.func.code, octx);
 
diff --git a/src/cc1/inline.c b/src/cc1/inline.c
index cc5c35b..f905368 100644
--- a/src/cc1/inline.c
+++ b/src/cc1/inline.c
@@ -23,6 +23,7 @@
 #include "type_is.h"
 
 #include "vla.h"
+#include "sanitize.h"
 #include "inline.h"
 
 #include "cc1_out_ctx.h"
@@ -237,6 +238,8 @@ static const out_val *gen_inline_func(
 
 	inline_sym_map_save(arg_symtab, args, pushed_vals, cc1_octx, octx);
 
+	sanitize_nonnull_args(iouts->fndecl, arg_symtab, octx);
+
 	gen_func_stmt(func_code, octx);
 
 	vla_cleanup(octx);
diff --git a/src/cc1/sanitize.c b/src/cc1/sanitize.c
index cdf3717..0d4bac3 100644
--- a/src/cc1/sanitize.c
+++ b/src/cc1/sanitize.c
@@ -227,19 +227,31 @@ void sanitize_divide(const out_val *lhs, const out_val *rhs, type *ty, out_ctx *
 	sanitize_assert(cmp, octx, "INT_MIN / -1");
 }
 
-void sanitize_nonnull_args(symtable *arg_symtab, out_ctx *octx)
+void sanitize_nonnull_args(decl *fn, symtable *arg_symtab, out_ctx *octx)
 {
-	/* by this stage, any nonnull attribute will have been applied to each argument decl type */
+	/* the nonnull attribute may be on any declaration of the function */
+	unsigned long nonnulls = 0;
 	decl **i;
+	unsigned n;
 
 	if(!out_sanitize_enabled(octx, SAN_NONNULL_ATTRIBUTE))
 		return;
 
-	for(i = symtab_decls(arg_symtab); i && *i; i++){
+	for(; fn; fn = fn->proto){
+		attribute *da = attr_present(fn->attr, attr_nonnull);
+		if(!da)
+			da = type_attr_present(fn->ref, attr_nonnull);
+		if(da)
+			nonnulls |= da->bits.nonnull_args;
+	}
+
+	for(n = 0, i = symtab_decls(arg_symtab); i && *i; i++, n++){
 		decl *d = *i;
-		attribute *da = attribute_present(d, attr_nonnull);
 
-		if(!da)
+		if(!type_is(d->ref, type_ptr) && !type_is(d->ref, type_block))
+			continue; /* e.g. an int, where every argument is nonnull */
+
+		if(!(nonnulls & (1UL << n)) && !attribute_present(d, attr_nonnull))
 			continue;
 
 		sanitize_assert(
diff --git a/src/cc1/sanitize.h b/src/cc1/sanitize.h
index ec4fadc..3245ea0 100644
--- a/src/cc1/sanitize.h
+++ b/src/cc1/sanitize.h
@@ -18,7 +18,7 @@ void sanitize_shift(
 		out_ctx *octx,
 		const out_val **lhs, const out_val **rhs);
 
-void sanitize_nonnull_args(symtable *, out_ctx *);
+void sanitize_nonnull_args(decl *fn, symtable *, out_ctx *);
 
 void sanitize_divide(const out_val *lhs, const out_val *rhs, type *, out_ctx *);
 
-- 
2.43.0


From de7fc97f6129708e4e9e3345e43331f8ccd76e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 047/122] fix: negative VLA indexes pass -fsanitize=bounds

---
 src/cc1/sanitize.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc1/sanitize.c b/src/cc1/sanitize.c
index 0d4bac3..495eced 100644
--- a/src/cc1/sanitize.c
+++ b/src/cc1/sanitize.c
@@ -136,8 +136,10 @@ void sanitize_boundscheck(
 			else
 				tsize = out_new_l(octx, uintptr_ty(), type_size(tnext, NULL));
 
-			out_val_retain(octx, val);
-			byteindex = out_op(octx, op_multiply, val, tsize);
+			/* force unsigned compare, as above */
+			byteindex = out_op(octx, op_multiply,
+					out_cast(octx, out_val_retain(octx, val), uintptr_ty(), 0),
+					tsize);
 
 			bytesize = vla_size(array_decl->ref, octx);
 
-- 
2.43.0


From 31153fb7aefed6ea42fc6228d0995c1759f1418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:19 +0000
Subject: [PATCH 048/122] fix: the size of a VLA of pointers is multiplied by
 what's pointed to

---
 src/cc1/vla.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cc1/vla.c b/src/cc1/vla.c
index 5f36c94..bdce16f 100644
--- a/src/cc1/vla.c
+++ b/src/cc1/vla.c
@@ -138,8 +138,13 @@ static const out_val *vla_gen_size_ty(
 
 		case type_ptr:
 		case type_block:
-			mul = platform_word_size();
-			break;
+			/* the size of what's pointed to doesn't matter,
+			 * except for its side effects and to save it for later */
+			if(type_is_variably_modified(type_next(t)))
+				out_val_consume(octx, vla_gen_size_ty(type_next(t), octx, arith_ty, stack_ent));
+			else if(stack_ent)
+				out_val_release(octx, stack_ent);
+			return out_new_l(octx, arith_ty, platform_word_size());
 
 		case type_array:
 			if(t->bits.array.vla_kind){
-- 
2.43.0


From e2eb1bad47c50435d16ad9329136393bece5385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:45 +0000
Subject: [PATCH 049/122] fix: don't load a struct's return registers over its
 own address

---
 src/cc1/out/impl.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cc1/out/impl.c b/src/cc1/out/impl.c
index 665e741..e7e32a2 100644
--- a/src/cc1/out/impl.c
+++ b/src/cc1/out/impl.c
@@ -200,6 +200,26 @@ static void impl_overlay_mem_reg(
 			v_reserve_reg(octx, &regs[reg_i]);
 		nreserved = nregs;
 		reg_i = 0;
+
+	}else if(ptr->type == V_REG){
+		/* don't let the address be in a register we're about to load */
+		for(reg_i = 0; reg_i < nregs; reg_i++)
+			if(vreg_eq(&ptr->bits.regoff.reg, &regs[reg_i]))
+				break;
+
+		if(reg_i < nregs){
+			struct vreg addr_reg;
+
+			for(reg_i = 0; reg_i < nregs; reg_i++)
+				v_reserve_reg(octx, &regs[reg_i]);
+
+			v_unused_reg(octx, 1, 0, &addr_reg, NULL);
+			ptr = v_to_reg_given(octx, ptr, &addr_reg);
+
+			for(reg_i = 0; reg_i < nregs; reg_i++)
+				v_unreserve_reg(octx, &regs[reg_i]);
+		}
+		reg_i = 0;
 	}
 
 	for(;; cur_reg++, reg_i++){
-- 
2.43.0


From 1783b40ffd6a7e84b4a8be7e36c05886539c21d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:45 +0000
Subject: [PATCH 050/122] fix: #if precedence, unsigned arithmetic, unevaluated
 operands and skipped groups

---
 src/cpp2/directive.c |  61 ++++++++------
 src/cpp2/expr.c      | 193 ++++++++++++++++++++++++++-----------------
 src/cpp2/expr.h      |   8 +-
 src/cpp2/expr_tok.c  |  12 ++-
 4 files changed, 167 insertions(+), 107 deletions(-)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index b58fb51..497e661 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -54,18 +54,10 @@ static int noop = 0;
 static enum if_elif_state if_elif_chosen = NO_TRUTH;
 
 
-int parse_should_noop(void)
+static int outer_noop(void)
 {
 	int i;
 
-	/*
-	 * all must be zero to noop
-	 * i.e. every noop for each ifdef of the current position
-	 * should be 0, meaning no noops
-	 */
-	if(noop)
-		return 1;
-
 	/* TODO: optimise with memcmp? */
 	for(i = 0; i < if_idx; i++)
 		if(if_stack[i].noop)
@@ -74,11 +66,21 @@ int parse_should_noop(void)
 	return 0;
 }
 
+int parse_should_noop(void)
+{
+	/*
+	 * all must be zero to noop
+	 * i.e. every noop for each ifdef of the current position
+	 * should be 0, meaning no noops
+	 */
+	return noop || outer_noop();
+}
+
 static void handle_define(token **tokens)
 {
 	char *name;
 
-	if(tokens[0]->tok != TOKEN_WORD)
+	if(!tokens[0] || tokens[0]->tok != TOKEN_WORD)
 		CPP_DIE("word expected");
 
 	NOOP_RET();
@@ -106,7 +108,7 @@ static void handle_define(token **tokens)
 				case TOKEN_ELIPSIS:
 					variadic = 1;
 					i++;
-					if(tokens[i]->tok != TOKEN_CLOSE_PAREN)
+					if(!tokens[i] || tokens[i]->tok != TOKEN_CLOSE_PAREN)
 						CPP_DIE("expected: close paren");
 					i++;
 					goto for_fin;
@@ -115,6 +117,8 @@ static void handle_define(token **tokens)
 					dynarray_add(&args, ustrdup(token_str(tokens[i])));
 
 					i++;
+					if(!tokens[i])
+						CPP_DIE("expected: comma or close paren");
 					switch(tokens[i]->tok){
 						case TOKEN_COMMA:
 							continue;
@@ -344,13 +348,15 @@ static void if_pop(void)
 
 static void handle_somedef(token **tokens, int rev)
 {
+	if(parse_should_noop()){
+		if_push(0);
+		return;
+	}
+
 	tokens = tokens_skip_whitespace(tokens);
 	SINGLE_TOKEN("too many arguments to ifdef macro");
 
-	if(noop)
-		if_push(0);
-	else
-		if_push(rev ^ !!macro_find(tokens[0]->w));
+	if_push(rev ^ !!macro_find(tokens[0]->w));
 }
 
 static void handle_ifdef(token **tokens)
@@ -393,7 +399,7 @@ static int /*bool*/ if_eval(token **tokens, const char *type)
 	/* and eval (this also frees e) */
 	{
 		int had_ident = 0;
-		const int r = !!expr_eval(e, &had_ident, 0);
+		const int r = !!expr_eval(e, &had_ident, 0).val;
 
 		if(had_ident)
 			CPP_WARN(WUNDEF_IN_IF,
@@ -408,7 +414,7 @@ static int /*bool*/ if_eval(token **tokens, const char *type)
 static void handle_if(token **tokens)
 {
 	int is_true;
-	if(noop)
+	if(parse_should_noop())
 		is_true = 0;
 	else
 		is_true = !!if_eval(tokens, "if");
@@ -431,8 +437,13 @@ static void handle_elif(token **tokens)
 			noop = 1;
 			break;
 		case NO_TRUTH:
-			if_elif_chosen = if_eval(tokens, "elif");
-			noop = !if_elif_chosen;
+			if(outer_noop()){
+				/* inside a skipped group - not evaluated */
+				noop = 1;
+				break;
+			}
+			if_elif_chosen = if_eval(tokens, "elif") ? GOT_TRUTH : NO_TRUTH;
+			noop = if_elif_chosen != GOT_TRUTH;
 			break;
 		case LAST_ELSE:
 			CPP_DIE("#else already encountered (now at #elif)");
@@ -540,7 +551,7 @@ void parse_directive(char *line)
 	token **tokens = NULL;
 
 	/* check for /# *[0-9]+ *( +"...")?/ */
-	if(handle_line_directive(line))
+	if(!parse_should_noop() && handle_line_directive(line))
 		goto fin;
 
 	/* check for include - we handle it specially
@@ -564,10 +575,12 @@ void parse_directive(char *line)
 		}
 	}
 
-	tokens = tokenise(line);
+	directive_sync();
 
-	if(!tokens)
-		return;
+	if(!*str_spc_skip(line))
+		return; /* null directive */
+
+	tokens = tokenise(line);
 
 	if(tokens[0]->tok != TOKEN_WORD){
 		if(parse_should_noop())
@@ -576,8 +589,6 @@ void parse_directive(char *line)
 		CPP_DIE("invalid preproc token");
 	}
 
-	directive_sync();
-
 #define HANDLE(s)                \
 	if(!strcmp(tokens[0]->w, #s)){ \
 		handle_ ## s(tokens + 1);    \
diff --git a/src/cpp2/expr.c b/src/cpp2/expr.c
index 9db56a6..b2bea86 100644
--- a/src/cpp2/expr.c
+++ b/src/cpp2/expr.c
@@ -49,9 +49,9 @@ static int is_op(e_op op)
 		case tok_plus:     case tok_minus:  case tok_xor:
 		case tok_or:       case tok_and:    case tok_orsc:
 		case tok_andsc:    case tok_shiftl: case tok_shiftr:
-		case tok_not:      case tok_bnot:   case tok_eq:
-		case tok_ne:       case tok_le:     case tok_lt:
-		case tok_ge:       case tok_gt:     case tok_question:
+		case tok_eq:       case tok_ne:     case tok_le:
+		case tok_lt:       case tok_ge:     case tok_gt:
+		case tok_question:
 			return 1;
 	}
 	return 0;
@@ -70,10 +70,10 @@ static expr *expr_ident(void)
 	return e;
 }
 
-static expr *expr_num(expr_n num)
+static expr *expr_num(const expr_n *num)
 {
 	expr *e = expr_new(E_NUM);
-	e->bits.num = num;
+	e->bits.num = *num;
 	return e;
 }
 
@@ -107,7 +107,12 @@ static expr *parse_primary(void)
 {
 	switch(tok_cur){
 		case tok_ident: tok_next(); return expr_ident();
-		case tok_num:   tok_next(); return expr_num(tok_cur_num);
+		case tok_num:
+		{
+			const expr_n num = tok_cur_num;
+			tok_next();
+			return expr_num(&num);
+		}
 		case tok_lparen:
 		{
 			expr *e;
@@ -121,6 +126,7 @@ static expr *parse_primary(void)
 
 		case tok_not:
 		case tok_bnot:
+		case tok_plus:
 		case tok_minus:
 		{
 			const e_op op = tok_cur;
@@ -189,7 +195,7 @@ static void expr_init(void)
 static expr *parse_rhs(expr *lhs, int priority)
 {
 	for(;;){
-    int this_pri, next_pri;
+		int this_pri;
 		e_op op;
 		expr *rhs;
 
@@ -198,8 +204,8 @@ static expr *parse_rhs(expr *lhs, int priority)
 			return lhs; /* eof, rparen and colon covered here */
 
 		this_pri = PRECEDENCE(op);
-    if(this_pri > priority)
-      return lhs;
+		if(this_pri > priority)
+			return lhs;
 
 		/* eat the op */
 		tok_next();
@@ -212,22 +218,17 @@ static expr *parse_rhs(expr *lhs, int priority)
 				CPP_DIE("colon expected for ternary-? operator");
 			tok_next();
 
-			rhs = parse();
+			/* right associative */
+			rhs = parse_rhs(parse_primary(), this_pri);
 
 			lhs = expr_new_top(lhs, if_t, rhs);
 		}else{
-			rhs = parse_primary();
-
-			/* now on the next op, or eof (in which case, precedence returns -1 */
-			next_pri = PRECEDENCE(tok_cur);
-			if(next_pri < this_pri) {
-				/* next is tighter, give it our rhs as its lhs */
-				rhs = parse_rhs(rhs, next_pri);
-			}
+			/* anything tighter takes our rhs as its lhs */
+			rhs = parse_rhs(parse_primary(), this_pri - 1);
 
 			lhs = expr_op(op, lhs, rhs);
 		}
-  }
+	}
 }
 
 static expr *parse(void)
@@ -256,6 +257,78 @@ expr *expr_parse(char *str)
 	return e;
 }
 
+static expr_n expr_n_int(int i)
+{
+	expr_n n;
+	n.val = i;
+	n.is_unsigned = 0;
+	return n;
+}
+
+static expr_n expr_n_op(e_op op, const expr_n *l, const expr_n *r, int noop)
+{
+	/* usual arithmetic conversions - everything is [u]intmax_t.
+	 * calculations are done unsigned, to have wrapping */
+	const int is_unsigned = l->is_unsigned || r->is_unsigned;
+	const unsigned long a = l->val, b = r->val;
+	expr_n ret;
+
+	ret.is_unsigned = is_unsigned;
+	ret.val = 0;
+
+	switch(op){
+		case tok_divide:
+		case tok_modulus:
+			if(noop)
+				return ret;
+			if(b == 0)
+				CPP_DIE("%s by zero", op == tok_divide ? "division" : "modulo");
+
+			if(is_unsigned)
+				ret.val = op == tok_divide ? a / b : a % b;
+			else if((long)b == -1)
+				ret.val = op == tok_divide ? -a : 0;
+			else
+				ret.val = op == tok_divide ? (long)a / (long)b : (long)a % (long)b;
+			return ret;
+
+#define OP(ty, op) case tok_ ## ty: ret.val = a op b; return ret
+		OP(multiply, *);
+		OP(plus, +);
+		OP(minus, -);
+		OP(xor, ^);
+		OP(or, |);
+		OP(and, &);
+#undef OP
+
+		case tok_shiftl:
+			ret.is_unsigned = l->is_unsigned;
+			ret.val = a << (b & 63);
+			return ret;
+		case tok_shiftr:
+			ret.is_unsigned = l->is_unsigned;
+			ret.val = l->is_unsigned ? a >> (b & 63) : (unsigned long)((long)a >> (b & 63));
+			return ret;
+
+		case tok_orsc: return expr_n_int(a || b);
+		case tok_andsc: return expr_n_int(a && b);
+		case tok_eq: return expr_n_int(a == b);
+		case tok_ne: return expr_n_int(a != b);
+
+#define CMP(ty, op) case tok_ ## ty: \
+			return expr_n_int(is_unsigned ? a op b : (long)a op (long)b)
+		CMP(le, <=);
+		CMP(lt, <);
+		CMP(ge, >=);
+		CMP(gt, >);
+#undef CMP
+
+		default:
+			break;
+	}
+	ICE("bad op");
+}
+
 /* eval */
 expr_n expr_eval(expr *e_, int *had_ident, int noop)
 {
@@ -265,19 +338,23 @@ expr_n expr_eval(expr *e_, int *had_ident, int noop)
 	switch(ke.type){
 		case E_IDENT:
 			*had_ident = 1;
-			return 0; /* identifiers are zero */
+			return expr_n_int(0); /* identifiers are zero */
 		case E_NUM:
 			return ke.bits.num;
 		case E_UOP:
 		{
 			expr_n n = expr_eval(ke.bits.uop.e, had_ident, noop);
-			if(noop)
-				return 0;
-			switch(ke.bits.op.op){
-#define UNARY(ch, o) case ch: return o n
-				UNARY('-', -);
-				UNARY('!', !);
-				UNARY('~', ~);
+			switch(ke.bits.uop.op){
+				case tok_plus:
+					return n;
+				case tok_minus:
+					n.val = -n.val;
+					return n;
+				case tok_bnot:
+					n.val = ~n.val;
+					return n;
+				case tok_not:
+					return expr_n_int(!n.val);
 				default:
 				break;
 			}
@@ -285,74 +362,34 @@ expr_n expr_eval(expr *e_, int *had_ident, int noop)
 		}
 		case E_OP:
 		{
-			expr_n nums[2];
+			expr_n lhs, rhs;
 			int skip_rhs = 0;
 
-			nums[0] = expr_eval(ke.bits.op.lhs, had_ident, noop);
+			lhs = expr_eval(ke.bits.op.lhs, had_ident, noop);
 
 			switch(ke.bits.op.op){
 				case tok_andsc:
-					if(!nums[0]){
-						skip_rhs = 1;
-					}
+					skip_rhs = !lhs.val;
 					break;
 				case tok_orsc:
-					if(nums[0]){
-						skip_rhs = 1;
-					}
+					skip_rhs = !!lhs.val;
 					break;
 			}
 
-			nums[1] = expr_eval(ke.bits.op.rhs, had_ident, skip_rhs);
-
-			if(noop)
-				return 0;
+			rhs = expr_eval(ke.bits.op.rhs, had_ident, noop || skip_rhs);
 
-			switch(ke.bits.op.op){
-				case '%':
-				case '/':
-					if(nums[1] == 0)
-						CPP_DIE("%s by zero",
-								ke.bits.op.op == '/' ? "division" : "modulo");
-				default:
-					break;
-			}
-
-			switch(ke.bits.op.op){
-#define OP(ty, op) case tok_ ## ty: return nums[0] op nums[1]
-				OP(divide, /);
-				OP(modulus, %);
-				OP(multiply, *);
-				OP(plus, +);
-				OP(minus, -);
-				OP(xor, ^);
-				OP(or, |);
-				OP(and, &);
-				OP(orsc, ||);
-				OP(andsc, &&);
-				OP(shiftl, <<);
-				OP(shiftr, >>);
-				OP(eq, ==);
-				OP(ne, !=);
-				OP(le, <=);
-				OP(lt, <);
-				OP(ge, >=);
-				OP(gt, >);
-#undef OP
-
-				default:
-					break;
-			}
-			ICE("bad op");
+			return expr_n_op(ke.bits.op.op, &lhs, &rhs, noop);
 		}
 		case E_TOP:
 		{
 			expr_n a, b, c;
 			/* must evaluate all - free the expressions */
 			a = expr_eval(ke.bits.top.e, had_ident, noop);
-			b = expr_eval(ke.bits.top.if_true, had_ident, !a);
-			c = expr_eval(ke.bits.top.if_false, had_ident, !!a);
-			return a ? b : c;
+			b = expr_eval(ke.bits.top.if_true, had_ident, noop || !a.val);
+			c = expr_eval(ke.bits.top.if_false, had_ident, noop || a.val);
+
+			b.is_unsigned = c.is_unsigned = b.is_unsigned || c.is_unsigned;
+			return a.val ? b : c;
 		}
 	}
 
diff --git a/src/cpp2/expr.h b/src/cpp2/expr.h
index 761f844..2095ea0 100644
--- a/src/cpp2/expr.h
+++ b/src/cpp2/expr.h
@@ -2,7 +2,13 @@
 #define EXPR_H
 
 typedef struct expr expr;
-typedef long expr_n;
+
+/* [u]intmax_t */
+typedef struct
+{
+	unsigned long val;
+	int is_unsigned;
+} expr_n;
 
 expr *expr_parse(char *);
 expr_n expr_eval(expr *, int *had_ident, int noop);
diff --git a/src/cpp2/expr_tok.c b/src/cpp2/expr_tok.c
index 0e217c8..e05f256 100644
--- a/src/cpp2/expr_tok.c
+++ b/src/cpp2/expr_tok.c
@@ -3,6 +3,7 @@
 #include <stdarg.h>
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 #include <assert.h>
 
 #include "expr.h"
@@ -43,10 +44,14 @@ void tok_next(void)
 
 	if(isdigit(*tok_pos)){
 		char *ep;
-		tok_cur_num = strtol(tok_pos, &ep, 0);
+		tok_cur_num.val = strtoul(tok_pos, &ep, 0);
+		tok_cur_num.is_unsigned = tok_cur_num.val > LONG_MAX;
 		do switch(*ep){
-			case 'L':
 			case 'U':
+			case 'u':
+				tok_cur_num.is_unsigned = 1;
+			case 'L':
+			case 'l':
 				ep++;
 				break;
 			default:
@@ -75,9 +80,10 @@ end_ty:
 		limit = char_quotefin(tok_pos);
 
 		warn = err = 0;
-		tok_cur_num = escape_char(
+		tok_cur_num.val = escape_char(
 				tok_pos, limit, &tok_pos, wide,
 				&mchar, &warn, &err);
+		tok_cur_num.is_unsigned = 0;
 
 		switch(err){
 			case EILSEQ:
-- 
2.43.0


From ea4dd8f3e5ff2cb84217cc895b84cd4f9d4c8df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:45 +0000
Subject: [PATCH 051/122] fix: macro rescanning, self-reference, pasting,
 character constants and stringising

---
 src/cpp2/Makefile   |   2 +-
 src/cpp2/eval.c     | 683 +++++++++++++++++++++++++-------------------
 src/cpp2/macro.c    |   1 -
 src/cpp2/macro.h    |   1 -
 src/cpp2/snapshot.c |  87 ------
 src/cpp2/snapshot.h |  16 --
 src/cpp2/str.c      |  63 +++-
 src/cpp2/str.h      |   7 +
 src/cpp2/tokenise.c |  40 +--
 9 files changed, 471 insertions(+), 429 deletions(-)
 delete mode 100644 src/cpp2/snapshot.c
 delete mode 100644 src/cpp2/snapshot.h

diff --git a/src/cpp2/Makefile b/src/cpp2/Makefile
index 51b44f8..3eae4dc 100644
--- a/src/cpp2/Makefile
+++ b/src/cpp2/Makefile
@@ -4,7 +4,7 @@ CFLAGS += -Wmissing-prototypes
 
 OBJ_CPP = preproc.o main.o macro.o str.o \
       directive.o tokenise.o eval.o  \
-      snapshot.o include.o deps.o    \
+      include.o deps.o               \
       expr.o expr_tok.o has.o
 
 OBJ_DEP = ../util/util.o ../util/alloc.o \
diff --git a/src/cpp2/eval.c b/src/cpp2/eval.c
index ac40867..bc8a53e 100644
--- a/src/cpp2/eval.c
+++ b/src/cpp2/eval.c
@@ -16,7 +16,6 @@
 #include "macro.h"
 #include "str.h"
 #include "main.h"
-#include "snapshot.h"
 #include "preproc.h"
 #include "has.h"
 
@@ -67,54 +66,222 @@ static char **split_func_args(char *args_str)
 	return args;
 }
 
-static char *find_arg(macro *m, char *word, char **args, int *alloced)
+static char *unpaint(char *s)
 {
-	*alloced = 0;
-	if(!strcmp(word, VA_ARGS_STR)){
-		if(args){
-			size_t i = dynarray_count(m->args);
-			/* if count(args) < i then args[i] is NULL,
-			 * which str_join handles
-			 */
-			*alloced = 1;
-			return str_join(args + i, ", ");
-		}else{
-			return "";
-		}
-	}
+	char *from = s, *to = s;
+	do{
+		if(*from != PAINT)
+			*to++ = *from;
+	}while(*from++);
+	return s;
+}
+
+static char *eval_expand_painted(char *line, size_t *const pincomplete);
 
-	if(m->args){
-		char *w;
-		size_t i;
+struct macro_args
+{
+	char **raw, **expanded;
+};
 
-		for(i = 0; (w = m->args[i]); i++)
-			if(!strcmp(w, word))
-				return args[i]; /* don't expand */
+static char *join_va_args(macro *m, char **args)
+{
+	size_t i = dynarray_count(m->args);
+	return args && dynarray_count(args) > i ? str_join(args + i, ", ") : ustrdup("");
+}
+
+/* returns an alloc'd copy of the argument, or NULL if it's not a parameter */
+static char *find_arg(macro *m, token *t, struct macro_args *args, int expand)
+{
+	size_t i;
+	char *ret;
+
+	if(t->tok != TOKEN_WORD || m->type == MACRO)
+		return NULL;
+
+	if(m->type == VARIADIC && !strcmp(t->w, VA_ARGS_STR)){
+		i = dynarray_count(m->args);
+		ret = join_va_args(m, args->raw);
+	}else{
+		for(i = 0; m->args && m->args[i]; i++)
+			if(!strcmp(m->args[i], t->w))
+				break;
+		if(!m->args || !m->args[i])
+			return NULL;
+		ret = ustrdup(args->raw[i]);
 	}
 
-	/* word not found, we use the given identifier */
-	return word;
+	if(expand){
+		/* expand each argument once only - __COUNTER__ */
+		if(!args->expanded[i])
+			args->expanded[i] = eval_expand_painted(ustrdup(ret), NULL);
+		free(ret);
+		ret = ustrdup(args->expanded[i]);
+	}
+
+	return ret;
 }
 
-static char *noeval_hash(
-		macro *m, token *this, char **args,
-		int *alloced,
-		int need_arg, const char *emsg)
+static char *stringise_arg(macro *m, token *this, struct macro_args *args)
 {
-	char *word;
+	char *word, *quoted;
 
 	if(!this)
-		CPP_DIE("nothing to %s after '#' character", emsg);
+		CPP_DIE("nothing to quote after '#' character");
 	if(this->tok != TOKEN_WORD)
-		CPP_DIE("can't %s a none-word (%s)", emsg, token_str(this));
+		CPP_DIE("can't quote a none-word (%s)", token_str(this));
+
+	word = find_arg(m, this, args, 0);
+	if(!word)
+		CPP_DIE("can't quote non-argument \"%s\"", this->w);
+
+	quoted = str_stringise(unpaint(word));
+	free(word);
+	return quoted;
+}
+
+static char *join_operand(macro *m, token *t, struct macro_args *args)
+{
+	char *word;
+
+	if(!t)
+		CPP_DIE("nothing to join after '##'");
+
+	word = find_arg(m, t, args, 0);
+	return word ? word : ustrdup(token_str(t));
+}
+
+static void check_paste(const char *word, const char *lhs, const char *rhs)
+{
+	const char *p = word;
+
+	if(iswordpart(*p) || (*p && iswordpart(p[1]))){
+		/* else we might have < ## < which gives << */
+		for(; *p; p++)
+			if(!iswordpart(*p)){
+				CPP_WARN(WPASTE,
+						"pasting \"%s\" and \"%s\" doesn't "
+						"give a single token",
+						lhs, rhs);
+				break;
+			}
+	}
+}
+
+/* would the last token of str become a single token with that at b? */
+static int would_paste(const char *str, size_t len, char b)
+{
+	const char a = str[len - 1];
+	const char *start = &str[len - 1];
+
+	if(a == '.')
+		return isdigit(b) || b == '.';
+	if(iswordpart(a)){
+		if(iswordpart(b))
+			return 1;
+
+		while(start > str && (iswordpart(start[-1]) || start[-1] == '.'))
+			start--;
+		if(b == '.' || b == '+' || b == '-')
+			return (isdigit(*start) || *start == '.')
+				&& (b == '.' || strchr("eEpP", a));
+		return (a == 'L' || a == 'u' || a == 'U') && (b == '"' || b == '\'');
+	}
+	switch(a){
+		case '+': case '&': case '|': case '=': case '#':
+			return b == a || b == '=';
+		case '-':
+			return b == '-' || b == '=' || b == '>';
+		case '<':
+			return b == '<' || b == '=' || b == ':' || b == '%';
+		case '>':
+			return b == '>' || b == '=';
+		case '*': case '^': case '!':
+			return b == '=';
+		case '/':
+			return b == '/' || b == '*' || b == '=';
+		case '%':
+			return b == ':' || b == '>' || b == '=';
+		case ':':
+			return b == '>';
+	}
+	return 0;
+}
+
+static char *append(char *to, const char *str, int ws)
+{
+	char *ret = ustrprintf("%s%s%s", to, *to && ws ? " " : "", str);
+	free(to);
+	return ret;
+}
+
+static char *substitute(macro *m, struct macro_args *args)
+{
+	token **toks = tokenise(m->val);
+	token **ti;
+	char *replace = ustrdup("");
+	int prev_subst = 0;
+
+	for(ti = toks; ti && *ti; ti++){
+		token *this = *ti;
+		int ws = this->had_whitespace;
+		int subst = 1;
+		char *word;
+
+		if(m->type != MACRO && this->tok == TOKEN_HASH_QUOTE){
+			/* replace #arg with the quote of arg */
+			/* # - don't eval */
+			word = stringise_arg(m, *++ti, args);
+
+		}else if(this->tok == TOKEN_HASH_JOIN){
+			/* replace a ## b with the join of both */
+			CPP_DIE("## with no prior argument");
+
+		}else if(ti[1] && ti[1]->tok == TOKEN_HASH_JOIN){
+			/* word with ## - don't eval */
+			word = join_operand(m, this, args);
+
+		}else{
+			/* token without # nor ## - we may eval an argument:
+			 * "... is replaced by the corresponding argument after all
+			 * macros contained therein have been expanded..."
+			 */
+			word = find_arg(m, this, args, 1);
+			if(!word){
+				word = ustrdup(token_str(this));
+				subst = 0;
+			}
+		}
+
+		while(*ti && ti[1] && ti[1]->tok == TOKEN_HASH_JOIN){
+			char *rhs, *joined;
+
+			if(m->type != MACRO && ti[2] && ti[2]->tok == TOKEN_HASH_QUOTE){
+				rhs = stringise_arg(m, ti[3], args);
+				ti++;
+			}else{
+				rhs = join_operand(m, ti[2], args);
+			}
+
+			joined = ustrprintf("%s%s", word, rhs);
+			check_paste(joined, word, rhs);
+
+			free(word);
+			free(rhs);
+			word = joined;
+			ti += 2;
+		}
+
+		if(*replace && *word && (subst || prev_subst)
+		&& would_paste(replace, strlen(replace), *word))
+			ws = 1;
 
-	word = find_arg(m, this->w, args, alloced); /* don't expand */
-	if(need_arg && word == this->w){
-		/* not found */
-		CPP_DIE("can't %s non-argument \"%s\"", emsg, word);
+		replace = append(replace, word, ws);
+		free(word);
+		prev_subst = subst;
 	}
 
-	return word;
+	tokens_free(toks);
+	return replace;
 }
 
 static char *eval_func_macro(macro *m, char *args_str)
@@ -129,25 +296,26 @@ static char *eval_func_macro(macro *m, char *args_str)
 	 * corresponding argument after all macros contained therein
 	 * have been expanded...
 	 */
-	char **args = split_func_args(args_str);
+	struct macro_args args;
+	int got, exp = dynarray_count(m->args);
 
-	int got = dynarray_count(args)
-		, exp = dynarray_count(m->args);
+	args.raw = *str_spc_skip(args_str) ? split_func_args(args_str) : NULL;
+	got = dynarray_count(args.raw);
 
 	if(!m->val){
 		int ret;
 
 		if(got != 1){
 			CPP_DIE("too %s arguments to builtin macro \"%s\"",
-					args ? "many" : "few", m->nam);
+					args.raw ? "many" : "few", m->nam);
 		}
 
 		/* we don't want macro-substitution of the argument */
-		ret = has_func(m->nam, args[0]);
+		ret = has_func(m->nam, unpaint(args.raw[0]));
 		if(ret == -1)
 			CPP_DIE("unknown builtin macro \"%s\"", m->nam);
 
-		dynarray_free(char **, args, free);
+		dynarray_free(char **, args.raw, free);
 
 		return ustrdup(ret ? "1" : "0");
 	}
@@ -162,8 +330,8 @@ static char *eval_func_macro(macro *m, char *args_str)
 			 */
 			CPP_WARN(WEMPTY_ARG,
 					"empty argument list to single-argument macro \"%s\"",
-					m->nam, args);
-			dynarray_add(&args, ustrdup(""));
+					m->nam);
+			dynarray_add(&args.raw, ustrdup(""));
 
 		}else{
 			CPP_DIE("wrong number of args to function macro \"%s\", "
@@ -172,317 +340,237 @@ static char *eval_func_macro(macro *m, char *args_str)
 		}
 	}
 
-	if(args){
+	if(args.raw){
 		int i;
-		for(i = 0; args[i]; i++)
-			str_trim(args[i]);
+		for(i = 0; args.raw[i]; i++)
+			str_trim(args.raw[i]);
 	}
+	args.expanded = umalloc((exp + 1) * sizeof *args.expanded);
 
 	{
-		token **toks = tokenise(m->val);
-		token **ti;
-		char *replace = ustrdup("");
-
-#define APPEND(ws, fmt, ...)                        \
-				do{                                         \
-					char *new = ustrprintf("%s%s" fmt,        \
-							replace,                              \
-							*replace && ws ? " " : "",            \
-							__VA_ARGS__);                         \
-					free(replace), replace = new;             \
-				}while(0)
-
-		for(ti = toks; ti && *ti; ti++){
-			token *this = *ti;
-			switch(this->tok){
-				case TOKEN_HASH_QUOTE:
-				{
-					/* replace #arg with the quote of arg */
-					/* # - don't eval */
-					int alloced;
-					char *w = noeval_hash(m, *++ti, args, &alloced, 1, "quote");
-					w = str_quote(w, alloced);
-
-					APPEND(this->had_whitespace, "%s", w);
-
-					free(w);
-					break;
-				}
+		char *replace = substitute(m, &args);
+		int i;
 
-				case TOKEN_HASH_JOIN:
-					/* replace a ## b with the join of both */
-					CPP_DIE("## with no prior argument");
-
-				case TOKEN_WORD:
-				{
-					int free_word = 0;
-					char *word;
-
-					if(ti[1] && ti[1]->tok == TOKEN_HASH_JOIN){
-						/* word with ## - don't eval */
-						word = noeval_hash(m, ti[0], args, &free_word, 0, "join");
-
-						ti++;
-
-						while(*ti && ti[0]->tok == TOKEN_HASH_JOIN){
-							char *old = free_word ? word : (free_word = 1, ustrdup(word));
-							char *neh;
-							int free_neh;
-							char *p;
-
-							word = ustrprintf("%s%s", word,
-									neh = noeval_hash(m, ti[1], args, &free_neh, 0, "join"));
-
-							p = word;
-							if(iswordpart(*p) || (*p && iswordpart(p[1]))){
-								/* else we might have < ## < which gives << */
-								for(; *p; p++)
-									if(!iswordpart(*p)){
-										CPP_WARN(WPASTE,
-												"pasting \"%s\" and \"%s\" doesn't "
-												"give a single token",
-												old, neh);
-										break;
-									}
-							}
-
-							if(free_neh)
-								free(neh);
-							if(free_word)
-								free(old);
-							free_word = 1;
-
-							ti += 2;
-						}
-						ti--;
-					}else{
-						/* word without # nor ## - we may eval */
-						word = find_arg(m, this->w, args, &free_word);
-						if(word != this->w){
-							/* is an argument, eval.
-							 * "... is replaced by the corresponding argument after all
-							 * macros contained therein have been expanded..."
-							 */
-
-							if(!free_word){
-								/* eval_expand_macros() (below) frees its argument
-								 * if it expands, so we must own 'word' at this point */
-								word = ustrdup(word);
-								free_word = 1;
-							}
-
-							/* we don't blue paint arguments, e.g.
-							 * define G(x) x+5
-							 * define F(x) G(x)
-							 * F(G(1))
-							 * we end up with `replace = "G(x+5)`
-							 * which we then want to double-expand
-							 */
-							{
-								snapshot *snap = snapshot_take();
-
-								word = eval_expand_macros(word);
-
-								snapshot_restore_used(snap);
-								snapshot_free(snap);
-							}
-						}
-					}
-
-					APPEND(this->had_whitespace, "%s", word);
-					if(free_word)
-						free(word);
-					break;
-				}
+		for(i = 0; i <= exp; i++)
+			free(args.expanded[i]);
+		free(args.expanded);
+		dynarray_free(char **, args.raw, free);
 
-				case TOKEN_OPEN_PAREN:
-				case TOKEN_CLOSE_PAREN:
-				case TOKEN_COMMA:
-				case TOKEN_ELIPSIS:
-				case TOKEN_STRING:
-				case TOKEN_OTHER:
-					APPEND(this->had_whitespace, "%s", token_str(this));
-			}
-		}
+		return replace;
+	}
+}
 
+static char *eval_obj_macro(macro *m)
+{
+	static int counter = 0; /* __COUNTER__ */
 
-		dynarray_free(char **, args, free);
-		tokens_free(toks);
-		return replace;
+	if(m->val){
+		if(strstr(m->val, "##"))
+			return substitute(m, NULL);
+		return ustrdup(m->val);
 	}
-#undef APPEND
+
+	if(!strcmp(m->nam, "__FILE__"))
+		return str_quote(current_fname, 0);
+	if(!strcmp(m->nam, "__LINE__"))
+		return ustrprintf("%d", current_line);
+	if(!strcmp(m->nam, "__COUNTER__"))
+		return ustrprintf("%d", counter++);
+	if(!strcmp(m->nam, "__DATE__"))
+		return ustrdup(cpp_date);
+	if(!strcmp(m->nam, "__TIME__"))
+		return ustrdup(cpp_time);
+	if(!strcmp(m->nam, "__TIMESTAMP__"))
+		return ustrdup(cpp_timestamp);
+	if(!strcmp(m->nam, "__BASE_FILE__"))
+		return ustrdup(cpp_basefile);
+
+	ICE("invalid macro");
 }
 
-static char *eval_macro_r(macro *m, char *start, char **pat)
+static char *splice(
+		char *line, size_t from, size_t to, const char *with,
+		size_t *const pstart)
 {
-	if(m->type == MACRO){
-		static int counter = 0; /* __COUNTER__ */
-		int free_val = 0;
-		char *val;
-		char *ret;
-		size_t change;
-
-		if(m->val){
-			val = m->val;
-		}else{
-			free_val = 1;
-
-			if(!strcmp(m->nam, "__FILE__")){
-				val = str_quote(current_fname, 0);
-			}else if(!strcmp(m->nam, "__LINE__")){
-				val = ustrprintf("%d", current_line);
-			}else if(!strcmp(m->nam, "__COUNTER__")){
-				val = ustrprintf("%d", counter++);
-			}else if(!strcmp(m->nam, "__DATE__")){
-				free_val = 0;
-				val = cpp_date;
-			}else if(!strcmp(m->nam, "__TIME__")){
-				free_val = 0;
-				val = cpp_time;
-			}else if(!strcmp(m->nam, "__TIMESTAMP__")){
-				free_val = 0;
-				val = cpp_timestamp;
-			}else if(!strcmp(m->nam, "__BASE_FILE__")){
-				free_val = 0;
-				val = cpp_basefile;
-			}else{
-				ICE("invalid macro");
-			}
-		}
+	const char *before = "", *after = "";
+	char *ret;
+
+	if(*with){
+		if(from > 0 && would_paste(line, from, *with))
+			before = " ";
+		if(line[to] && would_paste(with, strlen(with), line[to]))
+			after = " ";
+	}else if(from > 0 && line[to] && would_paste(line, from, line[to])){
+		before = " ";
+	}
+
+	ret = ustrprintf("%.*s%s%s%s%s", (int)from, line, before, with, after, line + to);
+	*pstart = from + strlen(before);
+	free(line);
+	return ret;
+}
+
+/* macros whose expansions we're still inside of */
+struct pending
+{
+	macro *macro;
+	const struct pending *up;
+};
 
-		change = *pat - start;
-		ret = word_replace(start, *pat, strlen(m->nam), val);
-		*pat = ret + change + strlen(val);
+static void blue_pending(const struct pending *p, int n)
+{
+	for(; p; p = p->up)
+		p->macro->blue += n;
+}
 
-		if(free_val)
-			free(val);
+/*
+ * Expand the macro named at line[*pos], leaving *pos after its expansion.
+ * Returns 0 if it needs tokens from beyond the end of the line, to be invoked.
+ */
+static int eval_macro(
+		macro *m, char **pline, size_t *const pos, int final,
+		const struct pending *up)
+{
+	struct pending pending;
+	const size_t start = *pos;
+	size_t end = start + strlen(m->nam);
+	size_t incomplete, replace_start;
+	size_t replace_len;
+	char *replace;
 
-		return ret;
+	if(m->type == MACRO){
+		macro_use(m, +1);
+		replace = eval_obj_macro(m);
 
 	}else{
-		char *open_b, *close_b;
+		char *open_b, *close_b, *all_args;
 
-		open_b = str_spc_skip(*pat + strlen(m->nam));
+		open_b = str_spc_skip(*pline + end);
 
 		if(*open_b != '('){
-			/* not an invocation - return and also knock down the use-count */
-			macro_use(m, -1);
-			CPP_WARN(WUNCALLED_FN, "ignoring non-function instance of %s", m->nam);
-			return start;
+			if(!*open_b && !final)
+				return 0;
+			*pos = end;
+			/* not an invocation */
+			if(final)
+				CPP_WARN(WUNCALLED_FN, "ignoring non-function instance of %s", m->nam);
+			return 1;
 		}
 
 		close_b = strchr_nest(open_b, ')');
-		if(!close_b)
+		if(!close_b){
+			if(!final)
+				return 0;
 			CPP_DIE("unterminated function-macro '%s'", m->nam);
-
-		if(!strcmp(m->nam, HAS_INCLUDE_STR)){
-			/* noop - not in #if mode */
-			return start;
 		}
 
-		{
-			char *all_args = ustrdup2(open_b + 1, close_b);
-			char *eval_d = eval_func_macro(m, all_args);
-			size_t change;
+		end = close_b + 1 - *pline;
 
-			free(all_args);
+		macro_use(m, +1);
 
-			change = *pat - start;
-			start = str_replace(start, *pat, close_b + 1, eval_d);
-			*pat = start + change + strlen(eval_d);
-
-			free(eval_d);
-
-			return start;
+		if(!strcmp(m->nam, HAS_INCLUDE_STR)){
+			/* noop - not in #if mode */
+			*pos = end;
+			return 1;
 		}
+
+		all_args = ustrdup2(open_b + 1, close_b);
+		replace = eval_func_macro(m, all_args);
+		free(all_args);
 	}
-}
 
-static char *eval_macro_double_eval(macro *m, char *start, char **pat)
-{
-	/* FIXME: need to snapshot *m too? i.e. snapshot one level higher */
-	snapshot *snapshot = snapshot_take();
-	size_t change;
+	/* rescan */
+	pending.macro = m;
+	pending.up = up;
+	blue_pending(&pending, +1);
+	replace = eval_expand_painted(replace, &incomplete);
+	blue_pending(&pending, -1);
 
-	start = eval_macro_r(m, start, pat);
-	change = *pat - start;
+	replace_len = strlen(replace);
 
-	/* mark any macros that changed as blue, to prevent re-evaluation */
-	snapshot_take_post(snapshot);
-	snapshot_blue_used(snapshot);
+	*pline = splice(*pline, start, end, replace, &replace_start);
+	free(replace);
 
-	/* double eval */
-	start = eval_expand_macros(start);
-	*pat = start + change;
+	if(incomplete < replace_len){
+		/* the expansion ends with the start of another invocation,
+		 * which continues on the rest of the line */
+		char *const name = *pline + replace_start + incomplete;
+		char *const name_end = word_end(name);
+		const char save = *name_end;
+		macro *next;
 
-	snapshot_unblue_used(snapshot);
-	snapshot_free(snapshot);
+		*name_end = '\0';
+		next = macro_find(name);
+		*name_end = save;
 
-	return start;
-}
-
-static char *eval_macro(macro *m, char *start, char **pat)
-{
-	char *r;
-	if(m->blue){
-		*pat += strlen(m->nam);
-		return start;
+		*pos = replace_start + incomplete;
+		return eval_macro(next, pline, pos, final, &pending);
 	}
 
-	macro_use(m, +1);
-
-	m->blue++;
-	r = eval_macro_double_eval(m, start, pat);
-	m->blue--;
-	return r;
+	*pos = replace_start + replace_len;
+	return 1;
 }
 
-char *eval_expand_macros(char *line)
+static char *expand_from(char *line, size_t *const pincomplete, int final)
 {
-	char *anchor = line;
+	size_t pos = 0;
+	char *word;
 
-	for(; *line; line++){
+	while((word = word_find_any(line + pos))){
 		char *end, save;
 		macro *m;
 
-		line = word_find_any(line);
-		if(!line)
-			break;
+		pos = word - line;
 
-		end = word_end(line);
+		if(isdigit(*word)){
+			/* skip this number */
+			pos = number_end(word) - line;
+			continue;
+		}
 
-		if(*end == '"' && line == end - 1 && *line == 'L'){
-			line = end;
+		end = word_end(word);
+
+		if(*word == 'L' && end == word + 1 && (*end == '"' || *end == '\'')){
+			pos = end - line;
 			continue;
 		}
 
 		save = *end, *end = '\0';
-		m = macro_find(line);
+		m = *word == PAINT ? NULL : macro_find(word);
 		*end = save;
 
-		if(m){
-			anchor = eval_macro(m, anchor, &line);
-
-			switch(*line){
-				case '"':
-				case '\'':
-				{
-					/* skip quotes */
-					char *p = str_quotefin2(line + 1, *line);
-					UCC_ASSERT(p, "no matching quote on line '%s' @ '%s'", anchor, line);
-					break;
-				}
-			}
+		if(!m){
+			/* skip this word */
+			pos = end - line;
+
+		}else if(m->blue){
+			char *painted = ustrprintf("%.*s%c%s", (int)pos, line, PAINT, word);
+			pos = end + 1 - line;
+			free(line);
+			line = painted;
 
 		}else{
-			/* skip this word */
-			line = end;
+			if(!eval_macro(m, &line, &pos, final, NULL)){
+				if(pincomplete)
+					*pincomplete = pos;
+				return line;
+			}
 		}
-		if(!*line)
-			break;
 	}
 
-	return anchor;
+	if(pincomplete)
+		*pincomplete = strlen(line);
+	return line;
+}
+
+static char *eval_expand_painted(char *line, size_t *const pincomplete)
+{
+	return expand_from(line, pincomplete, 0);
+}
+
+char *eval_expand_macros(char *line)
+{
+	return unpaint(expand_from(line, NULL, 1));
 }
 
 static char *eval_expand(char *w, const char *from, int eval(char *), int paren_optional)
@@ -531,8 +619,9 @@ static int defined_macro_find(char *ident)
 	int ret;
 
 	ident = word_find_any(ident);
+	if(!ident)
+		CPP_DIE("identifier expected for \"" DEFINED_STR "\"");
 	end = word_end(ident);
-	assert(end);
 	save = *end;
 	*end = '\0';
 
diff --git a/src/cpp2/macro.c b/src/cpp2/macro.c
index a925b44..f57cff2 100644
--- a/src/cpp2/macro.c
+++ b/src/cpp2/macro.c
@@ -122,7 +122,6 @@ int macro_remove(const char *nam)
 
 void macro_use(macro *m, int adj)
 {
-	m->use_cnt  += adj;
 	m->use_dump += adj;
 }
 
diff --git a/src/cpp2/macro.h b/src/cpp2/macro.h
index 514daef..3b92a8d 100644
--- a/src/cpp2/macro.h
+++ b/src/cpp2/macro.h
@@ -12,7 +12,6 @@ typedef struct
 	enum { MACRO, FUNC, VARIADIC } type;
 	char **args;
 	int blue; /* being evaluated? */
-	int use_cnt; /* track usage for double-eval */
 	int use_dump; /* for -dS */
 	int include_depth;
 } macro;
diff --git a/src/cpp2/snapshot.c b/src/cpp2/snapshot.c
deleted file mode 100644
index fad5a72..0000000
--- a/src/cpp2/snapshot.c
+++ /dev/null
@@ -1,87 +0,0 @@
-#include <stdlib.h>
-#include <stdarg.h>
-
-#include "../util/dynarray.h"
-#include "../util/alloc.h"
-#include "../util/where.h"
-
-#include "snapshot.h"
-#include "macro.h"
-
-#define NEW(exp) umalloc(sizeof *exp)
-#define NEW_N(n, exp) umalloc(n * sizeof *exp)
-
-struct snapshot
-{
-	int *pre, *post;
-	size_t n;
-};
-
-static int *snapshot_take_1(size_t n)
-{
-	int *p;
-	size_t i;
-
-	if(!n)
-		return NULL;
-
-	p = NEW_N(n, p);
-
-	for(i = 0; i < n; i++)
-		p[i] = macros[i]->use_cnt;
-
-	return p;
-}
-
-void snapshot_restore_used(snapshot *snap)
-{
-	size_t i;
-	for(i = 0; i < snap->n; i++)
-		macros[i]->use_cnt = snap->pre[i];
-}
-
-snapshot *snapshot_take(void)
-{
-	snapshot *snap;
-	size_t n = dynarray_count(macros);
-
-	snap       = NEW(snap);
-	snap->n    = n;
-	snap->pre  = snapshot_take_1(snap->n);
-
-	return snap;
-}
-
-void snapshot_free(snapshot *snap)
-{
-	free(snap->pre);
-	free(snap->post);
-	free(snap);
-}
-
-void snapshot_take_post(snapshot *snap)
-{
-	snap->post = snapshot_take_1(snap->n);
-}
-
-static void snapshot_alter_blue(snapshot *snap, int change)
-{
-	size_t i;
-
-	for(i = 0; i < snap->n; i++)
-		if(snap->post[i] != snap->pre[i])
-#ifdef EVAL_DEBUG
-			printf(">> blue %s += %d\n", macros[i]->nam, change),
-#endif
-			macros[i]->blue += change;
-}
-
-void snapshot_blue_used(snapshot *snap)
-{
-	snapshot_alter_blue(snap, 1);
-}
-
-void snapshot_unblue_used(snapshot *snap)
-{
-	snapshot_alter_blue(snap, -1);
-}
diff --git a/src/cpp2/snapshot.h b/src/cpp2/snapshot.h
deleted file mode 100644
index 8502b50..0000000
--- a/src/cpp2/snapshot.h
+++ /dev/null
@@ -1,16 +0,0 @@
-#ifndef SNAPSHOT_H
-#define SNAPSHOT_H
-
-typedef struct snapshot snapshot;
-
-snapshot *snapshot_take(void);
-void snapshot_take_post(snapshot *);
-
-void snapshot_blue_used(snapshot *);
-void snapshot_unblue_used(snapshot *);
-
-void snapshot_restore_used(snapshot *);
-
-void snapshot_free(snapshot *);
-
-#endif
diff --git a/src/cpp2/str.c b/src/cpp2/str.c
index 5cf0ce3..6506020 100644
--- a/src/cpp2/str.c
+++ b/src/cpp2/str.c
@@ -12,7 +12,7 @@
 
 int iswordpart(char c)
 {
-	return isalnum(c) || c == '_' || c == '$';
+	return isalnum(c) || c == '_' || c == '$' || c == PAINT;
 }
 
 char *word_end(char *s)
@@ -44,9 +44,9 @@ void str_trim(char *str)
 
 	memmove(str, s, strlen(s) + 1);
 
-	for(s = str; *s; s++);
+	s = str + strlen(str);
 
-	while(s > str && isspace(*s))
+	while(s > str && isspace(s[-1]))
 		s--;
 
 	*s = '\0';
@@ -113,6 +113,48 @@ char *str_quote(char *quoteme, int free_in)
 	return ret;
 }
 
+char *str_stringise(const char *s)
+{
+	char *ret = umalloc(2 * strlen(s) + 3), *p = ret;
+	char in_quote = 0;
+
+	*p++ = '"';
+	for(; *s; s++){
+		if(in_quote){
+			if(*s == '\\' && s[1]){
+				/* both characters, so we don't see an escaped quote below */
+				*p++ = '\\';
+				*p++ = *s++;
+				if(*s == '"' || *s == '\\')
+					*p++ = '\\';
+				*p++ = *s;
+				continue;
+			}
+			if(*s == in_quote)
+				in_quote = 0;
+			if(*s == '"')
+				*p++ = '\\';
+		}else if(*s == '"' || *s == '\''){
+			in_quote = *s;
+			if(*s == '"')
+				*p++ = '\\';
+		}
+		*p++ = *s;
+	}
+	strcpy(p, "\"");
+
+	return ret;
+}
+
+char *number_end(char *s)
+{
+	/* a preprocessing number */
+	for(; iswordpart(*s) || *s == '.'; s++)
+		if(strchr("eEpP", *s) && (s[1] == '+' || s[1] == '-'))
+			s++;
+	return s;
+}
+
 char *str_replace(char *line, char *start, char *end, const char *replace)
 {
 	const unsigned int len_find    = end - start;
@@ -148,11 +190,10 @@ static char *word_strstr(char *haystack, const char *needle)
 		return NULL;
 
 	for(i = haystack; *i; i++)
-		if(*i == '"'){
-			i = str_quotefin(i + 1);
+		if(*i == '"' || *i == '\''){
+			i = str_quotefin2(i + 1, *i);
 			if(!i)
-				ICE("terminating quote not found\nhaystack = >>%s<<\nneedle = >>%s<<",
-						haystack, needle);
+				return NULL; /* unterminated - strip_comment() has warned */
 		}else if(!strncmp(i, needle, nlen)){
 			return i;
 		}
@@ -187,6 +228,14 @@ char *strchr_nest(char *start, char find)
 
 	for(; *start; start++)
 		switch(*start){
+			case '"':
+			case '\'':
+			{
+				char *end = str_quotefin2(start + 1, *start);
+				if(end)
+					start = end;
+				break;
+			}
 			case '(':
 				nest++;
 				break;
diff --git a/src/cpp2/str.h b/src/cpp2/str.h
index 6a27ba4..87651de 100644
--- a/src/cpp2/str.h
+++ b/src/cpp2/str.h
@@ -5,8 +5,15 @@ int  iswordpart(char c);
 char *word_dup(const char *);
 char *word_end(char *); /* word_end("hello=there") -> ptr to '=' */
 char *word_find_any(char *);
+char *number_end(char *); /* end of preprocessing-number */
+
+/* A macro name which is found inside its own expansion is never expanded,
+ * even if it ends up elsewhere (6.10.3.4/2) - it's painted by prefixing it
+ * with this character, until the paint's removed, once we're done. */
+#define PAINT '\1'
 
 char *str_quote(char *quoteme, int free_in);
+char *str_stringise(const char *);
 char *str_join(char **, const char *with);
 void  str_trim(char *);
 
diff --git a/src/cpp2/tokenise.c b/src/cpp2/tokenise.c
index cfab0d8..8ce691f 100644
--- a/src/cpp2/tokenise.c
+++ b/src/cpp2/tokenise.c
@@ -19,22 +19,21 @@ token **tokenise(char *line)
 	char *p;
 
 	for(p = line; *p; p++){
-		token *t = umalloc(sizeof *t);
+		token *t;
 		char c;
 
+		if(!*str_spc_skip(p))
+			break;
+
+		t = umalloc(sizeof *t);
 		dynarray_add(&tokens, t);
 
 		if(isspace(*p))
 			t->had_whitespace = 1;
 		p = str_spc_skip(p);
 
-		if(!*p){
-			t->w = ustrdup("");
-			break;
-		}
-
 		c = *p;
-		if(isalpha(c) || c == '_'){
+		if(isalpha(c) || c == '_' || c == PAINT){
 			const char *start = p;
 
 			t->tok = TOKEN_WORD;
@@ -46,6 +45,13 @@ token **tokenise(char *line)
 			t->w = ustrdup2(start, p);
 			p--;
 
+		}else if(isdigit(c) || (c == '.' && isdigit(p[1]))){
+			char *end = number_end(p);
+
+			t->tok = TOKEN_OTHER;
+			t->w = ustrdup2(p, end);
+			p = end - 1;
+
 		}else switch(c){
 			case ',':
 				t->tok = TOKEN_COMMA;
@@ -57,11 +63,16 @@ token **tokenise(char *line)
 				t->tok = TOKEN_CLOSE_PAREN;
 				break;
 			case '"':
+			case '\'':
 			{
-				char *end = str_quotefin(p + 1);
+				char *end = str_quotefin2(p + 1, c);
 
-				/* guaranteed, since strip_comment() checks */
-				UCC_ASSERT(end, "strip_comment() broken for >>>%s<<<", p);
+				if(!end){
+					/* unterminated - strip_comment() has warned */
+					t->tok = TOKEN_OTHER;
+					t->w = ustrdup2(p, p + 1);
+					break;
+				}
 
 				t->w = ustrdup2(p, end + 1);
 				p = end;
@@ -86,15 +97,6 @@ token **tokenise(char *line)
 		}
 	}
 
-	if(*p){
-		token *t = umalloc(sizeof *t);
-		dynarray_add(&tokens, t);
-		if(isspace(*p))
-			t->had_whitespace = 1;
-		t->tok = TOKEN_OTHER;
-		t->w = ustrdup(p);
-	}
-
 	/* trim tokens */
 	if(tokens){
 		int i;
-- 
2.43.0


From dc36774cd904be2392a0dd2e956b244dfe2701a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:29 +0000
Subject: [PATCH 052/122] fix: don't keep trailing space of an empty last
 argument when stringising

---
 src/cpp2/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpp2/eval.c b/src/cpp2/eval.c
index bc8a53e..89ee1b7 100644
--- a/src/cpp2/eval.c
+++ b/src/cpp2/eval.c
@@ -134,6 +134,7 @@ static char *stringise_arg(macro *m, token *this, struct macro_args *args)
 	if(!word)
 		CPP_DIE("can't quote non-argument \"%s\"", this->w);
 
+	str_trim(word);
 	quoted = str_stringise(unpaint(word));
 	free(word);
 	return quoted;
-- 
2.43.0


From e1d7c015ca22de67f6a1cb04ac6288820a16defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 053/122] fix: a comment spanning lines doesn't end the
 directive it starts in

---
 src/cpp2/preproc.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/cpp2/preproc.c b/src/cpp2/preproc.c
index 019a573..cc6781d 100644
--- a/src/cpp2/preproc.c
+++ b/src/cpp2/preproc.c
@@ -409,6 +409,30 @@ static char *filter_macros(char *line)
 	}
 }
 
+/* a comment which starts in a directive and spans lines, doesn't end it */
+static char *join_directive_comment(char *line, int *const peof)
+{
+	int joined = 0;
+
+	while(strip_in_block == IN_BLOCK_BEGIN || strip_in_block == IN_BLOCK_FULL){
+		char *next = splice_lines(peof);
+		char *both;
+
+		if(!next)
+			break;
+		next = strip_comment(next);
+		joined++;
+
+		both = ustrprintf("%s %s", line, next);
+		free(line);
+		free(next);
+		line = both;
+	}
+
+	pending_newlines += joined;
+	return line;
+}
+
 void preprocess(void)
 {
 	char *line;
@@ -423,6 +447,9 @@ void preprocess(void)
 			line = expand_digraphs(line);
 
 		line = strip_comment(line);
+		if(strip_in_block == IN_BLOCK_BEGIN && *str_spc_skip(line) == '#')
+			line = join_directive_comment(line, &eof);
+
 		switch(strip_in_block){
 			case NOT_IN_BLOCK:
 			case IN_BLOCK_BEGIN:
-- 
2.43.0


From 19c3a510eced26b19622361867b18a1eb939662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 054/122] fix: __LINE__, #line, line markers and diagnostics
 agree on the line and file

---
 src/cpp2/directive.c | 25 ++++++++++++-------------
 src/cpp2/macro.c     |  2 --
 src/cpp2/preproc.c   | 31 ++++++++++++++++++++++++-------
 src/cpp2/preproc.h   |  1 +
 4 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index 497e661..809544d 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -193,10 +193,7 @@ static void handle_error_warning(token **tokens, int err)
 
 	warn_colour(1, err);
 
-	/* we're already on the next line */
 	cpp_where_current(&w);
-	w.fname = file_stack[file_stack_idx].fname;
-	w.line--;
 
 #ifdef __clang__
 	/* this works around clang's buggy __attribute__((noreturn))
@@ -323,7 +320,6 @@ static void if_push(int is_true)
 	if_stack[if_idx].noop      = noop;
 	if_stack[if_idx].if_chosen = if_elif_chosen;
 	cpp_where_current(&if_stack[if_idx].loc);
-	if_stack[if_idx].loc.line--;
 
 	if_idx++;
 
@@ -485,14 +481,17 @@ static void handle_pragma(token **tokens)
 	char *out = tokens_join(tokens);
 	printf("#pragma %s\n", out);
 	free(out);
+
+	/* this was an extra line */
+	preproc_line_directive(current_line + 1, NULL);
 }
 
 static int handle_line_directive(char *line)
 {
 	int need_line = 0;
 	int n;
-	char *endp;
-	char *output_anchor;
+	char *endp, *expanded = NULL;
+	const char *new_fname = NULL;
 
 	line = str_spc_skip(line);
 
@@ -506,7 +505,10 @@ static int handle_line_directive(char *line)
 	}
 	line = str_spc_skip(line);
 
-	n = strtol(line, &endp, 0);
+	if(need_line && !isdigit(*line))
+		line = str_spc_skip(expanded = eval_expand_macros(ustrdup(line)));
+
+	n = strtol(line, &endp, 10);
 	if(endp == line){
 		if(need_line)
 			CPP_DIE("invalid #line directive");
@@ -518,9 +520,7 @@ static int handle_line_directive(char *line)
 		CPP_DIE("#line directive with a negative argument");
 
 	/* parse the filename, if given */
-	output_anchor = line;
 	line = str_spc_skip(endp);
-	*endp = '\0';
 	if(*line == '"'){
 		char *fname = line + 1;
 		char *end = strchr(fname, '"');
@@ -530,12 +530,11 @@ static int handle_line_directive(char *line)
 
 		*line = '\0';
 		*end = '\0';
-		set_current_fname(fname);
+		new_fname = fname;
 	}
 
-	/* don't care about the filename - that's for cc1 */
-	preproc_emit_line_info(atoi(output_anchor), current_fname, /* no line-info */0);
-	current_line = n - 1;
+	preproc_line_directive(n, new_fname);
+	free(expanded);
 
 	return 1;
 }
diff --git a/src/cpp2/macro.c b/src/cpp2/macro.c
index f57cff2..4094d87 100644
--- a/src/cpp2/macro.c
+++ b/src/cpp2/macro.c
@@ -166,9 +166,7 @@ void macros_warn_unused(void)
 		&& m->nam[0] != '_'
 		&& m->include_depth == 0)
 		{
-			current_line--;
 			warn_at(&m->where, "unused macro \"%s\"", m->nam);
-			current_line++;
 		}
 	}
 }
diff --git a/src/cpp2/preproc.c b/src/cpp2/preproc.c
index cc6781d..4612711 100644
--- a/src/cpp2/preproc.c
+++ b/src/cpp2/preproc.c
@@ -31,6 +31,9 @@ struct file_stack file_stack[64];
 int file_stack_idx = -1;
 static int prev_newline;
 
+/* lines joined to a previous one, not yet output */
+static int pending_newlines;
+
 void include_bt(FILE *f)
 {
 	int i;
@@ -41,7 +44,7 @@ void include_bt(FILE *f)
 				"in file included " :
 				"                 ",
 				file_stack[i].fname,
-				file_stack[i].line_no - 1);
+				file_stack[i].line_no);
 	}
 }
 
@@ -66,12 +69,26 @@ void preproc_emit_line_info(int lineno, const char *fname, enum lineinfo lineinf
 
 static void preproc_emit_line_info_top(enum lineinfo lineinfo)
 {
+	/* we're about to read the next line */
 	preproc_emit_line_info(
-			file_stack[file_stack_idx].line_no,
+			current_line + 1,
 			file_stack[file_stack_idx].fname,
 			lineinfo | (file_stack[file_stack_idx].is_sysh ? LINEINFO_SYSHEADER : 0));
 }
 
+void preproc_line_directive(int lineno, const char *fname)
+{
+	if(fname){
+		set_current_fname(fname);
+		free(file_stack[file_stack_idx].fname);
+		file_stack[file_stack_idx].fname = ustrdup(fname);
+	}
+
+	pending_newlines = 0;
+	current_line = lineno - 1;
+	preproc_emit_line_info(lineno, current_fname, /* no line-info */0);
+}
+
 int preproc_in_include(void)
 {
 	return file_stack_idx > 0;
@@ -107,9 +124,10 @@ void preproc_push(FILE *f, const char *fname, int is_sysh)
 
 	file_stack[file_stack_idx].file    = f;
 	file_stack[file_stack_idx].fname   = ustrdup(fname);
-	file_stack[file_stack_idx].line_no = current_line = 1;
+	file_stack[file_stack_idx].line_no = current_line = 0;
 	file_stack[file_stack_idx].is_sysh = is_sysh;
 
+	pending_newlines = 0;
 	preproc_emit_line_info_top(LINEINFO_START_OF_FILE);
 }
 
@@ -243,13 +261,12 @@ static char *expand_digraphs(char *line)
 
 static char *splice_lines(int *peof)
 {
-	static int n_nls;
 	char *line;
 	char *last_backslash;
 	int splice = 0;
 
-	if(n_nls){
-		n_nls--;
+	if(pending_newlines){
+		pending_newlines--;
 		return ustrdup("");
 	}
 
@@ -287,7 +304,7 @@ static char *splice_lines(int *peof)
 			const size_t this_len = last_backslash - line;
 			const size_t next_len = strlen(next);
 
-			n_nls++;
+			pending_newlines++;
 
 			line = urealloc1(line, this_len + next_len + 1);
 			strcpy(line + this_len, next);
diff --git a/src/cpp2/preproc.h b/src/cpp2/preproc.h
index b4962f2..3736f30 100644
--- a/src/cpp2/preproc.h
+++ b/src/cpp2/preproc.h
@@ -29,6 +29,7 @@ extern int file_stack_idx;
 void preprocess(void);
 void preproc_push(FILE *f, const char *fname, int is_sysh);
 int preproc_in_include(void);
+void preproc_line_directive(int lineno, const char *fname);
 
 void preproc_emit_line_info(int lineno, const char *fname, enum lineinfo);
 
-- 
2.43.0


From ab36c673c1fc24c3a87323a281e55f7920a9693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:33 +0000
Subject: [PATCH 055/122] fix: preprocessor diagnostics are on the current line

---
 src/cpp2/macro.c | 5 ++++-
 src/cpp2/main.h  | 5 -----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cpp2/macro.c b/src/cpp2/macro.c
index 4094d87..c02ba5c 100644
--- a/src/cpp2/macro.c
+++ b/src/cpp2/macro.c
@@ -166,7 +166,10 @@ void macros_warn_unused(void)
 		&& m->nam[0] != '_'
 		&& m->include_depth == 0)
 		{
-			warn_at(&m->where, "unused macro \"%s\"", m->nam);
+			/* reported on the line after the definition */
+			where loc = m->where;
+			loc.line++;
+			warn_at(&loc, "unused macro \"%s\"", m->nam);
 		}
 	}
 }
diff --git a/src/cpp2/main.h b/src/cpp2/main.h
index 1325b2c..da41c29 100644
--- a/src/cpp2/main.h
+++ b/src/cpp2/main.h
@@ -31,15 +31,10 @@ extern int missing_header_error;
 extern struct loc loc_tok;
 #define current_line loc_tok.line
 
-/* bit of a hack, as we've already
- * incremented current_line when we
- * reach the die() call */
 #define CPP_X(wm, f, ...)      \
   do{                          \
     if(wm == 0 || wm & wmode){ \
-      current_line--;          \
       f(NULL, __VA_ARGS__);    \
-      current_line++;          \
     }                          \
   }while(0)
 
-- 
2.43.0


From e35ab6f37855a10a1e5af598ac4504411fadf9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:43 +0000
Subject: [PATCH 056/122] fix: #include skips directories, -I skips
 non-directories, and -MF consumes its argument

---
 src/cpp2/include.c | 9 ++++++++-
 src/cpp2/main.c    | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cpp2/include.c b/src/cpp2/include.c
index c0c4b59..a5bc2c2 100644
--- a/src/cpp2/include.c
+++ b/src/cpp2/include.c
@@ -4,6 +4,9 @@
 #include <string.h>
 #include <errno.h>
 
+#include <sys/types.h>
+#include <sys/stat.h>
+
 #include "../util/dynarray.h"
 #include "../util/alloc.h"
 #include "../util/util.h"
@@ -28,17 +31,21 @@ void include_add_dir(char *d, int sysh)
 
 static FILE *wrapped_fopen(const char *fnam)
 {
+	struct stat st;
 	FILE *f;
 	char *rslash = strrchr(fnam, '/');
 
 	if((rslash ? rslash[1] : *fnam) == '\0')
 		CPP_DIE("empty filename");
 
+	if(stat(fnam, &st) == 0 && S_ISDIR(st.st_mode))
+		return NULL;
+
 	f = fopen(fnam, "r");
 	if(f)
 		return f;
 
-	if(errno != ENOENT)
+	if(errno != ENOENT && errno != ENOTDIR)
 		CPP_DIE("open: %s:", fnam);
 
 	return NULL;
diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index 12fc31b..d2a356b 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -418,7 +418,7 @@ int main(int argc, char **argv)
 				}else if(!strcmp(argv[i] + 2, "D")){
 					emit |= DEPS;
 				}else if(!strcmp(argv[i] + 2, "F")){
-					depfname = argv[i + 1];
+					depfname = argv[++i];
 					if(!depfname)
 						goto usage;
 				}else{
-- 
2.43.0


From 7fa4dbfc18e8875637114db4cc2e9a06d69c4625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 057/122] fix: cc1 and cpp report earlier write errors

---
 src/cc1/cc1.c   | 4 +++-
 src/cpp2/main.c | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cc1/cc1.c b/src/cc1/cc1.c
index 6e43aa2..270a99e 100644
--- a/src/cc1/cc1.c
+++ b/src/cc1/cc1.c
@@ -619,6 +619,7 @@ static void output_term(const char *fname)
 {
 	struct section *section;
 	size_t i;
+	int write_err;
 
 	for(i = 0; (section = dynmap_key(struct section *, cc1_outsections, i)); i++)
 		free(section);
@@ -626,7 +627,8 @@ static void output_term(const char *fname)
 	dynmap_free(cc1_outsections);
 	cc1_outsections = NULL;
 
-	if(fclose(cc1_output.file))
+	write_err = ferror(cc1_output.file);
+	if(fclose(cc1_output.file) || write_err)
 		ccdie("close output (%s):", fname);
 	cc1_output.file = NULL;
 }
diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index d2a356b..a1957cb 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -334,6 +334,7 @@ int main(int argc, char **argv)
 {
 	char *infname, *outfname, *depfname;
 	int ret = 0;
+	int write_err;
 	enum {
 		PREPROCESSED = 1 << 0,
 		MACROS = 1 << 1,
@@ -678,9 +679,8 @@ defaul:
 	free(dirname_pop());
 	free(cpp_basefile);
 
-	errno = 0;
-	fclose(stdout);
-	if(errno)
+	write_err = ferror(stdout);
+	if(fclose(stdout) || write_err)
 		die("close():");
 
 	return ret;
-- 
2.43.0


From 31e40503153a28a25412ac9b1056a76ed02fbfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 058/122] fix: the driver names outputs of inputs without a
 one-letter extension

---
 src/ucc/ucc.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 2a5ab96..91828e1 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -134,31 +134,28 @@ static void unlink_files(void)
 static char *expected_filename(const char *in, enum mode mode)
 {
 	const char *base = strrchr(in, '/');
-	size_t len;
-	char *new;
+	const char *dot;
+	char ext;
 
 	if(!base++)
 		base = in;
 
-	new = ustrdup(base);
-	len = strlen(new);
-	if(len > 2 && new[len - 2] == '.'){
-		char ext;
-		switch(mode){
+	switch(mode){
 #define X(mode, desc, suffix) case mode_##mode: ext = suffix; break;
 #define ALIAS(...)
-			FILEMODES
+		FILEMODES
 #undef X
 #undef ALIAS
-			case mode_link:
-				assert(0 && "unreachable");
-		}
-
-		new[len - 1] = ext;
+		case mode_link:
+			assert(0 && "unreachable");
 	}
-	/* else stick with what we were given */
 
-	return new;
+	/* replace the extension, or add one if there isn't any */
+	dot = strrchr(base, '.');
+	if(!dot || dot == base)
+		dot = base + strlen(base);
+
+	return ustrprintf("%.*s.%c", (int)(dot - base), base, ext);
 }
 
 static void tmpfilenam(
-- 
2.43.0


From 00c5b3687a90115df71d01212541d79281f97394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 059/122] fix: -S of assembly that needs preprocessing outputs
 the preprocessed text

---
 src/ucc/ucc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 91828e1..9f0e23a 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -239,6 +239,11 @@ compile:
 assemb_with_cpp:
 				file->preproc_asm = 1;
 				FILL_WITH_TMP(preproc); /* preprocess .S assembly files by default */
+				if(mode == mode_compile){
+					/* nothing to compile */
+					file->out = file->preproc;
+					return;
+				}
 assemb:
 after_compile:
 			case 's':
@@ -321,8 +326,7 @@ static void rename_files(struct cc_file *files, int nfiles, const char *output,
 				continue;
 			}else if(mode == mode_compile && !strcmp(output, "-")){
 				/* -S -o- */
-				if(files[i].compile.fname)
-					cat_fnames(files[i].compile.fname, NULL, 0);
+				cat_fnames(files[i].out.fname, NULL, 0);
 				continue;
 			}
 
-- 
2.43.0


From f4a688182c04948447208de6f9301504ba1958d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 060/122] fix: __ASSEMBLER__ isn't defined for inputs after an
 assembly one

---
 src/ucc/ucc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 9f0e23a..fa6a3b0 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -277,10 +277,15 @@ static void gen_obj_file(
 	if(file->preproc.fname){
 		/* if we're preprocessing, but not cc1'ing, but we are as'ing,
 		 * it's an assembly language file */
+		char **preproc_args = NULL;
+
+		dynarray_add_array(&preproc_args, args[mode_preproc]);
 		if(file->preproc_asm)
-			dynarray_add(&args[mode_preproc], ustrdup("-D__ASSEMBLER__=1"));
+			dynarray_add(&preproc_args, (char *)"-D__ASSEMBLER__=1");
+
+		preproc(in, file->preproc.fname, preproc_args, 0);
 
-		preproc(in, file->preproc.fname, args[mode_preproc], 0);
+		dynarray_free(char **, preproc_args, NULL);
 
 		in = file->preproc.fname;
 	}
-- 
2.43.0


From 80291ca743c6f43f3460baed23267ccfd733563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 061/122] fix: -E -o overwrites its output when the first input
 has nothing to preprocess

---
 src/ucc/ucc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index fa6a3b0..fde889b 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -310,6 +310,7 @@ static void gen_obj_file(
 static void rename_files(struct cc_file *files, int nfiles, const char *output, enum mode mode)
 {
 	const char mode_ch = MODE_ARG_CH(mode);
+	int appending = 0;
 	int i;
 
 	for(i = 0; i < nfiles; i++){
@@ -326,8 +327,10 @@ static void rename_files(struct cc_file *files, int nfiles, const char *output,
 		if(output){
 			if(mode == mode_preproc){
 				/* append to current */
-				if(files[i].preproc.fname)
-					cat_fnames(files[i].preproc.fname, output, i);
+				if(files[i].preproc.fname){
+					cat_fnames(files[i].preproc.fname, output, appending);
+					appending = 1;
+				}
 				continue;
 			}else if(mode == mode_compile && !strcmp(output, "-")){
 				/* -S -o- */
-- 
2.43.0


From 2253b476a3ff93cf7c5165944332f79ba982ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 062/122] fix: the driver searches PATH for -wrapper and waits
 for its own child only

---
 src/ucc/ucc_ext.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 7c56190..112038f 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -101,6 +101,8 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 			}
 
 			argv[i_out++] = cmdpath_resolve(path, &execfn);
+			if(wrapper)
+				execfn = execvp; /* look up the wrapper, not the stage command */
 
 			while(args[i_in])
 				argv[i_out++] = args[i_in++];
@@ -122,8 +124,10 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 		default:
 		{
 			int status, i;
-			if(wait(&status) == -1)
-				die("wait()");
+			/* wait for our own child - we may have inherited others across exec */
+			while(waitpid(pid, &status, 0) == -1)
+				if(errno != EINTR)
+					die("waitpid():");
 
 			if(time_subcmds && gettimeofday(&time_end, NULL) < 0)
 				fprintf(stderr, "gettimeofday(): %s\n", strerror(errno));
-- 
2.43.0


From 6afc91f639411cbf555e143284ee8a7ffee2eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 063/122] fix: the driver places outputs without a shell, keeps
 devices, and reports failed writes

---
 src/ucc/ucc_ext.c | 66 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 112038f..1eadceb 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -30,6 +30,15 @@ void ucc_ext_cmds_show(int s)
 void ucc_ext_cmds_noop(int n)
 { noop = n; }
 
+static void remove_output(const char *fname)
+{
+	struct stat st;
+
+	/* leave devices, pipes, etc alone, e.g. -o /dev/null */
+	if(lstat(fname, &st) == 0 && S_ISREG(st.st_mode))
+		remove(fname);
+}
+
 static int runner(struct cmdpath *path, char **args, int return_ec, const char *to_remove)
 {
 	pid_t pid;
@@ -134,7 +143,7 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 
 			if(WIFEXITED(status) && (i = WEXITSTATUS(status)) != 0){
 				if(to_remove)
-					remove(to_remove);
+					remove_output(to_remove);
 				if(!return_ec)
 					die("%s returned %d", path->path, i);
 			}else if(WIFSIGNALED(status)){
@@ -143,7 +152,7 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 				fprintf(stderr, "%s caught signal %d\n", path->path, sig);
 
 				if(to_remove)
-					remove(to_remove);
+					remove_output(to_remove);
 
 				/* exit with propagating status */
 				exit(128 + sig);
@@ -176,37 +185,48 @@ void execute(char *path, char **args)
 	runner(&cmdpath, args, 0, NULL);
 }
 
+static FILE *open_output(const char *fname, const char *mode)
+{
+	FILE *f;
+	const mode_t prev = umask(orig_umask);
+
+	f = fopen(fname, mode);
+
+	umask(prev);
+
+	return f;
+}
+
 void rename_or_move(char *old, char *new)
 {
 	/* don't move, cat instead, since we can't move to /dev/null, for e.g. */
-	int len, i;
-	char *cmd, *p;
-	char *args[] = {
-		"cat", old, ">", new, NULL
-	};
-	char *fixed[3];
-	struct cmdpath shpath;
+	FILE *in, *out;
+	int err;
 
 	if(!strcmp(old, new))
 		return;
 
-	for(i = 0, len = 1; args[i]; i++)
-		len += strlen(args[i]) + 1; /* space */
+	if(show)
+		fprintf(stderr, "cat %s > %s\n", old, new);
 
-	p = cmd = umalloc(len);
+	if(noop)
+		return;
 
-	for(i = 0; args[i]; i++)
-		p += sprintf(p, "%s ", args[i]);
+	in = fopen(old, "r");
+	if(!in)
+		die("open %s:", old);
 
-	fixed[0] = "-c";
-	fixed[1] = cmd;
-	fixed[2] = NULL;
+	out = open_output(new, "w");
+	if(!out)
+		die("open %s:", new);
 
-	shpath.path = "sh";
-	shpath.type = USE_PATH;
-	runner(&shpath, fixed, 0, new);
+	err = cat(in, out);
+	fclose(in);
 
-	free(cmd);
+	if(fclose(out) == EOF || err){
+		remove_output(new);
+		die("write %s:", new);
+	}
 }
 
 void cat_fnames(char *fnin, const char *fnout, int append)
@@ -228,7 +248,7 @@ void cat_fnames(char *fnin, const char *fnout, int append)
 		die("open %s:", fnin);
 
 	if(fnout){
-		out = fopen(fnout, append ? "a" : "w");
+		out = open_output(fnout, append ? "a" : "w");
 		if(!out)
 			die("open %s:", fnout);
 	}else{
@@ -241,7 +261,7 @@ void cat_fnames(char *fnin, const char *fnout, int append)
 	if(fclose(in))
 		die("close():");
 
-	if(fnout && fclose(out) == EOF)
+	if((fnout ? fclose(out) : fflush(out)) == EOF)
 		die("close():");
 }
 
-- 
2.43.0


From 582b8582e68990ae2d339cff55a47173039892cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:51 +0000
Subject: [PATCH 064/122] fix: constant && and || compare each floating operand
 with zero in its own type

---
 src/cc1/ops/expr_op.c | 47 +++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 64058ad..e49f271 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -137,6 +137,17 @@ static enum eval_truth collapsed_consty_to_truth(const collapsed_consty *k)
 	return k->is_weak ? EVAL_UNKNOWN : k->lbl || k->offset ? EVAL_TRUE : EVAL_FALSE;
 }
 
+static enum eval_truth consty_to_truth(const consty *k)
+{
+	collapsed_consty collapsed;
+
+	if(k->type == CONST_NUM && K_FLOATING(k->bits.num))
+		return k->bits.num.val.f != 0 ? EVAL_TRUE : EVAL_FALSE;
+
+	collapse_const(&collapsed, k);
+	return collapsed_consty_to_truth(&collapsed);
+}
+
 static void eval_truth_to_consty(enum eval_truth t, consty *k, expr *e)
 {
 	switch(t){
@@ -222,24 +233,6 @@ static void const_op_num_int(
 
 	CONST_FOLD_LEAF(k);
 
-	switch(e->bits.op.op){
-		case op_andsc:
-		case op_orsc:
-		{
-			enum eval_truth result = eval_shortcircuit(
-					e->bits.op.op,
-					collapsed_consty_to_truth(&l),
-					collapsed_consty_to_truth(&r));
-
-			eval_truth_to_consty(result, k, e);
-
-			/* early finish */
-			return;
-		}
-		default:
-			break;
-	}
-
 	switch(!!l.lbl + !!r.lbl){
 		default:
 			assert(0);
@@ -427,6 +420,19 @@ static void const_op_num(
 		type_is_floating(e->lhs->tree_type)
 	};
 
+	if(e->bits.op.op == op_andsc || e->bits.op.op == op_orsc){
+		/* each operand is compared with zero in its own type */
+		CONST_FOLD_LEAF(k);
+
+		eval_truth_to_consty(
+				eval_shortcircuit(
+					e->bits.op.op,
+					consty_to_truth(lhs),
+					consty_to_truth(rhs)),
+				k, e);
+		return;
+	}
+
 	if(rhs){
 		int valid;
 
@@ -454,7 +460,6 @@ static void const_shortcircuit(
 		const consty *lhs,
 		const consty *rhs)
 {
-	collapsed_consty clhs;
 	enum eval_truth truth;
 
 	if(!CONST_AT_COMPILE_TIME(lhs->type))
@@ -468,11 +473,9 @@ static void const_shortcircuit(
 	 * otherwise, lhs is constant, rhs is not */
   assert(!CONST_AT_COMPILE_TIME(rhs->type));
 
-	collapse_const(&clhs, lhs);
-
 	truth = eval_shortcircuit(
 			e->bits.op.op,
-			collapsed_consty_to_truth(&clhs),
+			consty_to_truth(lhs),
 			EVAL_UNKNOWN);
 
 	eval_truth_to_consty(truth, k, e);
-- 
2.43.0


From f69f51968faf9de8bc56e8c362d7cf6dfa8115b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 065/122] fix: negating zero, and a negative zero constant,
 keep the sign

---
 src/cc1/const.c      | 11 +++++++++++
 src/cc1/const.h      |  1 +
 src/cc1/decl_init.c  |  3 ++-
 src/cc1/num.c        |  5 +++++
 src/cc1/num.h        |  2 ++
 src/cc1/out/x86_64.c | 10 ++++++++--
 6 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 46c1623..b7fae96 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -162,6 +162,17 @@ int const_expr_and_zero(expr *e)
 	return const_expr_zero(e, 1);
 }
 
+int const_expr_is_neg_zero(expr *e)
+{
+	consty k;
+
+	const_fold(e, &k);
+
+	return k.type == CONST_NUM
+		&& K_FLOATING(k.bits.num)
+		&& floating_is_neg_zero(k.bits.num.val.f);
+}
+
 /*
 long const_expr_value(expr *e)
 {
diff --git a/src/cc1/const.h b/src/cc1/const.h
index d2d5122..40a9ef6 100644
--- a/src/cc1/const.h
+++ b/src/cc1/const.h
@@ -79,6 +79,7 @@ void const_fold(struct expr *e, consty *);
 
 int const_expr_and_zero(struct expr *e);
 int const_expr_and_non_zero(struct expr *e);
+int const_expr_is_neg_zero(struct expr *e); /* zero, but not all-bits-zero */
 
 void const_fold_integral(struct expr *e, numeric *);
 int const_fold_integral_try(struct expr *e, numeric *);
diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index d63ff44..30e9719 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -261,7 +261,8 @@ static int decl_init_is_zero_fold(decl_init *dinit, symtable *symtab)
 		case decl_init_scalar:
 			if(symtab)
 				fold_expr_nodecay(dinit->bits.expr, symtab);
-			return const_expr_and_zero(dinit->bits.expr);
+			return const_expr_and_zero(dinit->bits.expr)
+				&& !const_expr_is_neg_zero(dinit->bits.expr);
 
 		case decl_init_brace:
 		{
diff --git a/src/cc1/num.c b/src/cc1/num.c
index 93f7768..341ca7e 100644
--- a/src/cc1/num.c
+++ b/src/cc1/num.c
@@ -12,6 +12,11 @@
 
 #include "num.h"
 
+int floating_is_neg_zero(floating_t f)
+{
+	return f == 0 && 1 / f < 0;
+}
+
 int numeric_cmp(const numeric *a, const numeric *b)
 {
 	assert((a->suffix & VAL_FLOATING) == (b->suffix & VAL_FLOATING));
diff --git a/src/cc1/num.h b/src/cc1/num.h
index cf0c544..1513b9d 100644
--- a/src/cc1/num.h
+++ b/src/cc1/num.h
@@ -57,6 +57,8 @@ struct numeric
 
 int numeric_cmp(const numeric *, const numeric *);
 
+int floating_is_neg_zero(floating_t);
+
 #define INTEGRAL_BUF_SIZ 32
 struct type;
 int integral_str(char *buf, size_t nbuf, integral_t v, struct type *ty);
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index c6d010e..e81dce7 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1002,7 +1002,7 @@ static const out_val *x86_load_fp(out_ctx *octx, const out_val *from)
 			ICE("load int into float?");
 
 		case V_CONST_F:
-			if(from->bits.val_f == 0){
+			if(from->bits.val_f == 0 && !floating_is_neg_zero(from->bits.val_f)){
 				type *const ty_fp = from->t;
 				out_val *mut = v_dup_or_reuse(octx, from, from->t);
 				struct vreg r;
@@ -1021,6 +1021,7 @@ static const out_val *x86_load_fp(out_ctx *octx, const out_val *from)
 			 * ... unless it's greater than 0x1p63, in which case,
 			 * we can't create it from an integer. */
 			if(from->bits.val_f == (integral_t)from->bits.val_f
+			&& from->bits.val_f != 0 /* no -0 integer */
 			&& ucc_fabs(from->bits.val_f) < 9223372036854775808.0 /* 0x1p63 */
 			&& cc1_fopt.integral_float_load)
 			{
@@ -1905,9 +1906,14 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 
 		case op_minus:
 			if(type_is_floating(val->t)){
+				/* 0 - 0 is positive zero, so subtract from -0 */
+				numeric neg_zero = { 0 };
+				neg_zero.val.f = -0.0;
+				neg_zero.suffix = VAL_FLOATING;
+
 				return out_op(
 						octx, op_minus,
-						out_new_zero(octx, val->t),
+						out_new_num(octx, val->t, &neg_zero),
 						val);
 			}
 			opc = "neg";
-- 
2.43.0


From e027c5208ab8007f27de039cb5b76e76d241e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 066/122] fix: reading through a spilt pointer to a floating
 object reloads the pointer in an integer register

---
 src/cc1/out/out.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index 23053c7..c53a4c2 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -226,7 +226,7 @@ const out_val *out_change_type(out_ctx *octx, const out_val *val, type *ty)
 
 const out_val *out_deref(out_ctx *octx, const out_val *target)
 {
-	type *tnext = type_is_ptr(target->t);
+	type *tnext;
 	struct vreg reg_store;
 	const struct vreg *reg = &reg_store;
 	int is_fp;
@@ -234,6 +234,17 @@ const out_val *out_deref(out_ctx *octx, const out_val *target)
 	const out_val *dval;
 	int done_out_deref;
 
+	if(target->type == V_SPILT){
+		/* reload the pointer first: what it points to
+		 * decides which register is needed for the value */
+		if(cc1_fopt.verbose_asm)
+			out_comment(octx, "double-indir for spilt value");
+		v_unused_reg(octx, 1, 0, &reg_store, target);
+		target = impl_deref(octx, target, reg, NULL);
+	}
+
+	tnext = type_is_ptr(target->t);
+
 	/* if the pointed-to object is not an lvalue, don't deref */
 	if(type_is(tnext, type_array)
 	|| type_is(tnext, type_func))
@@ -252,12 +263,6 @@ const out_val *out_deref(out_ctx *octx, const out_val *target)
 		target = out_cast(octx, target, type_ptr_to(bf.master_ty), 0);
 	}
 
-	if(target->type == V_SPILT){
-		if(cc1_fopt.verbose_asm)
-			out_comment(octx, "double-indir for spilt value");
-		target = impl_deref(octx, target, reg, NULL);
-	}
-
 	dval = impl_deref(octx, target, reg, &done_out_deref);
 
 	if(bf.nbits && !done_out_deref)
-- 
2.43.0


From af1c24f4ab4323bde1086171ae568d49d96fa16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:21 +0000
Subject: [PATCH 067/122] fix: ! of an ordered floating comparison is true for
 a NaN operand

---
 src/cc1/out/op.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 7b02a93..0712b5f 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -421,6 +421,21 @@ const out_val *out_op_with_flags(
 	return out_op_maybe_flags(octx, binop, lhs, rhs, 1);
 }
 
+static int can_reverse_flag(const struct flag_opts *flag)
+{
+	if(!(flag->mods & flag_mod_float) || cc1_fopt.finite_math_only)
+		return 1;
+
+	/* for an unordered comparison, < and >= are both false */
+	switch(flag->cmp){
+		case flag_eq:
+		case flag_ne:
+			return 1;
+		default:
+			return 0;
+	}
+}
+
 const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 {
 	switch(uop){
@@ -434,7 +449,7 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 	/* special case - reverse the flag if possible */
 	switch(val->type){
 		case V_FLAG:
-			if(uop == op_not){
+			if(uop == op_not && can_reverse_flag(&val->bits.flag)){
 				out_val *reversed = v_dup_or_reuse(octx, val, val->t);
 
 				reversed->bits.flag.cmp = v_not_cmp(reversed->bits.flag.cmp);
-- 
2.43.0


From 0c5de32029f7ed0d30d8869fc55030a627b56206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:18 +0000
Subject: [PATCH 068/122] fix: a spill made while setting up a call overwrote a
 stack argument

---
 src/cc1/out/func.c   |  8 ++++++--
 src/cc1/out/x86_64.c | 10 ++--------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/cc1/out/func.c b/src/cc1/out/func.c
index 7d1c603..5aed0da 100644
--- a/src/cc1/out/func.c
+++ b/src/cc1/out/func.c
@@ -304,18 +304,22 @@ void out_func_epilogue(
 				 * from the callee-saves (as it overlaps them by the amount it shared
 				 * with the spill space).
 				 *
-				 * Hence, max-stack-sz += callee_stack_diff + stack-callspace;
+				 * Hence, max-stack-sz += callee_stack_diff (and stack-callspace, below);
 				 * This is a little wasteful, but to fix, we would have to move the
 				 * callee saves to before the spill space, which would require a larger
 				 * restructure.
 				 */
-				octx->max_stack_sz += callee_stack_diff + octx->stack_callspace;
+				octx->max_stack_sz += callee_stack_diff;
 				octx->stack_calleesave_space = callee_stack_diff;
 			}
 		}
 		octx->in_prologue = 0;
 	}
 
+	/* arguments passed on the stack live at %rsp, below everything addressed
+	 * from %rbp - spills may be made after the first of them is stored */
+	octx->max_stack_sz += octx->stack_callspace;
+
 	if(cc1_profileg && mopt_mode & MOPT_FENTRY){ /* stack frame required */
 		clean_stack = 1;
 
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index e81dce7..0cc4266 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2409,7 +2409,6 @@ const out_val *impl_call(
 	struct
 	{
 		v_stackt bytesz;
-		const out_val *vptr;
 		enum
 		{
 			CLEANUP_NO,
@@ -2486,14 +2485,12 @@ const out_val *impl_call(
 			arg_stack.bytesz = pack_to_align(arg_stack.bytesz, octx->max_align);
 
 			v_stack_adj(octx, arg_stack.bytesz, /*sub:*/1);
-			arg_stack.vptr = NULL;
 
 			arg_stack.need_cleanup |= CLEANUP_POP;
 
 		}else{
-			/* this aligns the stack-ptr and returns arg_stack padded */
-			arg_stack.vptr = out_aalloc(octx, arg_stack.bytesz, pws, arithty, NULL);
-
+			/* space at the very bottom of the frame (see out_func_epilogue()),
+			 * separate from any spills made while setting up the call */
 			if(octx->stack_callspace < arg_stack.bytesz)
 				octx->stack_callspace = arg_stack.bytesz;
 		}
@@ -2668,9 +2665,6 @@ const out_val *impl_call(
 			/* caller cleanup - we reuse the stack for other purposes */
 				v_stack_adj(octx, arg_stack.bytesz, /*sub:*/0);
 		}
-
-		if(arg_stack.vptr)
-			out_adealloc(octx, &arg_stack.vptr);
 	}
 
 	for(i = 0; i < nargs; i++)
-- 
2.43.0


From 79855bc2d177faae5289565061f2561b46d3a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:23 +0000
Subject: [PATCH 069/122] fix: a constant converted to a floating type is
 signed according to its own type

---
 src/cc1/ops/expr_cast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index 0011cd4..399fc12 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -44,7 +44,7 @@ static void fold_cast_num(expr *const e, numeric *const num)
 		}else{
 			UCC_ASSERT(K_INTEGRAL(*num), "i/f mismatch types");
 			/* int -> float */
-			if(num->suffix & VAL_UNSIGNED){
+			if(!type_is_signed(expr_cast_child(e)->tree_type)){
 				num->val.f = num->val.i;
 			}else{
 				/* force a signed conversion, long long to long double */
-- 
2.43.0


From 54655dc8417381a6078e4b7ff58e174b354188b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:07 +0000
Subject: [PATCH 070/122] fix: a character constant has type int even when its
 value is negative

---
 src/cc1/num.h          | 2 ++
 src/cc1/ops/expr_val.c | 6 ++++++
 src/cc1/tokenise.c     | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cc1/num.h b/src/cc1/num.h
index 1513b9d..15fa15f 100644
--- a/src/cc1/num.h
+++ b/src/cc1/num.h
@@ -46,6 +46,8 @@ struct numeric
 		VAL_LDOUBLE  = 1 << 8,
 		VAL_FLOATING = VAL_FLOAT | VAL_DOUBLE | VAL_LDOUBLE,
 
+		VAL_CHAR     = 1 << 9, /* character constant - an int, even if negative */
+
 		/* variable was read in as decimal if none of these set */
 		VAL_OCTAL       = 1 << 3,
 		VAL_HEX         = 1 << 4,
diff --git a/src/cc1/ops/expr_val.c b/src/cc1/ops/expr_val.c
index c78ad8c..0d69775 100644
--- a/src/cc1/ops/expr_val.c
+++ b/src/cc1/ops/expr_val.c
@@ -74,6 +74,12 @@ void fold_expr_val(expr *e, symtable *stab)
 		goto chosen;
 	}
 
+	if(num->suffix & VAL_CHAR){
+		is_signed = 1;
+		p = type_int;
+		goto chosen;
+	}
+
 	if(num->val.i == 0){
 		assert(highest_bit == -1);
 		goto chosen;
diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index afef4b0..b7425fd 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -1015,7 +1015,7 @@ out:
 	else
 		currentval.val.i = (char)ch; /* ensure we sign extend from char */
 
-	currentval.suffix = 0;
+	currentval.suffix = VAL_CHAR;
 	curtok = is_wide ? token_integer : token_character;
 }
 
-- 
2.43.0


From da787aa3cd0c606fc605a1075db168017a768379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:47 +0000
Subject: [PATCH 071/122] fix: constant floating arithmetic is done in, and
 rounded to, the type of its operands

---
 src/cc1/const.c       | 17 ++++++++++++-----
 src/cc1/const.h       |  3 ++-
 src/cc1/ops/expr_op.c |  3 ++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index b7fae96..70d3389 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -270,8 +270,14 @@ integral_t const_op_exec(
 
 floating_t const_op_exec_fp(
 		floating_t lv, const floating_t *rv,
-		enum op_type op)
+		enum op_type op, enum type_primitive prim)
 {
+/* evaluate in (and round to) the operands' type, as would be done at runtime */
+#define FP_ARITH(op) \
+	prim == type_float ? (float)((float)lv op (float)*rv) : \
+	prim == type_double ? (double)((double)lv op (double)*rv) : \
+	lv op *rv
+
 	switch(op){
 		case op_orsc:
 		case op_andsc:
@@ -299,11 +305,11 @@ floating_t const_op_exec_fp(
 				 */
 				return NAN;
 			}
-			return lv / *rv; /* safe - / 0.0f is inf */
+			return FP_ARITH(/); /* safe - / 0.0f is inf */
 
-		case op_multiply: return lv * *rv;
-		case op_plus:     return rv ? lv + *rv : +lv;
-		case op_minus:    return rv ? lv - *rv : -lv;
+		case op_multiply: return FP_ARITH(*);
+		case op_plus:     if(!rv) return +lv; return FP_ARITH(+);
+		case op_minus:    if(!rv) return -lv; return FP_ARITH(-);
 		case op_eq:       return lv == *rv;
 		case op_ne:       return lv != *rv;
 		case op_le:       return lv <= *rv;
@@ -317,6 +323,7 @@ floating_t const_op_exec_fp(
 	}
 
 	ucc_unreach(-1);
+#undef FP_ARITH
 }
 
 static void const_intify(consty *k, expr *owner)
diff --git a/src/cc1/const.h b/src/cc1/const.h
index 40a9ef6..3b88730 100644
--- a/src/cc1/const.h
+++ b/src/cc1/const.h
@@ -4,6 +4,7 @@
 #include "num.h"
 #include "strings.h"
 #include "op.h"
+#include "btype.h"
 
 struct expr;
 
@@ -98,6 +99,6 @@ integral_t const_op_exec(
 
 floating_t const_op_exec_fp(
 		floating_t lv, const floating_t *rv,
-		enum op_type op);
+		enum op_type op, enum type_primitive prim);
 
 #endif
diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index e49f271..88dbaea 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -68,7 +68,8 @@ static void const_op_num_fp(
 	fp_r = const_op_exec_fp(
 			lhs->bits.num.val.f,
 			rhs ? &rhs->bits.num.val.f : NULL,
-			e->bits.op.op);
+			e->bits.op.op,
+			type_primitive(e->lhs->tree_type));
 
 	k->type = CONST_NUM;
 
-- 
2.43.0


From 4439c3740152b76b8790d74aaeb165a56229e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 072/122] fix: an aligned attribute of a pointed-to or returned
 type doesn't apply to the declaration

---
 src/cc1/fold.c | 59 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/src/cc1/fold.c b/src/cc1/fold.c
index 2545e27..ceab376 100644
--- a/src/cc1/fold.c
+++ b/src/cc1/fold.c
@@ -904,6 +904,63 @@ static int fold_decl_resolve_align(decl *d, symtable *stab, attribute *attrib)
 	return max;
 }
 
+static attribute *fold_own_align_attr(decl *d)
+{
+	/* those given in the declaration, and those of its type, but not
+	 * those of a pointed-to or returned typedef, struct or union */
+	attribute *da = attr_present(d->attr, attr_aligned);
+	type *r = d->ref;
+	int own = 1;
+
+	while(!da && r){
+		switch(r->type){
+			case type_btype:
+				if(own && r->bits.type->sue)
+					da = attr_present(r->bits.type->sue->attr, attr_aligned);
+				r = NULL;
+				break;
+
+			case type_tdef:
+				if(!own){
+					r = NULL;
+				}else if(r->bits.tdef.decl){
+					da = attr_present(r->bits.tdef.decl->attr, attr_aligned);
+					r = r->bits.tdef.decl->ref;
+				}else{
+					r = r->bits.tdef.type_of->tree_type;
+				}
+				break;
+
+			case type_attr:
+				da = attr_present(r->bits.attr, attr_aligned);
+				r = r->ref;
+				break;
+
+			case type_array:
+			case type_cast:
+			case type_where:
+				r = r->ref;
+				break;
+
+			case type_ptr:
+			case type_block:
+			case type_func:
+				own = 0;
+				r = r->ref;
+				break;
+
+			case type_auto:
+				r = NULL;
+				break;
+		}
+	}
+
+	if(!da && d->proto)
+		return fold_own_align_attr(d->proto);
+
+	return da;
+}
+
 static void fold_decl_var_align(decl *d, symtable *stab)
 {
 	attribute *attrib;
@@ -917,7 +974,7 @@ static void fold_decl_var_align(decl *d, symtable *stab)
 		return;
 	}
 
-	attrib = attribute_present(d, attr_aligned);
+	attrib = fold_own_align_attr(d);
 
 	if(d->bits.var.align.first || attrib){
 		d->bits.var.align.resolved = fold_decl_resolve_align(d, stab, attrib);
-- 
2.43.0


From f66f8dad847b24961077385a9343f6041d781a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 073/122] fix: an operation on a spilt value changed the value
 in its spill slot

---
 src/cc1/out/x86_64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 0cc4266..1c7fcd1 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1788,6 +1788,10 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			r = v_to(octx, r, TO_REG | TO_CONST);
 		}
 
+		/* the spilt value isn't ours to change */
+		if(l->type == V_SPILT)
+			l = v_to_reg(octx, l);
+
 		if(v_is_const_reg(l) || (l->type == V_REG && l->retains > 1)){
 			/* ^ only check 'l' - 'r' is an rvalue and not changed */
 			l = x86_copy_shared_reg(octx, l);
-- 
2.43.0


From 39c2516833a96792419cb8ee056b9da98454d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 074/122] fix: stack arguments are addressed from the stack
 pointer, which is never spilt

---
 src/cc1/out/virt.c   |  1 +
 src/cc1/out/x86_64.c | 28 +++++++++++-----------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/cc1/out/virt.c b/src/cc1/out/virt.c
index b0c790d..ff8a767 100644
--- a/src/cc1/out/virt.c
+++ b/src/cc1/out/virt.c
@@ -306,6 +306,7 @@ static int v_unused_reg2(
 		 * even if we ignore them in other parts of the register liveness code */
 		&& this->type == V_REG
 		&& this->bits.regoff.reg.is_float == fp
+		&& !impl_reg_frame_const(&this->bits.regoff.reg, /*sp*/1)
 		&& regtest(octx->current_fnty, &this->bits.regoff.reg))
 		{
 			if(!first)
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 1c7fcd1..d9b82cb 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2484,7 +2484,7 @@ const out_val *impl_call(
 		else
 			arg_stack.need_cleanup |= CLEANUP_RESTORE_PUSHBACK;
 
-		/* see comment about stack_iter below */
+		/* see comment about %rsp below */
 		if(octx->alloca_count){
 			arg_stack.bytesz = pack_to_align(arg_stack.bytesz, octx->max_align);
 
@@ -2501,10 +2501,6 @@ const out_val *impl_call(
 	}
 
 	if(arg_stack.bytesz > 0){
-		const out_val *stack_iter;
-
-		nints = nfloats = 0;
-
 		/* Rather than spilling the registers based on %rbp, we spill
 		 * them based as offsets from %rsp, that way they're always
 		 * at the bottom of the stack, regardless of future changes
@@ -2515,7 +2511,10 @@ const out_val *impl_call(
 		 * Instead, we allocate stack explicitly, use it for the call,
 		 * then free it (done above).
 		 */
-		stack_iter = v_new_sp(octx, NULL);
+		long stack_off = 0;
+
+		nints = stret_kind == stret_memcpy;
+		nfloats = 0;
 
 		/* save in order */
 		for(i = 0; i < nargs; i++){
@@ -2524,23 +2523,18 @@ const out_val *impl_call(
 				: nints++ >= n_call_iregs;
 
 			if(stack_this){
-				type *storety = type_ptr_to(local_args[i]->t);
+				type *storety = type_ptr_to(v_get_type(local_args[i]));
 
-				assert(stack_iter->retains > 0);
-
-				stack_iter = out_change_type(octx, stack_iter, storety);
-				out_val_retain(octx, stack_iter);
-				local_args[i] = v_to_stack_mem(octx, local_args[i], stack_iter, V_REGOFF);
+				local_args[i] = v_to_stack_mem(
+						octx, local_args[i],
+						v_new_sp3(octx, NULL, storety, stack_off),
+						V_REGOFF);
 
 				assert(local_args[i]->retains > 0);
 
-				stack_iter = out_op(octx, op_plus,
-						out_change_type(octx, stack_iter, arithty),
-						out_new_l(octx, arithty, pws));
+				stack_off += pws;
 			}
 		}
-
-		out_val_release(octx, stack_iter);
 	}
 
 	/* must be set before stret pointer argument */
-- 
2.43.0


From 8d494eb7e34775205b7af01a1329dc060a7e5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 075/122] fix: the hidden struct return pointer is held in its
 register until the call

---
 src/cc1/out/x86_64.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index d9b82cb..5e2c037 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2406,6 +2406,7 @@ const out_val *impl_call(
 	const out_val **local_args = NULL;
 	const out_val *retval_stret;
 	const out_val *stret_spill;
+	const out_val *stret_arg = NULL;
 
 	const struct vreg *call_iregs;
 	unsigned n_call_iregs;
@@ -2554,7 +2555,10 @@ const out_val *impl_call(
 
 		out_val_retain(octx, stret_spill);
 		v_freeup_reg(octx, stret_reg);
-		out_flush_volatile(octx, v_to_reg_given(octx, stret_spill, stret_reg));
+		/* retained until the call, so the register isn't reused */
+		stret_arg = v_to_reg_given(octx, stret_spill, stret_reg);
+		if(stret_arg->bits.regoff.offset)
+			stret_arg = v_reg_apply_offset(octx, stret_arg);
 	}
 
 	for(i = 0; i < nargs; i++){
@@ -2668,6 +2672,8 @@ const out_val *impl_call(
 	for(i = 0; i < nargs; i++)
 		out_val_consume(octx, local_args[i]);
 	dynarray_free(const out_val **, local_args, NULL);
+	if(stret_arg)
+		out_val_consume(octx, stret_arg);
 
 	if(stret_kind != stret_scalar){
 		if(stret_kind == stret_regs){
-- 
2.43.0


From ec4b10271f73f74ecf205294cdf2a9a512bd21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 076/122] fix: narrow integer arguments are extended to int

---
 src/cc1/out/x86_64.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 5e2c037..8b4ddea 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2393,6 +2393,16 @@ void impl_branch(
 	}
 }
 
+static const out_val *v_extend_arg(out_ctx *octx, const out_val *arg)
+{
+	type *const int_ty = type_nav_btype(cc1_type_nav, type_int);
+
+	if(type_size(v_get_type(arg), NULL) >= type_size(int_ty, NULL))
+		return arg;
+
+	return out_cast(octx, arg, int_ty, 0);
+}
+
 const out_val *impl_call(
 		out_ctx *octx,
 		const out_val *fn, const out_val **args,
@@ -2444,6 +2454,10 @@ const out_val *impl_call(
 
 		float_arg[i] = type_is_floating(v_get_type(local_args[i]));
 
+		/* callees (from clang, for example) expect small ints to be extended */
+		if(type_is_integral(v_get_type(local_args[i])))
+			local_args[i] = v_extend_arg(octx, local_args[i]);
+
 		if(float_arg[i])
 			nfloats++;
 		else
-- 
2.43.0


From 72c827b5d2154c52094566535f3fec72433e74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:58 +0000
Subject: [PATCH 077/122] fix: a struct with misaligned members is returned in
 memory

---
 src/cc1/out/x86_64.c | 139 +++++++++++++++++++++++--------------------
 1 file changed, 76 insertions(+), 63 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 8b4ddea..5895de7 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -237,65 +237,6 @@ enum stret
 	stret_memcpy
 };
 
-static enum stret x86_stret(type *ty, unsigned *stack_space)
-{
-	/*
-	 * in short:
-	 * rdx:rax
-	 *   all integer structs from char <--> long long
-	 *
-	 * xmm0:xmm1
-	 *   all float structs from float <--> double[2] / double+float[2]
-	 *
-	 * x87 (TODO)
-	 *   struct { long double; } // anything larger is in memory
-	 *   return (_Complex long double)0 // x87
-	 *   return (struct { _Complex long double cld; }){ 0 }; // memory
-	 *
-	 * xmm0:rax
-	 *   struct { char<-->long, float[1..2]/double }
-	 * rax:xmm0
-	 *   inverse of above
-	 *
-	 * memory:
-	 *   struct { char[17..]/short[9..]/etc }
-	 *   struct { char, short, int, char } // final char busts it due to padding
-	 */
-	unsigned sz;
-	struct_union_enum_st *su = type_is_s_or_u(ty);
-
-	if(!su){
-		if(stack_space)
-			*stack_space = 0;
-		return stret_scalar;
-	}
-
-	sz = type_size(ty, NULL);
-
-	/* We unconditionally want to spill rdx:rax to the stack on return.
-	 * This could be optimised in the future
-	 * (in a similar vein as long long on x86/32-bit)
-	 * so that we can handle vtops with structure/union type
-	 * and multiple registers.
-	 *
-	 * Hence, space needed for both reg and memcpy returns
-	 */
-	if(stack_space)
-		*stack_space = sz;
-
-	if(cc1_fopt.pcc_struct_return)
-		return stret_memcpy;
-
-	if(IS_32_BIT())
-		ICE("TODO: 32-bit stret");
-
-	/* rdx:rax? */
-	if(sz > 2 * platform_word_size())
-		return stret_memcpy;
-
-	return stret_regs;
-}
-
 enum regtype
 {
 	NONE,
@@ -341,8 +282,9 @@ static void x86_classify_merge(
 		*p = INT; /* floats defer to ints */
 }
 
-/* find the class of each eightbyte an object at 'bit' occupies */
-static void x86_classify(
+/* find the class of each eightbyte an object at 'bit' occupies
+ * returns 0 if it has an unaligned member, and so belongs in memory */
+static int x86_classify(
 		type *ty, unsigned long bit, enum regtype classes[/*2*/])
 {
 	struct_union_enum_st *su = type_is_s_or_u(ty);
@@ -366,7 +308,8 @@ static void x86_classify(
 				x86_classify_merge(classes, membit + width - 1, INT);
 
 			}else if(!type_is_incomplete_array(mem->ref)){
-				x86_classify(mem->ref, membit, classes);
+				if(!x86_classify(mem->ref, membit, classes))
+					return 0;
 			}
 		}
 
@@ -376,14 +319,84 @@ static void x86_classify(
 		unsigned off;
 
 		for(off = 0; elemsz > 0 && off < total; off += elemsz)
-			x86_classify(elem, bit + off * CHAR_BIT, classes);
+			if(!x86_classify(elem, bit + off * CHAR_BIT, classes))
+				return 0;
 
 	}else if(type_size(ty, NULL) > 0){
 		const enum regtype class = type_is_floating(ty) ? FLOAT : INT;
 
+		if(bit % (type_align_no_attr(ty, NULL) * CHAR_BIT))
+			return 0;
+
 		x86_classify_merge(classes, bit, class);
 		x86_classify_merge(classes, bit + (type_size(ty, NULL) - 1) * CHAR_BIT, class);
 	}
+
+	return 1;
+}
+
+static enum stret x86_stret(type *ty, unsigned *stack_space)
+{
+	/*
+	 * in short:
+	 * rdx:rax
+	 *   all integer structs from char <--> long long
+	 *
+	 * xmm0:xmm1
+	 *   all float structs from float <--> double[2] / double+float[2]
+	 *
+	 * x87 (TODO)
+	 *   struct { long double; } // anything larger is in memory
+	 *   return (_Complex long double)0 // x87
+	 *   return (struct { _Complex long double cld; }){ 0 }; // memory
+	 *
+	 * xmm0:rax
+	 *   struct { char<-->long, float[1..2]/double }
+	 * rax:xmm0
+	 *   inverse of above
+	 *
+	 * memory:
+	 *   struct { char[17..]/short[9..]/etc }
+	 *   struct { char, short, int, char } // final char busts it due to padding
+	 */
+	unsigned sz;
+	struct_union_enum_st *su = type_is_s_or_u(ty);
+	enum regtype classes[2] = { NONE, NONE };
+
+	if(!su){
+		if(stack_space)
+			*stack_space = 0;
+		return stret_scalar;
+	}
+
+	sz = type_size(ty, NULL);
+
+	/* We unconditionally want to spill rdx:rax to the stack on return.
+	 * This could be optimised in the future
+	 * (in a similar vein as long long on x86/32-bit)
+	 * so that we can handle vtops with structure/union type
+	 * and multiple registers.
+	 *
+	 * Hence, space needed for both reg and memcpy returns
+	 */
+	if(stack_space)
+		*stack_space = sz;
+
+	if(cc1_fopt.pcc_struct_return)
+		return stret_memcpy;
+
+	if(IS_32_BIT())
+		ICE("TODO: 32-bit stret");
+
+	/* rdx:rax? */
+	if(sz > 2 * platform_word_size())
+		return stret_memcpy;
+
+	/* packed, with unaligned members? */
+	if(!x86_classify(ty, 0, classes))
+		return stret_memcpy;
+
+	return stret_regs;
 }
 
 static void x86_overlay_regpair(
-- 
2.43.0


From 2ba49e1bd708018538da319e9887d721bc84823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 078/122] fix: debug information referenced unused static
 locals, which aren't emitted

---
 src/cc1/ops/stmt_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/stmt_code.c b/src/cc1/ops/stmt_code.c
index 769095c..190c68f 100644
--- a/src/cc1/ops/stmt_code.c
+++ b/src/cc1/ops/stmt_code.c
@@ -410,7 +410,7 @@ void gen_block_decls_dealloca(
 		const out_val *v;
 
 		if(!d->sym || d->sym->type != sym_local || type_is(d->ref, type_func)){
-			if(d->sym && cc1_gdebug == DEBUG_FULL){
+			if(d->sym && cc1_gdebug == DEBUG_FULL && !decl_unused_and_internal(d)){
 				/* int a; f(){ int a; { extern a; ... } }
 				 *                      ^~~~~~~~~~~~~ need to say ::a is in scope
 				 */
-- 
2.43.0


From 74bb36a98608cfbc1b835afd7c38d369781cc140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 079/122] fix: va_arg() read doubles past the end of the
 register save area

---
 src/cc1/ops/__builtin_va.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/__builtin_va.c b/src/cc1/ops/__builtin_va.c
index a2d197a..b1f985a 100644
--- a/src/cc1/ops/__builtin_va.c
+++ b/src/cc1/ops/__builtin_va.c
@@ -225,7 +225,7 @@ static const out_val *va_arg_gen_read(
 
 	/* FIXME: this needs to reference x86_64::N_CALL_REGS_{I,F} */
 	const int fp = type_is_floating(ty);
-	const unsigned max_reg_args_sz = 6 * 8 + (fp ? 16 * 16 : 0);
+	const unsigned max_reg_args_sz = 6 * 8 + (fp ? 8 * 16 : 0);
 	const unsigned ws = platform_word_size();
 	const out_val *valist, *gpoff_addr, *gpoff_val;
 	const int VALIST_OFFSET_TYPE = type_uint;
-- 
2.43.0


From ab5047b5f850f1f2e617185fe4aed3c5a1be3e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 080/122] fix: va_start() skips named arguments on the stack,
 floating arguments and the struct return pointer

---
 src/cc1/ops/__builtin_va.c | 18 +++++++-----------
 src/cc1/out/out.h          |  4 ++++
 src/cc1/out/x86_64.c       | 27 +++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/cc1/ops/__builtin_va.c b/src/cc1/ops/__builtin_va.c
index b1f985a..da6071b 100644
--- a/src/cc1/ops/__builtin_va.c
+++ b/src/cc1/ops/__builtin_va.c
@@ -139,20 +139,15 @@ static void fold_va_start(expr *e, symtable *stab)
 #define ADD_ASSIGN_VAL(memb, val) ADD_ASSIGN(memb, W(expr_new_val(val)))
 
 		const int ws = platform_word_size();
-		struct
-		{
-			unsigned gp, fp;
-		} nargs = { 0, 0 };
-		funcargs *const fa = type_funcargs(symtab_func(stab)->ref);
+		unsigned gp, fp, overflow;
 
-		funcargs_ty_calc(fa, &nargs.gp, &nargs.fp);
+		out_variadic_offsets(symtab_func(stab)->ref, &gp, &fp, &overflow);
 
 		/* need to set the offsets to act as if we've skipped over
 		 * n call regs, since we may already have some arguments used
 		 */
-		ADD_ASSIGN_VAL("gp_offset", nargs.gp * ws);
-		ADD_ASSIGN_VAL("fp_offset", (6 + nargs.fp) * ws);
-		/* FIXME: x86_64::N_CALL_REGS_I reference above */
+		ADD_ASSIGN_VAL("gp_offset", gp);
+		ADD_ASSIGN_VAL("fp_offset", fp);
 
 		ADD_ASSIGN("reg_save_area", W(builtin_new_reg_save_area()));
 
@@ -162,8 +157,9 @@ static void fold_va_start(expr *e, symtable *stab)
 						W(builtin_new_frame_address(0)),
 						type_ptr_to(type_nav_btype(cc1_type_nav, type_nchar)),
 						1)),
-					/* *2 to step over saved-rbp and saved-ret */
-					W(expr_new_val(ws * 2)))));
+					/* *2 to step over saved-rbp and saved-ret,
+					 * then any arguments passed on the stack */
+					W(expr_new_val(ws * 2 + overflow)))));
 
 
 		fold_stmt(assigns);
diff --git a/src/cc1/out/out.h b/src/cc1/out/out.h
index fba5f35..0b88912 100644
--- a/src/cc1/out/out.h
+++ b/src/cc1/out/out.h
@@ -48,6 +48,10 @@ const out_val *out_new_overflow(out_ctx *, const out_val **) ucc_wur;
 out_val *out_new_frame_ptr(out_ctx *, int nframes) ucc_wur;
 const out_val *out_new_return_addr(out_ctx *octx, int nframes) ucc_wur;
 out_val *out_new_reg_save_ptr(out_ctx *) ucc_wur;
+
+/* where va_start() begins, after the named arguments */
+void out_variadic_offsets(
+		type *fnty, unsigned *gp, unsigned *fp, unsigned *overflow);
 out_val *out_new_nan(out_ctx *, type *ty) ucc_wur;
 
 const out_val *out_normalise(out_ctx *, const out_val *) ucc_wur;
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 5895de7..452eeb0 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -756,6 +756,33 @@ pass_via_stack:
 	}
 }
 
+void out_variadic_offsets(
+		type *fnty, unsigned *gp, unsigned *fp, unsigned *overflow)
+{
+	const unsigned pws = platform_word_size();
+	unsigned n_call_iregs;
+	unsigned nints, nfloats;
+
+	x86_call_regs(fnty, &n_call_iregs, NULL);
+	funcargs_ty_calc(type_funcargs(fnty), &nints, &nfloats);
+
+	if(x86_stret(type_func_call(fnty, NULL), NULL) == stret_memcpy)
+		nints++;
+
+	*overflow = 0;
+	if(nints > n_call_iregs){
+		*overflow += (nints - n_call_iregs) * pws;
+		nints = n_call_iregs;
+	}
+	if(nfloats > N_CALL_REGS_F){
+		*overflow += (nfloats - N_CALL_REGS_F) * pws;
+		nfloats = N_CALL_REGS_F;
+	}
+
+	*gp = nints * pws;
+	*fp = n_call_iregs * pws + nfloats * 2 * pws;
+}
+
 void impl_func_prologue_save_variadic(out_ctx *octx, type *rf)
 {
 	const unsigned pws = platform_word_size();
-- 
2.43.0


From cfc0acc026c4798ec5028cd2587d920b206c4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:26 +0000
Subject: [PATCH 081/122] fix: bytes above 0x7f in a narrow string were
 sign-extended when joined to a wide one

---
 src/cc1/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/str.c b/src/cc1/str.c
index 0a9bada..a520a9f 100644
--- a/src/cc1/str.c
+++ b/src/cc1/str.c
@@ -59,7 +59,7 @@ static void cstring_widen(struct cstring *cstr)
 	assert(cstr->type == CSTRING_RAW || cstr->type == CSTRING_ASCII);
 
 	for(i = 0; i < cstr->count + 1; i++)
-		wides[i] = cstr->bits.ascii[i];
+		wides[i] = (unsigned char)cstr->bits.ascii[i];
 
 	free(cstr->bits.ascii);
 	cstr->bits.wides = wides;
-- 
2.43.0


From 154f7c931fc28cc7d397d2af7d2965cc97757981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:26 +0000
Subject: [PATCH 082/122] fix: an escape doesn't take the underscores after it,
 and wide escapes reach 0xffffffff

---
 src/util/escape.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/escape.c b/src/util/escape.c
index a66e776..a6ed50c 100644
--- a/src/util/escape.c
+++ b/src/util/escape.c
@@ -71,7 +71,7 @@ static void overflow_handle(char *s, char **end, digit_test *test)
 
 static unsigned long long read_ap_num(
 		digit_test test, char *s,
-		int base, int max_chars,
+		int base, int max_chars, int escape,
 		char **const end, int *const of)
 {
 	unsigned long long val = 0;
@@ -86,12 +86,12 @@ static unsigned long long read_ap_num(
 			/* advance over what's left, etc */
 			overflow_handle(s, end, test);
 			*of = 1;
-			while((test(*s) || *s == '_'))
+			while((test(*s) || (!escape && *s == '_')))
 				s++;
 			break;
 		}
 		s++;
-		while(*s == '_')
+		while(!escape && *s == '_')
 			s++;
 		if(max_chars > 0 && --max_chars == 0)
 			break;
@@ -134,6 +134,7 @@ unsigned long long char_seq_to_ullong(
 			s,
 			bases[mode].base,
 			apply_limit ? bases[mode].max_chars : -1,
+			apply_limit,
 			eptr,
 			of);
 }
@@ -164,7 +165,7 @@ int escape_char_1(
 			*err = ERANGE;
 		if(start == *end)
 			*err = EILSEQ;
-		if(parsed > (is_wide ? 0x7fffffff : 0xff))
+		if(parsed > (is_wide ? 0xffffffff : 0xff))
 			*err = ERANGE;
 
 		return parsed;
-- 
2.43.0


From 1c92487b3f4c8a095279446ce3eb06b219f18d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:26 +0000
Subject: [PATCH 083/122] fix: folding an integer-only operator on floating
 operands isn't an internal error

---
 src/cc1/ops/expr_op.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 88dbaea..9fdd1da 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -65,6 +65,21 @@ static void const_op_num_fp(
 		return;
 	}
 
+	switch(e->bits.op.op){
+		case op_modulus:
+		case op_xor:
+		case op_or:
+		case op_and:
+		case op_shiftl:
+		case op_shiftr:
+		case op_bnot:
+			/* not for floats - an error has been emitted */
+			k->type = CONST_NO;
+			return;
+		default:
+			break;
+	}
+
 	fp_r = const_op_exec_fp(
 			lhs->bits.num.val.f,
 			rhs ? &rhs->bits.num.val.f : NULL,
-- 
2.43.0


From a6e1beb8647f1164aafe7f9349868ca828d4960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:26 +0000
Subject: [PATCH 084/122] fix: compound assignments check their operands' types

---
 src/cc1/ops/expr_assign_compound.c | 23 +++++++++++++++++++++++
 src/cc1/ops/expr_op.c              |  8 ++++----
 src/cc1/ops/expr_op.h              |  3 +++
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index b53fa01..78e8caa 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -4,6 +4,7 @@
 #include "expr_assign.h"
 #include "expr_op.h"
 
+#include "../type_is.h"
 #include "../type_nav.h"
 #include "../sanitize.h"
 
@@ -46,6 +47,28 @@ void fold_expr_assign_compound(expr *e, symtable *stab)
 	 * lhs int promotion is handled in code-gen */
 	expr_promote_int_if_smaller(&e->rhs, stab);
 
+	if(expr_op_float_check(e, e->bits.compoundop.op)){
+		e->tree_type = type_unqualify(lvalue->tree_type);
+		return;
+	}
+
+	/* 6.5.16.2: a pointer may only be on the left, with an integer */
+	if(type_is_ptr(e->rhs->tree_type)
+	|| (type_is_ptr(lvalue->tree_type) && type_is_floating(e->rhs->tree_type)))
+	{
+		char buf[TYPE_STATIC_BUFSIZ];
+
+		fold_had_error = 1;
+		warn_at_print_error(&e->where,
+				"compound assignment %s between '%s' and '%s'",
+				op_to_str(e->bits.compoundop.op),
+				type_to_str_r(buf, lvalue->tree_type),
+				type_to_str(e->rhs->tree_type));
+
+		e->tree_type = type_unqualify(lvalue->tree_type);
+		return;
+	}
+
 	{
 		type *tlhs, *trhs, *resolved;
 		type *const tlvalue = lvalue->tree_type;
diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 9fdd1da..edbc535 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -1148,13 +1148,13 @@ static int op_shift_check(expr *e)
 	}
 }
 
-static int op_float_check(expr *e)
+int expr_op_float_check(expr *e, enum op_type op)
 {
 	type *tl = e->lhs->tree_type,
 	         *tr = e->rhs->tree_type;
 
 	if((type_is_floating(tl) || type_is_floating(tr))
-	&& !op_can_float(e->bits.op.op))
+	&& !op_can_float(op))
 	{
 		char buf[TYPE_STATIC_BUFSIZ];
 
@@ -1162,7 +1162,7 @@ static int op_float_check(expr *e)
 		fold_had_error = 1;
 		warn_at_print_error(&e->where,
 				"binary %s between '%s' and '%s'",
-				op_to_str(e->bits.op.op),
+				op_to_str(op),
 				type_to_str_r(buf, tl),
 				type_to_str(       tr));
 
@@ -1360,7 +1360,7 @@ void fold_expr_op(expr *e, symtable *stab)
 			return;
 		}
 
-		if(op_float_check(e)){
+		if(expr_op_float_check(e, e->bits.op.op)){
 			e->tree_type = type_nav_btype(cc1_type_nav, type_int);
 			return;
 		}
diff --git a/src/cc1/ops/expr_op.h b/src/cc1/ops/expr_op.h
index f8e2f78..20912e3 100644
--- a/src/cc1/ops/expr_op.h
+++ b/src/cc1/ops/expr_op.h
@@ -35,6 +35,9 @@ int fold_check_bounds(expr *e, int chk_one_past_end);
 void expr_check_sign(const char *desc,
 		expr *lhs, expr *rhs, where *w);
 
+/* returns 1 if an operand is floating, and op can't be applied to it */
+int expr_op_float_check(expr *e, enum op_type op);
+
 /* out_op(), checking for overflow if enabled */
 const out_val *gen_op_trapv(
 		type *evaltt, out_ctx *octx, enum op_type op,
-- 
2.43.0


From 876e1b87115d0f9fe5a7f4b49fa0284474b210c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 085/122] fix: a bit-field chosen by _Generic or
 __builtin_choose_expr is promoted as a bit-field

---
 src/cc1/expr.c                     | 23 ++++++++++++++++++++---
 src/cc1/expr.h                     |  1 +
 src/cc1/fold.c                     |  8 +++-----
 src/cc1/ops/__builtin.c            |  5 +++++
 src/cc1/ops/__builtin.h            |  3 +++
 src/cc1/ops/expr__Generic.c        |  7 +++++++
 src/cc1/ops/expr__Generic.h        |  3 +++
 src/cc1/ops/expr_assign_compound.c |  2 +-
 8 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/cc1/expr.c b/src/cc1/expr.c
index e4aefd3..495f17e 100644
--- a/src/cc1/expr.c
+++ b/src/cc1/expr.c
@@ -24,6 +24,8 @@
 #include "ops/expr_block.h"
 #include "ops/expr_compound_lit.h"
 #include "ops/expr_addr.h"
+#include "ops/expr__Generic.h"
+#include "ops/__builtin.h"
 
 void expr_mutate(expr *e, func_mutate_expr *f,
 		func_fold *f_fold,
@@ -171,11 +173,26 @@ enum lvalue_kind expr_is_lval_struct(const expr *e)
 	return LVALUE_STRUCT;
 }
 
+decl *expr_struct_bitfield(const expr *e)
+{
+	const expr *chosen;
+
+	/* _Generic() and __builtin_choose_expr() are the expression they choose */
+	while((chosen = expr_generic_chosen(e)) || (chosen = expr_choose_chosen(e)))
+		e = chosen;
+
+	if(expr_kind(e, struct)
+	&& e->bits.struct_mem.d /* may be null from a bad struct access */
+	&& decl_is_bitfield(e->bits.struct_mem.d))
+	{
+		return e->bits.struct_mem.d;
+	}
+	return NULL;
+}
+
 int expr_is_struct_bitfield(const expr *e)
 {
-	return expr_kind(e, struct)
-		&& e->bits.struct_mem.d /* may be null from a bad struct access */
-		&& decl_is_bitfield(e->bits.struct_mem.d);
+	return !!expr_struct_bitfield(e);
 }
 
 expr *expr_new_array_idx_e(expr *base, expr *idx)
diff --git a/src/cc1/expr.h b/src/cc1/expr.h
index 2726e1d..45cb19a 100644
--- a/src/cc1/expr.h
+++ b/src/cc1/expr.h
@@ -276,6 +276,7 @@ func_is_lval expr_is_lval_always;
 func_is_lval expr_is_lval_struct;
 
 func_bool expr_is_struct_bitfield; /* a->b where b is bitfield */
+decl *expr_struct_bitfield(const expr *);
 
 func_bool expr_has_sideeffects;
 func_bool expr_requires_relocation;
diff --git a/src/cc1/fold.c b/src/cc1/fold.c
index ceab376..45acb87 100644
--- a/src/cc1/fold.c
+++ b/src/cc1/fold.c
@@ -328,6 +328,7 @@ expr *fold_expr_lval2rval(expr *e, symtable *stab)
 
 	if(should_lval2rval || type_is(e->tree_type, type_func)){
 		struct_union_enum_st *enum_ty;
+		decl *bitfield;
 		expr *const orig_e = e;
 
 		e = expr_set_where(
@@ -337,11 +338,8 @@ expr *fold_expr_lval2rval(expr *e, symtable *stab)
 		fold_expr_cast_descend(e, stab, 0);
 
 		/* if we've just lval2rval'd a bitfield, we may need to promote it */
-		if(expr_kind(orig_e, struct)
-		&& orig_e->bits.struct_mem.d
-		&& orig_e->bits.struct_mem.d->bits.var.field_width)
-		{
-			type *prom = fold_bitfield_promotion(orig_e->bits.struct_mem.d, &orig_e->where);
+		if((bitfield = expr_struct_bitfield(orig_e))){
+			type *prom = fold_bitfield_promotion(bitfield, &orig_e->where);
 
 			if(prom)
 				fold_insert_casts(prom, &e, stab);
diff --git a/src/cc1/ops/__builtin.c b/src/cc1/ops/__builtin.c
index 0256fac..6f26648 100644
--- a/src/cc1/ops/__builtin.c
+++ b/src/cc1/ops/__builtin.c
@@ -723,6 +723,11 @@ static enum lvalue_kind is_lval_choose(const expr *e)
 	return expr_is_lval(CHOOSE_EXPR_CHOSEN(e));
 }
 
+expr *expr_choose_chosen(const expr *e)
+{
+	return e->f_islval == is_lval_choose ? CHOOSE_EXPR_CHOSEN(e) : NULL;
+}
+
 static void fold_choose_expr(expr *e, symtable *stab)
 {
 	consty k;
diff --git a/src/cc1/ops/__builtin.h b/src/cc1/ops/__builtin.h
index b671f16..1cf69fa 100644
--- a/src/cc1/ops/__builtin.h
+++ b/src/cc1/ops/__builtin.h
@@ -8,6 +8,9 @@
 expr *builtin_new_reg_save_area(void);
 expr *builtin_new_frame_address(int depth);
 
+/* null if not a __builtin_choose_expr() */
+expr *expr_choose_chosen(const expr *);
+
 expr *builtin_parse(const char *sp, symtable *scope);
 expr *parse_any_args(symtable *scope);
 
diff --git a/src/cc1/ops/expr__Generic.c b/src/cc1/ops/expr__Generic.c
index 29c0394..35a9a9c 100644
--- a/src/cc1/ops/expr__Generic.c
+++ b/src/cc1/ops/expr__Generic.c
@@ -15,6 +15,13 @@ static enum lvalue_kind is_lval_generic(const expr *e)
 	return expr_is_lval(e->bits.generic.chosen->e);
 }
 
+expr *expr_generic_chosen(const expr *e)
+{
+	return expr_kind(e, _Generic) && e->bits.generic.chosen
+		? e->bits.generic.chosen->e
+		: NULL;
+}
+
 void fold_expr__Generic(expr *e, symtable *stab)
 {
 	struct generic_lbl **i, *def;
diff --git a/src/cc1/ops/expr__Generic.h b/src/cc1/ops/expr__Generic.h
index ab71094..2299ab7 100644
--- a/src/cc1/ops/expr__Generic.h
+++ b/src/cc1/ops/expr__Generic.h
@@ -1,3 +1,6 @@
 EXPR_DEFS(_Generic);
 
+/* null if not a _Generic */
+expr *expr_generic_chosen(const expr *);
+
 expr *expr_new__Generic(expr *test, struct generic_lbl **lbls);
diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 78e8caa..dfa4f7a 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -77,7 +77,7 @@ void fold_expr_assign_compound(expr *e, symtable *stab)
 		/* a bitfield's value takes part as its promoted type */
 		if(expr_is_struct_bitfield(lvalue)){
 			bf_promoted = fold_bitfield_promotion(
-					lvalue->bits.struct_mem.d, &lvalue->where);
+					expr_struct_bitfield(lvalue), &lvalue->where);
 			if(bf_promoted)
 				lvalue->tree_type = bf_promoted;
 		}
-- 
2.43.0


From 6952fc25e076c003797338f4791799467c27e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 086/122] fix: a struct assignment used as a value evaluated
 its left operand twice

---
 src/cc1/ops/expr_assign.c | 12 +++++++-----
 src/cc1/out/mem.c         |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cc1/ops/expr_assign.c b/src/cc1/ops/expr_assign.c
index dffb2b1..43a1cef 100644
--- a/src/cc1/ops/expr_assign.c
+++ b/src/cc1/ops/expr_assign.c
@@ -87,11 +87,13 @@ void expr_assign_const_check(expr *e, where *w)
 
 static const out_val *lea_assign_lhs(const expr *e, out_ctx *octx)
 {
-	/* generate our assignment (e->expr), then lea
-	 * our lhs, i.e. the struct identifier
-	 * we're assigning to */
-	out_val_consume(octx, gen_expr(e->expr, octx));
-	return gen_expr(e->lhs, octx);
+	/* generate our assignment (e->expr), which gives us
+	 * the address of the struct we're assigning to
+	 * (generating our lhs again would repeat its side effects) */
+	return out_change_type(
+			octx,
+			gen_expr(e->expr, octx),
+			type_ptr_to(e->lhs->tree_type));
 }
 
 void fold_expr_assign(expr *e, symtable *stab)
diff --git a/src/cc1/out/mem.c b/src/cc1/out/mem.c
index ad15e8e..9b3ea98 100644
--- a/src/cc1/out/mem.c
+++ b/src/cc1/out/mem.c
@@ -113,7 +113,8 @@ const out_val *out_memcpy(
 		out_val_release(octx, src);
 		return out_op(
 				octx, op_minus,
-				dest, out_new_l(octx, dest->t, nbytes));
+				out_change_type(octx, dest, type_nav_voidptr(cc1_type_nav)),
+				out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), nbytes));
 	}
 }
 
-- 
2.43.0


From 33b60d5246edf1a9a228c871bcc523463e52c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 087/122] fix: the value of a compound assignment to a _Bool
 was a clobbered flag

---
 src/cc1/ops/expr_assign_compound.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index dfa4f7a..71526cc 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -167,8 +167,11 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 		return saved_post;
 	}
 
-	if(expr_is_struct_bitfield(e->lhs)){
-		/* re-read from the store - the value is truncated to the bitfield */
+	if(expr_is_struct_bitfield(e->lhs)
+	|| type_is_primitive(e->tree_type, type__Bool))
+	{
+		/* re-read from the store - the value is truncated to the bitfield,
+		 * or may be a flag, which storing it has clobbered */
 		out_val_retain(octx, addr_lhs);
 		out_store(octx, addr_lhs, result);
 		return out_deref(octx, addr_lhs);
-- 
2.43.0


From 0944da61632570046c13933c566955d236f18540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 088/122] fix: a discarded volatile scalar was dereferenced
 after being read

---
 src/cc1/ops/stmt_expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/stmt_expr.c b/src/cc1/ops/stmt_expr.c
index 67b92d5..fa666f0 100644
--- a/src/cc1/ops/stmt_expr.c
+++ b/src/cc1/ops/stmt_expr.c
@@ -63,11 +63,12 @@ void gen_stmt_expr(const stmt *s, out_ctx *octx)
 	const int is_volatile = type_qual(s->expr->tree_type) & qual_volatile
 		|| (lvalue && type_qual(lvalue->tree_type) & qual_volatile);
 
-	if(is_volatile){
+	if(is_volatile && type_is_s_or_u(s->expr->tree_type)){
 		assert(lvalue && "only lvalues can be the source of volatile");
 
 		out_force_read(octx, s->expr->tree_type, v);
 	}else{
+		/* a volatile scalar has been read by its decay */
 		out_val_consume(octx, v);
 	}
 }
-- 
2.43.0


From b3e9f2b669bf69564d3b64a29a97615138cb62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 089/122] fix: an unused expression may name an inlined
 argument

---
 src/cc1/out/new.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cc1/out/new.c b/src/cc1/out/new.c
index 321002e..cd7aca6 100644
--- a/src/cc1/out/new.c
+++ b/src/cc1/out/new.c
@@ -192,6 +192,14 @@ label:
 		case sym_arg:
 		{
 			const out_val *v = sym_outval(sym);
+
+			/* an inlined argument which is only read has no lvalue,
+			 * nor is one needed: this is an unused expression */
+			if(!v && (v = sym_inline_val(octx, sym))){
+				out_val_release(octx, v);
+				return out_new_noop(octx);
+			}
+
 			assert(v && "no value for argument");
 			octx->used_stack = 1;
 			return out_val_retain(octx, v);
-- 
2.43.0


From ee53fa74b91b4da00c82e7fe8715f50970af594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 090/122] fix: a value read from a bit-field was itself taken
 for a pointer to one

---
 src/cc1/out/out.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc1/out/out.c b/src/cc1/out/out.c
index c53a4c2..11b242c 100644
--- a/src/cc1/out/out.c
+++ b/src/cc1/out/out.c
@@ -265,6 +265,9 @@ const out_val *out_deref(out_ctx *octx, const out_val *target)
 
 	dval = impl_deref(octx, target, reg, &done_out_deref);
 
+	/* the value may reuse the pointer, but isn't a pointer to a bitfield */
+	memset(&((out_val *)dval)->bitfield, 0, sizeof dval->bitfield);
+
 	if(bf.nbits && !done_out_deref)
 		dval = out_bitfield_to_scalar(octx, &bf, dval);
 
-- 
2.43.0


From f279cae5882d1730d9691772932eced0938f2758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 091/122] fix: spilling a pointer to a bit-field forgot the
 bit-field

---
 src/cc1/out/virt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc1/out/virt.c b/src/cc1/out/virt.c
index ff8a767..1457842 100644
--- a/src/cc1/out/virt.c
+++ b/src/cc1/out/virt.c
@@ -124,6 +124,9 @@ static ucc_wur const out_val *v_spill_reg(
 		const out_val *spilt = v_to_stack_mem(
 				octx, v_reg, stack_pos, V_SPILT);
 
+		/* the spilt pointer may be to a bitfield */
+		((out_val *)spilt)->bitfield = v_reg->bitfield;
+
 		out_val_overwrite((out_val *)v_reg, spilt);
 
 		out_val_release(octx, spilt);
-- 
2.43.0


From 5bb1e566bd6481db313057f259cc56309ffba02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 092/122] fix: a floating constant in another register wasn't
 moved to the merged one

---
 src/cc1/out/x86_64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 452eeb0..96d9fb9 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1273,9 +1273,9 @@ lea:
 		}
 
 		case V_CONST_F:
-			from = x86_load_fp(octx, from);
-			if(from->type != V_REG)
-				from = impl_load(octx, from, reg);
+			/* this may already be in a register, but not necessarily in `reg' */
+			from = impl_load(octx, x86_load_fp(octx, from), reg);
+			break;
 	}
 
 	return v_new_reg(octx, from, from->t, reg);
-- 
2.43.0


From 4645c90eae1387ee574daf90bc65b432b1499576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:14 +0000
Subject: [PATCH 093/122] fix: unary operators on a spilt value used its
 address's type

---
 src/cc1/out/x86_64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 96d9fb9..84ed7e1 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1940,6 +1940,11 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 {
 	const char *opc;
 
+	if(val->type == V_SPILT){
+		/* reload - we need its real type */
+		val = v_to_reg(octx, val);
+	}
+
 	switch(op){
 		default:
 			ICE("invalid unary op %s", op_to_str(op));
-- 
2.43.0


From 65464d7b590b1f6b6c3d247a890f5d4480785dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:15 +0000
Subject: [PATCH 094/122] fix: the value of a call returning a struct in memory
 is its address

---
 src/cc1/out/x86_64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 84ed7e1..ccf0b9c 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2763,7 +2763,10 @@ const out_val *impl_call(
 		const int fp = type_is_floating(retty);
 		struct vreg rr = VREG_INIT(fp ? REG_RET_F_1 : REG_RET_I_1, fp);
 
-		return v_new_reg(octx, fn, retty, &rr);
+		/* stret_memcpy: as for stret_regs, we're the struct's address */
+		return v_new_reg(octx, fn,
+				stret_kind == stret_memcpy ? type_ptr_to(retty) : retty,
+				&rr);
 	}else{
 		out_val_consume(octx, fn);
 		return retval_stret;
-- 
2.43.0


From b85945877d95a1f1979736fa62634c2910f9ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:17 +0000
Subject: [PATCH 095/122] fix: an error from a warning during code generation
 was ignored

---
 src/cc1/cc1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/cc1.c b/src/cc1/cc1.c
index 270a99e..58f495a 100644
--- a/src/cc1/cc1.c
+++ b/src/cc1/cc1.c
@@ -836,7 +836,8 @@ dbg_unknown:
 		const char *producer = "ucc development version";
 
 		gen_backend(globs, in_fname, cc1_output.file, producer);
-		if(gen_had_error)
+		/* warnings from constant folding may be promoted to errors here too */
+		if(gen_had_error || fold_had_error)
 			failure = 1;
 	}
 
-- 
2.43.0


From 3c987ca96112ada32754eb64ac24a529104fa134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:17 +0000
Subject: [PATCH 096/122] fix: with -Wnull-zero-literal other type mismatches
 were attributed to it

---
 src/cc1/fold.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/fold.c b/src/cc1/fold.c
index 45acb87..809b05a 100644
--- a/src/cc1/fold.c
+++ b/src/cc1/fold.c
@@ -134,7 +134,8 @@ int fold_type_chk_warn(
 				skip_warn = 1;
 			}
 
-			if(cc1_warning.null_zero_literal){
+			/* only a null pointer constant is a null-zero-literal */
+			if(skip_warn && cc1_warning.null_zero_literal){
 				skip_warn = 0;
 				pwarn = &cc1_warning.null_zero_literal;
 			}
-- 
2.43.0


From 9816b8a1127c610efcdfc242d6177646834ee663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:17 +0000
Subject: [PATCH 097/122] fix: -Werror and a suppressed system header warning
 failed silently

---
 src/cc1/warn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/warn.c b/src/cc1/warn.c
index 2edb1a1..d6f3cf0 100644
--- a/src/cc1/warn.c
+++ b/src/cc1/warn.c
@@ -94,7 +94,6 @@ int cc1_warn_type(const struct where *where, const unsigned char *pwarn)
 		case W_OFF:
 			return -1;
 		case W_ERROR:
-			fold_had_error = parse_had_error = 1;
 			warn_type = VWARN_ERR;
 			break;
 		case W_NO_ERROR:
@@ -117,6 +116,9 @@ int cc1_warn_type(const struct where *where, const unsigned char *pwarn)
 		}
 	}
 
+	if(fatality == W_ERROR)
+		fold_had_error = parse_had_error = 1;
+
 	return warn_type;
 }
 
-- 
2.43.0


From 07392546bb2693447cdeb29bc2ef48d062c543ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:17 +0000
Subject: [PATCH 098/122] fix: -Wno-error= enabled warnings, and warning groups
 reset those outside them

---
 src/cc1/warn.c | 50 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/cc1/warn.c b/src/cc1/warn.c
index d6f3cf0..dac0969 100644
--- a/src/cc1/warn.c
+++ b/src/cc1/warn.c
@@ -184,7 +184,15 @@ void warning_pedantic(enum warning_fatality set)
 		set;
 }
 
-static void warning_all(enum warning_fatality set)
+static void warning_set_one(unsigned char *pwarn, enum warning_fatality to)
+{
+	/* -Wno-error=xyz doesn't turn xyz on */
+	if(to == W_NO_ERROR && *pwarn == W_OFF)
+		return;
+	*pwarn = to;
+}
+
+static void warning_all_exact(enum warning_fatality set)
 {
 	warnings_set(set);
 
@@ -226,10 +234,28 @@ static void warning_all(enum warning_fatality set)
 		W_OFF;
 }
 
+static void warning_merge(
+		const struct cc1_warning *previous, enum warning_fatality set)
+{
+	/* cc1_warning has those being set as W_WARN,
+	 * the others are left as they were */
+	unsigned char *pwarn = (unsigned char *)&cc1_warning;
+	const unsigned char *pprev = (const unsigned char *)previous;
+	size_t i;
+
+	for(i = 0; i < sizeof(cc1_warning); i++){
+		const int setting = pwarn[i];
+
+		pwarn[i] = pprev[i];
+		if(setting)
+			warning_set_one(&pwarn[i], set);
+	}
+}
+
 void warning_init(void)
 {
 	/* default to -Wall */
-	warning_all(W_WARN);
+	warning_all_exact(W_WARN);
 	warning_pedantic(W_OFF);
 
 	/* but with warnings about std compatability on too */
@@ -261,26 +287,32 @@ void warning_init(void)
 
 static void warning_special(enum warning_special special, enum warning_fatality fatality)
 {
+	const struct cc1_warning previous = cc1_warning;
+
+	warnings_set(W_OFF);
+
 	switch(special){
 		case W_EVERYTHING:
-			warnings_set(fatality);
+			warnings_set(W_WARN);
 			break;
 		case W_ALL:
-			warning_all(fatality);
+			warning_all_exact(W_WARN);
 			break;
 		case W_EXTRA:
-			warning_all(fatality);
+			warning_all_exact(W_WARN);
 			cc1_warning.implicit_int =
 			cc1_warning.cast_qual =
 			cc1_warning.init_missing_braces =
 			cc1_warning.init_missing_struct =
 			cc1_warning.unused_param =
-				fatality;
+				W_WARN;
 			break;
 		case W_GNU:
-			warning_gnu(fatality);
+			warning_gnu(W_WARN);
 			break;
 	}
+
+	warning_merge(&previous, fatality);
 }
 
 static void warning_unknown(const char *warg, dynmap *unknowns)
@@ -343,7 +375,7 @@ void warning_on(
 	found = 0;
 	for(p = warns; p->arg; p++){
 		if(!strcmp(warn, p->arg)){
-			*p->offset = to;
+			warning_set_one(p->offset, to);
 			found = 1;
 			/* keep going for more aliases */
 		}
@@ -356,7 +388,7 @@ void warning_on(
 			unsigned i;
 
 			for(i = 0; i < countof(p_group->offsets) && p_group->offsets[i]; i++)
-				*p_group->offsets[i] = to;
+				warning_set_one(p_group->offsets[i], to);
 			return;
 		}
 	}
-- 
2.43.0


From 3c4fcb6edd8ce84a8a44d3af0f188f58976c878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:17 +0000
Subject: [PATCH 099/122] fix: hang on a redeclaration with a visibility
 attribute

---
 src/cc1/parse_type.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/cc1/parse_type.c b/src/cc1/parse_type.c
index d4eb586..b148343 100644
--- a/src/cc1/parse_type.c
+++ b/src/cc1/parse_type.c
@@ -2071,21 +2071,11 @@ static void check_function_storage_redef(decl *new, decl *old)
 
 static void check_function_visibility_redef(decl *new, decl *old)
 {
-	/* decls are already linked */
-	decl *d = new;
+	/* decls are already linked, attribute_present() looks at all those before */
 	attribute *attr = attribute_present(new, attr_visibility);
-	attribute *old_attr = NULL;
+	attribute *old_attr = attribute_present(old, attr_visibility);
 
-	if(!attr)
-		return;
-
-	while((d = decl_proto(d))){
-		old_attr = attribute_present(old, attr_visibility);
-		if(old_attr)
-			break;
-	}
-
-	if(!old_attr)
+	if(!attr || !old_attr)
 		return;
 
 	if(!attribute_equal(attr, old_attr)){
-- 
2.43.0


From 64653a27f271286188f2a446d7f23cd007360cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:17 +0000
Subject: [PATCH 100/122] fix: a static function could not be redeclared in a
 block

---
 src/cc1/ops/stmt_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/stmt_code.c b/src/cc1/ops/stmt_code.c
index 190c68f..f547420 100644
--- a/src/cc1/ops/stmt_code.c
+++ b/src/cc1/ops/stmt_code.c
@@ -130,7 +130,7 @@ void fold_shadow_dup_check_block_decls(symtable *stab)
 
 			/* allow functions redefined as decls and vice versa */
 			if((both_func || both_extern)
-			&& !(decl_cmp(d, found, 0) & TYPE_EQUAL_ANY))
+			&& !(type_cmp(d->ref, found->ref, 0) & TYPE_EQUAL_ANY))
 			{
 				fold_had_error = 1;
 				warn_at_print_error(&d->where, "incompatible redefinition of \"%s\"", d->spel);
-- 
2.43.0


From 5603a593048d86fff9a16acfcdad4592e5149ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:17 +0000
Subject: [PATCH 101/122] fix: merging tentative array definitions lost or
 duplicated the definition

---
 src/cc1/fold.c | 54 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/cc1/fold.c b/src/cc1/fold.c
index 809b05a..bc4249b 100644
--- a/src/cc1/fold.c
+++ b/src/cc1/fold.c
@@ -1766,50 +1766,62 @@ void fold_merge_tenatives(symtable *stab)
 	decl **const globs = symtab_decls(stab);
 
 	int i;
-	/* go in reverse - check the last declared decl so we
-	 * can go up the proto-chain */
+	/* go in reverse - the last declared decl is the one we may default-initialise */
 	for(i = dynarray_count(globs) - 1; i >= 0; i--){
 		decl *d = globs[i];
-		decl *init = NULL;
+		decl *init = NULL, *tenative = NULL, *complete = NULL;
 
 		/* functions are checked in fold_sym,
 		 * where we compare local definitions too */
 		if(d->proto_flag || !d->spel || !!type_is(d->ref, type_func))
 			continue;
 
-		switch((enum decl_storage)(d->store & STORE_MASK_STORE)){
-			case store_typedef:
-			case store_extern:
-				continue;
-			default:
-				break;
-		}
+		if((d->store & STORE_MASK_STORE) == store_typedef)
+			continue;
 
 		/* check for a single init between all prototypes */
-		for(; d; d = d->proto){
+		for(d = decl_proto(d); d; d = d->impl){
+			const int is_complete_array =
+				type_is(d->ref, type_array) && type_is_complete(d->ref);
+
 			d->proto_flag = 1;
+
+			if(type_is(d->ref, type_func))
+				continue;
+
 			/* look for an explicit init */
-			if(!type_is(d->ref, type_func) && d->bits.var.init.dinit){
+			if(d->bits.var.init.dinit){
 				if(init){
-					warn_at_print_error(&init->where, "multiple definitions of \"%s\"", init->spel);
-					note_at(&d->where, "other definition here");
+					warn_at_print_error(&d->where, "multiple definitions of \"%s\"", d->spel);
+					note_at(&init->where, "other definition here");
 					fold_had_error = 1;
 				}
 				init = d;
-			}else if(!init /* no explicit init - complete array? */
-			&& type_is(d->ref, type_array)
-			&& type_is_complete(d->ref))
+			}
+
+			if(is_complete_array)
+				complete = d;
+
+			if((d->store & STORE_MASK_STORE) != store_extern
+			&& (!tenative || is_complete_array || !type_is_complete(tenative->ref)
+				|| !type_is(tenative->ref, type_array)))
 			{
-				init = d;
-				decl_default_init(d, stab);
+				tenative = d;
 			}
 		}
-		if(!init){
+
+		if(!init && tenative){
 			/* no initialiser, give the last declared one a default init */
-			d = globs[i];
+			d = tenative;
+
+			if(complete && type_is_incomplete_array(d->ref))
+				d->ref = complete->ref; /* composite type - C99 6.9.2p2 */
 
 			decl_default_init(d, stab);
 
+			if(complete)
+				continue;
+
 			if(type_is(d->ref, type_array)){
 				cc1_warn_at(&d->where,
 						tenative_array_1elem,
-- 
2.43.0


From e1fe23b35bcc9cafbc633c706617e781ddd6d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:17 +0000
Subject: [PATCH 102/122] fix: local declarations of a name broke the chain of
 its declarations

---
 src/cc1/decl.c       | 51 +++++++++++++++++---------------------------
 src/cc1/decl.h       |  2 +-
 src/cc1/parse_type.c | 18 +++++++++++++---
 3 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/cc1/decl.c b/src/cc1/decl.c
index aebfeb2..d1807ec 100644
--- a/src/cc1/decl.c
+++ b/src/cc1/decl.c
@@ -293,7 +293,7 @@ decl *decl_impl(decl *const d, enum decl_impl_flags flags)
 		if(i->bits.func.code)
 			return i;
 
-	for(i = d; i; i = i->impl)
+	for(i = decl_proto(d); i; i = i->impl)
 		if(i->bits.func.code)
 			return i;
 
@@ -317,7 +317,7 @@ decl *decl_with_init(decl *const d, enum decl_impl_flags flags)
 		if(i->bits.var.init.dinit)
 			return i;
 
-	for(i = d; i; i = i->impl)
+	for(i = decl_proto(d); i; i = i->impl)
 		if(i->bits.var.init.dinit)
 			return i;
 
@@ -341,22 +341,16 @@ int decl_is_pure_inline(decl *const d)
 	 * "extern" mentioned, or "inline" not mentioned = code emitted, decl is extern
 	 *
 	 * look for non-inline store on any prototypes
+	 * (of the same scope as the first, i.e. file scope - C99 6.7.4p6)
 	 */
 	decl *i;
 
-#define CHECK_INLINE(i)                                      \
-		if(!(i->store & store_inline))                           \
-			return 0; /* not marked as inline - not pure inline */ \
-                                                             \
-		if((i->store & STORE_MASK_STORE) != store_default)       \
-			return 0; /* static or extern */
-
-	for(i = d; i; i = i->proto){
-		CHECK_INLINE(i);
-	}
+	for(i = decl_proto(d); i; i = i->impl){
+		if(!(i->store & store_inline))
+			return 0; /* not marked as inline - not pure inline */
 
-	for(i = d; i; i = i->impl){
-		CHECK_INLINE(i);
+		if((i->store & STORE_MASK_STORE) != store_default)
+			return 0; /* static or extern */
 	}
 
 	return 1;
@@ -379,30 +373,25 @@ int decl_should_emit_var(decl *d)
 	return !decl_unused_and_internal(d);
 }
 
+void decl_use(decl *d)
+{
+	d->flags |= DECL_FLAGS_USED;
+
+	/* a local declaration isn't in the impl-chain of what it refers to */
+	decl_proto(d)->flags |= DECL_FLAGS_USED;
+}
+
 int decl_unused_and_internal(decl *d)
 {
 	/* need to check every clone of the decl */
 	decl *i;
-	int used = 0;
-
-	if(attribute_present(d, attr_used))
-		return 0;
 
-	for(i = d; i; i = i->proto){
-		if(i->flags & DECL_FLAGS_USED){
-			used = 1;
-			goto fin;
-		}
-	}
-	for(i = d; i; i = i->impl){
-		if(i->flags & DECL_FLAGS_USED){
-			used = 1;
-			goto fin;
-		}
+	for(i = decl_proto(d); i; i = i->impl){
+		if(i->flags & DECL_FLAGS_USED || attribute_present(i, attr_used))
+			return 0;
 	}
 
-fin:
-	return !used && decl_linkage(d) != linkage_external;
+	return decl_linkage(d) != linkage_external;
 }
 
 int decl_is_bitfield(decl *d)
diff --git a/src/cc1/decl.h b/src/cc1/decl.h
index c781677..eb9149a 100644
--- a/src/cc1/decl.h
+++ b/src/cc1/decl.h
@@ -165,7 +165,7 @@ const char *decl_store_spel_type_to_str_r(
 		const char *spel,
 		type *ty);
 
-#define decl_use(d) ((d)->flags |= DECL_FLAGS_USED)
+void decl_use(decl *);
 
 /* compound-literals and block-expressions force
  * their dependants to be generated, even if we don't
diff --git a/src/cc1/parse_type.c b/src/cc1/parse_type.c
index b148343..c112d12 100644
--- a/src/cc1/parse_type.c
+++ b/src/cc1/parse_type.c
@@ -2453,7 +2453,11 @@ static void link_to_previous_decl(
 		*found_prev_proto = 1;
 
 		d->proto = d_prev;
-		d_prev->impl = d; /* for inlining */
+
+		/* only declarations of the same scope continue the chain,
+		 * those in an inner scope just refer to it */
+		if(prev_in == in_scope && are_functions != 1)
+			d_prev->impl = d; /* for inlining */
 
 		switch(are_functions){
 			case 2:
@@ -2471,8 +2475,16 @@ static void link_to_previous_decl(
 			case 0:
 				/* variable - may or may not be related */
 				if(prev_in != in_scope){
-					/* unrelated */
-					d->proto = NULL;
+					const enum decl_storage prev_store = d_prev->store & STORE_MASK_STORE;
+
+					/* unrelated, unless a local extern declaration
+					 * of something which has linkage - C99 6.2.2p4 */
+					if((d->store & STORE_MASK_STORE) != store_extern
+					|| prev_store == store_typedef
+					|| (prev_in->parent && prev_store != store_extern))
+					{
+						d->proto = NULL;
+					}
 				}else{
 					check_var_storage_redef(d, d_prev);
 				}
-- 
2.43.0


From 6a8a75f01036eab360942de6335c81f4194973b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:22 +0000
Subject: [PATCH 103/122] fix: the printf check re-scanned the second % of %%,
 and looked past the end of an offset string

---
 src/cc1/format_chk.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cc1/format_chk.c b/src/cc1/format_chk.c
index 4c2c59f..197b3c3 100644
--- a/src/cc1/format_chk.c
+++ b/src/cc1/format_chk.c
@@ -361,6 +361,7 @@ static void format_check_printf_str(
 
 		if(var_idx == -1){
 			/* we don't have any arguments to check, done all we can do */
+			i++;
 			continue;
 		}
 
@@ -389,7 +390,10 @@ static void format_check_printf_str(
 				&strloc,
 				&current_arg,
 				parsed.expected_type,
+				parsed.alt_expected_type,
 				"argument");
+
+		i++; /* the conversion character, which may itself be a '%' */
 	}
 
 	if(i > len)
@@ -447,13 +451,11 @@ not_string:
 		const char *fmt = fmt_str->cstr->bits.ascii;
 		const size_t len = fmt_str->cstr->count - 1;
 
-		if(len == 0)
-			;
-		else if(k.offset < 0 || (size_t)k.offset >= len)
+		if(k.offset < 0 || (size_t)k.offset > len)
 			cc1_warn_at(&str_arg->where, attr_printf_bad,
 					"undefined printf-format argument");
 		else
-			format_check_printf_str(args, fmt + k.offset, len,
+			format_check_printf_str(args, fmt + k.offset, len - k.offset,
 					var_idx, &str_arg->where);
 	}
 }
-- 
2.43.0


From 21eef6bf964e68f1fc3cb8840e5ca2dec1ba9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:22 +0000
Subject: [PATCH 104/122] fix: the printf check rejected const strings for %s,
 an int for %c, and size_t for %zu

---
 src/cc1/format_chk.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/cc1/format_chk.c b/src/cc1/format_chk.c
index 197b3c3..abd122f 100644
--- a/src/cc1/format_chk.c
+++ b/src/cc1/format_chk.c
@@ -28,6 +28,7 @@
 struct format_arg
 {
 	type *expected_type; /* NULL for "%%", "%m" */
+	type *alt_expected_type; /* e.g. size_t may be long or long long */
 	int expected_field_width;
 	int expected_precision;
 };
@@ -38,11 +39,13 @@ static void format_check_printf_arg_type(
 		const char *desc,
 		expr *e,
 		type *const t_expected,
+		type *const t_alt,
 		where *loc_str)
 {
 	unsigned char *const default_warningp = &cc1_warning.attr_printf_bad;
 	unsigned char *warningp = default_warningp;
 	type *t_arg;
+	enum type_cmp cmp;
 
 	if(type_is_promotable(t_expected, NULL))
 		e = expr_skip_implicit_casts(e);
@@ -62,7 +65,15 @@ static void format_check_printf_arg_type(
 		}
 	}
 
-	if(!(type_cmp(t_arg, t_expected, 0) & TYPE_EQUAL_ANY)){
+	cmp = type_cmp(t_expected, t_arg, 0);
+	if(t_alt && type_cmp(t_alt, t_arg, 0) & TYPE_EQUAL_ANY)
+		return;
+
+	if(!(cmp & TYPE_EQUAL_ANY)
+	/* the pointed-to object's qualifiers don't matter, e.g. "%s" and a const char * */
+	&& cmp != TYPE_QUAL_POINTED_ADD
+	&& cmp != TYPE_QUAL_POINTED_SUB)
+	{
 		char buf1[TYPE_STATIC_BUFSIZ];
 		char buf2[TYPE_STATIC_BUFSIZ];
 
@@ -216,8 +227,16 @@ static const char *parse_format_arg(const char *fmt, size_t *const i, size_t con
 			}
 
 			out->expected_type = type_nav_btype(cc1_type_nav, btype);
-			if(fmt[*i] == 'n')
+			if(lengthmod == length_j || lengthmod == length_z || lengthmod == length_t){
+				out->alt_expected_type = type_nav_btype(
+						cc1_type_nav,
+						btype == type_llong ? type_long : type_ulong);
+			}
+			if(fmt[*i] == 'n'){
 				out->expected_type = type_ptr_to(out->expected_type);
+				if(out->alt_expected_type)
+					out->alt_expected_type = type_ptr_to(out->alt_expected_type);
+			}
 			break;
 
 		case 'e':
@@ -248,7 +267,8 @@ static const char *parse_format_arg(const char *fmt, size_t *const i, size_t con
 		case 's':
 			switch(lengthmod){
 				case length_none:
-					btype = type_nchar;
+					/* %c takes an int, as any char is promoted */
+					btype = fmt[*i] == 'c' ? type_int : type_nchar;
 					break;
 
 				case length_l:
@@ -294,6 +314,7 @@ static void format_check_printf_arg(
 		where *strloc,
 		expr ***current_arg,
 		type *expected_type,
+		type *alt_expected_type,
 		const char *desc)
 {
 	expr *e = **current_arg;
@@ -312,7 +333,7 @@ static void format_check_printf_arg(
 
 	format_check_printf_arg_type(
 			fmtbegin, fmtlen, desc,
-			e, expected_type, strloc);
+			e, expected_type, alt_expected_type, strloc);
 
 	++*current_arg;
 }
@@ -372,6 +393,7 @@ static void format_check_printf_str(
 					&strloc,
 					&current_arg,
 					type_nav_btype(cc1_type_nav, type_int),
+					NULL,
 					"field width");
 		}
 		if(parsed.expected_precision){
@@ -381,6 +403,7 @@ static void format_check_printf_str(
 					&strloc,
 					&current_arg,
 					type_nav_btype(cc1_type_nav, type_int),
+					NULL,
 					"precision");
 		}
 
-- 
2.43.0


From 4595991cf399fd7232ace8390a0f5b1bb0113cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:40 +0000
Subject: [PATCH 105/122] fix: folded pointer differences were divided
 unsigned, and folded comparisons ignored offsets

---
 src/cc1/ops/expr_op.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index edbc535..8c15e69 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -405,7 +405,7 @@ static void const_op_num_int(
 					if(l.is_weak || r.is_weak){
 						CONST_FOLD_NO(k, e);
 					}else{
-						int same = !strcmp(l.lbl, r.lbl);
+						int same = !strcmp(l.lbl, r.lbl) && l.offset == r.offset;
 						k->type = CONST_NUM;
 
 						k->bits.num.val.i = ((e->bits.op.op == op_eq) == same);
@@ -419,7 +419,9 @@ static void const_op_num_int(
 						assert(tnext);
 
 						k->type = CONST_NUM;
-						k->bits.num.val.i = (l.offset - r.offset) / type_size(tnext, NULL);
+						k->bits.num.val.i =
+							(sintegral_t)(l.offset - r.offset)
+							/ (sintegral_t)type_size(tnext, NULL);
 						k->nonstandard_const = e;
 					}
 					break;
-- 
2.43.0


From fcc5a7a6f4fab5dbb0cfc75657535c2f6bba1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:40 +0000
Subject: [PATCH 106/122] fix: arithmetic with the address of a local used the
 contents of the local

---
 src/cc1/out/x86_64.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index ccf0b9c..09e318d 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1296,10 +1296,11 @@ static const out_val *x86_check_ivfp(out_ctx *octx, const out_val *from)
 	return from;
 }
 
-static const out_val *x86_check_lbl(out_ctx *octx, const out_val *from)
+static const out_val *x86_check_addr(out_ctx *octx, const out_val *from)
 {
-	/* as an operand, a label would be dereferenced - we want its address */
-	if(from->type == V_LBL && !type_is_floating(from->t))
+	/* as an operand, a label or a stack address would be dereferenced
+	 * - we want the address itself */
+	if((from->type == V_LBL || from->type == V_REGOFF) && !type_is_floating(from->t))
 		from = v_to_reg(octx, from);
 	return from;
 }
@@ -1581,8 +1582,8 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 
 	l = x86_check_ivfp(octx, l);
 	r = x86_check_ivfp(octx, r);
-	l = x86_check_lbl(octx, l);
-	r = x86_check_lbl(octx, r);
+	l = x86_check_addr(octx, l);
+	r = x86_check_addr(octx, r);
 
 	if(type_is_floating(v_get_type(l))){
 		if(op_is_comparison(op)){
@@ -1979,7 +1980,7 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 					val, out_new_zero(octx, val->t));
 	}
 
-	val = x86_check_lbl(octx, val);
+	val = x86_check_addr(octx, val);
 	val = v_to(octx, val, TO_REG | TO_MEM);
 
 	out_asm(octx, "%s%s %s", opc,
-- 
2.43.0


From 4f3a80fa714e881106d29e7357f795cb3ee78462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:14 +0000
Subject: [PATCH 107/122] fix: arrays and functions were not decayed as the
 value of a statement expression

---
 src/cc1/ops/expr_stmt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_stmt.c b/src/cc1/ops/expr_stmt.c
index 79a7fb0..ff327ee 100644
--- a/src/cc1/ops/expr_stmt.c
+++ b/src/cc1/ops/expr_stmt.c
@@ -40,7 +40,11 @@ void fold_expr_stmt(expr *e, symtable *stab)
 	fold_stmt(e->code); /* symtab should've been set by parse */
 
 	if(last_stmt && stmt_kind(last_stmt, expr)){
-		expr *last_expr = last_stmt->expr;
+		expr *last_expr;
+
+		/* its value is an rvalue */
+		last_stmt->expr = fold_expr_nonstructdecay(last_stmt->expr, last_stmt->symtab);
+		last_expr = last_stmt->expr;
 
 		e->tree_type = last_expr->tree_type;
 		if(fold_check_expr(e,
-- 
2.43.0


From 5261bad8344c798ec16b47a1e4517c7b1efe2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:15 +0000
Subject: [PATCH 108/122] fix: ?: ignored that pointers to arrays of known and
 unknown bound are compatible

---
 src/cc1/ops/expr_if.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index cf40467..89bc2ed 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -97,6 +97,20 @@ static type *pointer_to_qualified(type *base, type *lhs, type *rhs)
 	return type_ptr_to(type_qualify(base, qlhs | qrhs));
 }
 
+static int has_unknown_bound(type *t)
+{
+	while(type_is_ptr(t) || type_is(t, type_array)){
+		type *const array = type_is(t, type_array);
+
+		if(array && !array->bits.array.size && !array->bits.array.vla_kind)
+			return 1;
+
+		t = type_next(t);
+	}
+
+	return 0;
+}
+
 static void try_pointer_propagate(
 		expr *e, enum type_cmp cmp,
 		type *const tt_l, type *const tt_r)
@@ -114,7 +128,10 @@ static void try_pointer_propagate(
 				| TYPE_QUAL_POINTED_SUB;
 
 		if(cmp & allowed){
-			e->tree_type = pointer_to_qualified(type_next(tt_l), tt_l, tt_r);
+			/* the composite type has the bound of either array */
+			type *const next = type_next(has_unknown_bound(tt_l) ? tt_r : tt_l);
+
+			e->tree_type = pointer_to_qualified(next, tt_l, tt_r);
 		}
 	}
 
@@ -262,7 +279,7 @@ void fold_expr_if(expr *e, symtable *stab)
 		e->tree_type = type_nav_btype(cc1_type_nav, type_void);
 
 	}else{
-		const enum type_cmp cmp = type_cmp(tt_l, tt_r, 0);
+		const enum type_cmp cmp = type_cmp(tt_l, tt_r, TYPE_CMP_ALLOW_TENATIVE_ARRAY);
 
 		if((cmp & (TYPE_EQUAL_ANY | TYPE_QUAL_ADD | TYPE_QUAL_SUB))
 		&& type_is_s_or_u(tt_l))
-- 
2.43.0


From b88afca645ea690dbe29a9de039e05e680c78765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:35 +0000
Subject: [PATCH 109/122] fix: a float cast to void as the value of a statement
 expression crashed the compiler

---
 src/cc1/ops/expr_cast.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index 399fc12..edecadf 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -605,7 +605,8 @@ const out_val *gen_expr_cast(const expr *e, out_ctx *octx)
 	/* return if cast-to-void */
 	if(cast_to_void && !is_volatile){
 		out_comment(octx, "(non-volatile) cast to void");
-		return out_change_type(octx, gen_expr(expr_cast_child(e), octx), tto);
+		out_val_consume(octx, gen_expr(expr_cast_child(e), octx));
+		return out_new_noop(octx);
 	}
 
 	if(expr_cast_is_lval2rval(e) && !is_volatile){
-- 
2.43.0


From cefaaf39879cec9a70d7efbe3a61ac7b17faaed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:35 +0000
Subject: [PATCH 110/122] fix: modifying a dereferenced function crashed the
 compiler

---
 src/cc1/ops/expr_assign.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc1/ops/expr_assign.c b/src/cc1/ops/expr_assign.c
index 43a1cef..c41f4b4 100644
--- a/src/cc1/ops/expr_assign.c
+++ b/src/cc1/ops/expr_assign.c
@@ -59,11 +59,13 @@ int expr_must_lvalue(expr *e, const char *desc)
 {
 	int lval = (expr_is_lval(e) == LVALUE_USER_ASSIGNABLE);
 
-	if(!lval || type_is_array(e->tree_type)){
+	if(!lval || type_is_array(e->tree_type) || type_is(e->tree_type, type_func)){
 		fold_had_error = 1;
 		warn_at_print_error(&e->where, "%s to %s - %s",
 				desc, type_to_str(e->tree_type),
-				lval ? "arrays not assignable" : "not an lvalue");
+				!lval ? "not an lvalue"
+				: type_is_array(e->tree_type) ? "arrays not assignable"
+				: "functions not assignable");
 
 		return 0;
 	}
-- 
2.43.0


From 57fd13d6b6f55ff4a43d5799cdc821c6df825d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:11 +0000
Subject: [PATCH 111/122] fix: a redeclaration in the same block, after a
 statement, was accepted

---
 src/cc1/fold_sym.c | 50 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/cc1/fold_sym.c b/src/cc1/fold_sym.c
index f78e437..e3c40b6 100644
--- a/src/cc1/fold_sym.c
+++ b/src/cc1/fold_sym.c
@@ -230,6 +230,7 @@ struct ident_loc
 {
 	where *w;
 	int has_decl;
+	int outer; /* from an enclosing symtable of the same scope */
 	union
 	{
 		decl *decl;
@@ -296,11 +297,30 @@ static void warn_c11_retypedef(decl *a, decl *b)
 	}
 }
 
+static symtable *symtab_same_scope_parent(symtable *tab)
+{
+	/* declarations before a statement in this block are in the same scope */
+	if(tab->internal_nest)
+		return tab->parent;
+
+	/* bring args into scope if the parent symtable is an argument symtable
+	 * and we are the the first symtable of a function.
+	 * the second condition is necessary to prevent importing arguments for:
+	 * int f(int a, void cb(int a))
+	 *                      ^ don't want to import the parent 'a' here
+	 */
+	if(tab->parent && tab->parent->are_params && tab->parent->in_func && !tab->are_params)
+		return tab->parent;
+
+	return NULL;
+}
+
 void symtab_fold_decls(symtable *tab)
 {
 #define IS_LOCAL_SCOPE !!(tab->parent)
 	decl **diter;
 
+	symtable *scope;
 	struct ident_loc *all_idents = NULL;
 	size_t nidents = 0;
 #define NEW_IDENT(pw) do{                      \
@@ -308,6 +328,7 @@ void symtab_fold_decls(symtable *tab)
 		      all_idents,                          \
 		      (nidents + 1) * sizeof *all_idents); \
 		  all_idents[nidents].w = pw;              \
+		  all_idents[nidents].outer = scope != tab; \
 		  nidents++;                               \
 		}while(0)
 
@@ -326,6 +347,7 @@ void symtab_fold_decls(symtable *tab)
 		return;
 	tab->folded = 1;
 
+	scope = tab;
 	for(diter = symtab_decls(tab); diter && *diter; diter++){
 		decl *d = *diter;
 
@@ -384,10 +406,16 @@ void symtab_fold_decls(symtable *tab)
 		}
 	}
 
-	/* add enums */
-	{
+	for(scope = tab; scope; scope = symtab_same_scope_parent(scope)){
 		struct_union_enum_st **ei;
-		for(ei = tab->sues; ei && *ei; ei++){
+
+		if(scope != tab)
+			for(diter = symtab_decls(scope); diter && *diter; diter++)
+				if((*diter)->spel)
+					NEW_DECL(*diter);
+
+		/* add enums */
+		for(ei = scope->sues; ei && *ei; ei++){
 			struct_union_enum_st *e = *ei;
 
 			if(e->primitive == type_enum){
@@ -404,16 +432,6 @@ void symtab_fold_decls(symtable *tab)
 		}
 	}
 
-	/* bring args into scope if the parent symtable is an argument symtable
-	 * and we are the the first symtable of a function.
-	 * the second condition is necessary to prevent importing arguments for:
-	 * int f(int a, void cb(int a))
-	 *                      ^ don't want to import the parent 'a' here
-	 */
-	if(tab->parent && tab->parent->are_params && tab->parent->in_func)
-		for(diter = symtab_decls(tab->parent); diter && *diter; diter++)
-			NEW_DECL(*diter);
-
 	if(nidents > 1){
 		/* check_clashes */
 		size_t i;
@@ -431,7 +449,8 @@ void symtab_fold_decls(symtable *tab)
 			 * and multiple declarations at global scope,
 			 * but not definitions
 			 */
-			if(!strcmp_or_null(IDENT_LOC_SPEL(a), IDENT_LOC_SPEL(b))){
+			if(!(a->outer && b->outer)
+			&& !strcmp_or_null(IDENT_LOC_SPEL(a), IDENT_LOC_SPEL(b))){
 				switch(a->has_decl + b->has_decl){
 					case 0:
 						/* both enum-membs, mismatch */
@@ -519,7 +538,8 @@ void symtab_fold_decls(symtable *tab)
 			}
 
 			if(clash){
-				if(IDENT_LOC_IS_IMPLICIT(b) && !IDENT_LOC_IS_IMPLICIT(a)){
+				if((tab->internal_nest && b->outer && !a->outer)
+				|| (IDENT_LOC_IS_IMPLICIT(b) && !IDENT_LOC_IS_IMPLICIT(a))){
 					struct ident_loc *tmp = a;
 					a = b;
 					b = tmp;
-- 
2.43.0


From 23d62a0b6b8769410341d53f58e41d5cfb6e0bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:11 +0000
Subject: [PATCH 112/122] fix: tags of the same block, before and after a
 statement, were in different scopes

---
 src/cc1/sue.c | 2 +-
 src/cc1/sym.c | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cc1/sue.c b/src/cc1/sue.c
index a922bea..47fa51c 100644
--- a/src/cc1/sue.c
+++ b/src/cc1/sue.c
@@ -165,7 +165,7 @@ struct_union_enum_st *sue_find_descend(
 		if(sue)
 			return sue;
 
-		if(descended && symtab_is_transparent(stab))
+		if(descended && !symtab_is_transparent(stab))
 			*descended = 1;
 	}
 
diff --git a/src/cc1/sym.c b/src/cc1/sym.c
index faa7763..4dbe062 100644
--- a/src/cc1/sym.c
+++ b/src/cc1/sym.c
@@ -278,10 +278,12 @@ unsigned sym_hash(const sym *sym)
 
 int symtab_is_transparent(symtable const *stab)
 {
-	/* symtable tables are the same if transparent
-	 * or parent symtable is a parameter one */
+	/* symtable tables are the same if transparent, if declarations after
+	 * a statement opened this one, or if parent symtable is a parameter
+	 * one (and this isn't the parameters of a parameter) */
 	return stab->transparent
-		|| (stab->parent && stab->parent->are_params);
+		|| stab->internal_nest
+		|| (stab->parent && stab->parent->are_params && !stab->are_params);
 }
 
 unsigned symtab_decl_bytes(
-- 
2.43.0


From 1d4589381ba6c0db78c67beda06f7eedc56e2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:12 +0000
Subject: [PATCH 113/122] fix: a declarator in parentheses wasn't accepted if
 its name was also a typedef's

---
 src/cc1/parse_type.c | 10 ++++++++--
 src/cc1/parse_type.h |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cc1/parse_type.c b/src/cc1/parse_type.c
index c112d12..0923cc7 100644
--- a/src/cc1/parse_type.c
+++ b/src/cc1/parse_type.c
@@ -974,7 +974,7 @@ static type *parse_btype(
 static decl *parse_arg_decl(symtable *scope)
 {
 	/* argument decls can default to int */
-	const enum decl_mode flags = DECL_CAN_DEFAULT | DECL_ALLOW_STORE;
+	const enum decl_mode flags = DECL_CAN_DEFAULT | DECL_ALLOW_STORE | DECL_IS_ARG;
 	enum decl_storage store = store_default;
 	decl *argdecl;
 	type *btype = parse_btype(
@@ -1212,8 +1212,14 @@ static type_parsed *parsed_type_nest(
 		 *      int (__attribute(()) f)() // int f()
 		 *
 		 * if we're parsing a decl, we reject __attribute as an argument spec
+		 *
+		 * an identifier is what's being declared, even if there's a typedef
+		 * by that name, except for arguments (C99 6.7.5.3p11):
+		 * T (T); - declares a variable, T
 		 */
-		if(parse_at_decl(scope, !dfor) || curtok == token_close_paren){
+		if(dfor && !(mode & DECL_IS_ARG) && curtok == token_identifier){
+			/* the declarator's name */
+		}else if(parse_at_decl(scope, !dfor) || curtok == token_close_paren){
 			/* int() or char(short) - func decl */
 			uneat(token_open_paren);
 			/* parse_...func will grab this as funcargs instead */
diff --git a/src/cc1/parse_type.h b/src/cc1/parse_type.h
index 9ba0eac..189dbf3 100644
--- a/src/cc1/parse_type.h
+++ b/src/cc1/parse_type.h
@@ -7,7 +7,8 @@ enum decl_mode
 {
 	DECL_SPEL_NEED    = 1 << 0,
 	DECL_CAN_DEFAULT  = 1 << 1,
-	DECL_ALLOW_STORE  = 1 << 2
+	DECL_ALLOW_STORE  = 1 << 2,
+	DECL_IS_ARG       = 1 << 3
 };
 
 enum decl_multi_mode
-- 
2.43.0


From 12448ab80f2c4cb3608f5dd33c438d5c06b7a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:12 +0000
Subject: [PATCH 114/122] fix: a parameter saw earlier array parameters' types
 before they became pointers

---
 src/cc1/parse_type.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc1/parse_type.c b/src/cc1/parse_type.c
index 0923cc7..4ddafff 100644
--- a/src/cc1/parse_type.c
+++ b/src/cc1/parse_type.c
@@ -1050,6 +1050,12 @@ funcargs *parse_func_arglist(symtable *scope)
 			symtab_add_to_scope(scope, argdecl);
 			fold_decl(argdecl, scope);
 
+			/* later parameters see the adjusted type, e.g.
+			 * f(int a[3], char (*p)[sizeof a])
+			 */
+			if(decl_conv_array_func_to_ptr(argdecl))
+				fold_type_ondecl_w(argdecl, scope, NULL, 1);
+
 			if(curtok == token_close_paren)
 				break;
 
-- 
2.43.0


From 5a5e0f29772f406d3f51db4ba21c9e176f0ab946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:12 +0000
Subject: [PATCH 115/122] fix: a label named as a typedef is, as the first
 thing in a block or after declarations, was rejected

---
 src/cc1/parse_stmt.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cc1/parse_stmt.c b/src/cc1/parse_stmt.c
index b76093e..d861485 100644
--- a/src/cc1/parse_stmt.c
+++ b/src/cc1/parse_stmt.c
@@ -571,11 +571,12 @@ static stmt *parse_stmt_and_decls(
 	/* look for statement attributes first */
 	parse_add_attr_out(attr, ctx->scope, &got_attribute);
 
-	/* statement, or decl? */
-	if(parse_at_decl(ctx->scope, /*include_attribute:*/ 0)
-	|| (got_attribute && curtok != token_semicolon)
+	/* statement, or decl? (see below for labels) */
+	if(!tok_at_label()
+	&& (parse_at_decl(ctx->scope, /*include_attribute:*/ 0)
+	|| (got_attribute && curtok != token_semicolon))
 	){
-		while(1){
+		while(!tok_at_label()){
 			decl **decls = NULL;
 			int new_group = parse_decl_group(
 					DECL_MULTI_ACCEPT_FUNC_DECL
-- 
2.43.0


From 61fa083dfd9ba970e7b7101b457c92d362285556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:12 +0000
Subject: [PATCH 116/122] fix: substatements of if, switch and loops weren't
 scopes

---
 src/cc1/parse_stmt.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/cc1/parse_stmt.c b/src/cc1/parse_stmt.c
index d861485..1c6b412 100644
--- a/src/cc1/parse_stmt.c
+++ b/src/cc1/parse_stmt.c
@@ -95,6 +95,30 @@ static void parse_test_init_expr(stmt *t, struct stmt_ctx *ctx)
 	EAT(token_close_paren);
 }
 
+static stmt *parse_substmt(const struct stmt_ctx *const ctx)
+{
+	/* C99 6.8.4p3, 6.8.5p5: a substatement is a block, e.g.
+	 * if(x) f(sizeof(enum { A })); else g(sizeof(enum { A }));
+	 */
+	struct stmt_ctx subctx = *ctx;
+	stmt *sub, *block;
+
+	if(cc1_std < STD_C99 || curtok == token_open_block)
+		return parse_stmt(ctx);
+
+	subctx.scope = symtab_new(ctx->scope, where_cc1_current(NULL));
+	sub = parse_stmt(&subctx);
+
+	if(!symtab_decls(subctx.scope) && !subctx.scope->sues)
+		return sub;
+
+	block = stmt_new_wrapper(code, subctx.scope);
+	memcpy_safe(&block->where, &sub->where);
+	dynarray_add(&block->bits.code.stmts, sub);
+
+	return block;
+}
+
 static stmt *parse_if(const struct stmt_ctx *const ctx)
 {
 	stmt *t = stmt_new_wrapper(if, ctx->scope);
@@ -107,7 +131,7 @@ static stmt *parse_if(const struct stmt_ctx *const ctx)
 
 	parse_test_init_expr(t, &subctx);
 
-	t->lhs = parse_stmt(&subctx);
+	t->lhs = parse_substmt(&subctx);
 
 	if(accept_where(token_else, &else_locn)){
 		if(ctx->parsing_unbraced_if){
@@ -119,7 +143,7 @@ static stmt *parse_if(const struct stmt_ctx *const ctx)
 		}
 
 		subctx.parsing_unbraced_if = 0; /* parsing the else, can't be ambiguous now */
-		t->rhs = parse_stmt(&subctx);
+		t->rhs = parse_substmt(&subctx);
 	}
 
 	return t;
@@ -137,7 +161,7 @@ static stmt *parse_switch(const struct stmt_ctx *const ctx)
 
 	parse_test_init_expr(t, &subctx);
 
-	t->lhs = parse_stmt(&subctx);
+	t->lhs = parse_substmt(&subctx);
 
 	return t;
 }
@@ -152,7 +176,7 @@ static stmt *parse_do(const struct stmt_ctx *const ctx)
 
 	EAT(token_do);
 
-	t->lhs = parse_stmt(&subctx);
+	t->lhs = parse_substmt(&subctx);
 
 	EAT(token_while);
 	EAT(token_open_paren);
@@ -176,7 +200,7 @@ static stmt *parse_while(const struct stmt_ctx *const ctx)
 
 	parse_test_init_expr(t, &subctx);
 
-	t->lhs = parse_stmt(&subctx);
+	t->lhs = parse_substmt(&subctx);
 
 	return t;
 }
@@ -239,7 +263,7 @@ static stmt *parse_for(const struct stmt_ctx *const ctx)
 		EAT(token_close_paren);
 	}
 
-	s->lhs = parse_stmt(&subctx);
+	s->lhs = parse_substmt(&subctx);
 
 	return s;
 }
-- 
2.43.0


From b177d0e4c7fa310b2c10ed40f662929c7f6e63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:12 +0000
Subject: [PATCH 117/122] fix: calling an enumerator was taken as calling an
 undeclared function

---
 src/cc1/ops/expr_funcall.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cc1/ops/expr_funcall.c b/src/cc1/ops/expr_funcall.c
index 8fc92df..6b8a5fe 100644
--- a/src/cc1/ops/expr_funcall.c
+++ b/src/cc1/ops/expr_funcall.c
@@ -159,10 +159,9 @@ static void check_implicit_funcall(expr *e, symtable *stab, char **const psp)
 	}
 
 	/* check for implicit function */
-	if(symtab_search(stab, *psp, NULL, &ent)
-	&& ent.type == SYMTAB_ENT_DECL)
-	{
-		e->expr->bits.ident.bits.ident.sym = ent.bits.decl->sym;
+	if(symtab_search(stab, *psp, NULL, &ent)){
+		if(ent.type == SYMTAB_ENT_DECL)
+			e->expr->bits.ident.bits.ident.sym = ent.bits.decl->sym;
 		return;
 	}
 
-- 
2.43.0


From e273069278754d9fa1dc9835b7eb58cbcf449632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:12 +0000
Subject: [PATCH 118/122] fix: identifiers referred to enumerators declared
 later in the same expression

---
 src/cc1/expr.h                |  3 +++
 src/cc1/ops/expr_identifier.c |  8 ++++++++
 src/cc1/parse_expr.c          | 19 ++++++++++++++++++-
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/cc1/expr.h b/src/cc1/expr.h
index 45cb19a..6775620 100644
--- a/src/cc1/expr.h
+++ b/src/cc1/expr.h
@@ -124,6 +124,9 @@ struct expr
 				} ident;
 				struct enum_member *enum_mem;
 			} bits;
+			/* what was in scope when parsed */
+			struct symtab_entry *parsed_ent;
+			int parsed_lookup; /* parsed_ent is set, or NULL for nothing */
 		} ident;
 
 		struct
diff --git a/src/cc1/ops/expr_identifier.c b/src/cc1/ops/expr_identifier.c
index 94f352e..3a70440 100644
--- a/src/cc1/ops/expr_identifier.c
+++ b/src/cc1/ops/expr_identifier.c
@@ -128,6 +128,14 @@ static int find_identifier(expr *expr_ident, symtable *stab)
 
 	found = symtab_search(stab, sp, NULL, &ent);
 
+	if(found && ent.type == SYMTAB_ENT_ENUM && expr_ident->bits.ident.parsed_lookup){
+		/* might only have been declared after us, in the same expression */
+		if(expr_ident->bits.ident.parsed_ent)
+			memcpy_safe(&ent, expr_ident->bits.ident.parsed_ent);
+		else
+			found = 0;
+	}
+
 	if(!found)
 		return attempt_func_keyword(expr_ident, stab);
 
diff --git a/src/cc1/parse_expr.c b/src/cc1/parse_expr.c
index 1b76403..1ce431c 100644
--- a/src/cc1/parse_expr.c
+++ b/src/cc1/parse_expr.c
@@ -222,6 +222,23 @@ expr *parse_expr_identifier(void)
 	return e;
 }
 
+static expr *parse_expr_identifier_in(symtable *scope)
+{
+	expr *e = parse_expr_identifier();
+	struct symtab_entry ent;
+
+	/* an enumerator later in this expression mustn't be found when folding:
+	 * x + sizeof(enum { x })
+	 */
+	e->bits.ident.parsed_lookup = 1;
+	if(symtab_search(scope, e->bits.ident.bits.ident.spel, NULL, &ent)){
+		e->bits.ident.parsed_ent = umalloc(sizeof ent);
+		memcpy_safe(e->bits.ident.parsed_ent, &ent);
+	}
+
+	return e;
+}
+
 static expr *parse_block(symtable *const scope)
 {
 	symtable *arg_symtab;
@@ -389,7 +406,7 @@ static expr *parse_expr_primary(symtable *scope, int static_ctx)
 					die_at(NULL, "expression expected, got %s", token_to_str(curtok));
 				}
 
-				return parse_expr_identifier();
+				return parse_expr_identifier_in(scope);
 			}
 			/* unreachable */
 		}
-- 
2.43.0


From dd1935160532a018be89cd82032eee2b72e6100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:16 +0000
Subject: [PATCH 119/122] fix: -g changed the generated code - jumps were not
 threaded through blocks holding just line info

---
 src/cc1/out/blk.c   | 2 +-
 src/cc1/out/blk.h   | 3 ++-
 src/cc1/out/write.c | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/blk.c b/src/cc1/out/blk.c
index 026900f..74c48a8 100644
--- a/src/cc1/out/blk.c
+++ b/src/cc1/out/blk.c
@@ -48,7 +48,7 @@ static void blk_jmpthread(struct flush_state *st, const struct section *sec)
 	if(cc1_fopt.thread_jumps){
 		int lim = 0;
 
-		while(!to->insns && to->type == BLK_NEXT_BLOCK && lim < JMP_THREAD_LIM){
+		while(blk_is_empty(to) && to->type == BLK_NEXT_BLOCK && lim < JMP_THREAD_LIM){
 			to = to->bits.next;
 			lim++; /* prevent circulars */
 		}
diff --git a/src/cc1/out/blk.h b/src/cc1/out/blk.h
index 1205998..9e77fa7 100644
--- a/src/cc1/out/blk.h
+++ b/src/cc1/out/blk.h
@@ -21,6 +21,7 @@ struct out_blk
 	out_blk *next;
 	unsigned align;
 	unsigned reachable : 1, emitted : 1;
+	unsigned has_code : 1; /* i.e. not just line info - the same with and without -g */
 
 	enum
 	{
@@ -72,6 +73,6 @@ void blk_transfer(out_blk *from, out_blk *to);
 	dynarray_add(&(blk)->insns, (insn))
 
 #define blk_is_empty(blk) \
-	(!(blk)->insns)
+	(!(blk)->has_code)
 
 #endif
diff --git a/src/cc1/out/write.c b/src/cc1/out/write.c
index 42673c5..e3e93b6 100644
--- a/src/cc1/out/write.c
+++ b/src/cc1/out/write.c
@@ -92,6 +92,7 @@ void out_asmv(
 		add_live_vals(octx);
 
 	dynarray_add(&octx->current_blk->insns, insn);
+	octx->current_blk->has_code = 1;
 }
 
 void out_asm(out_ctx *octx, const char *fmt, ...)
-- 
2.43.0


From 1eb19b0872e707daba8efc32c806c090e46f9b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:16 +0000
Subject: [PATCH 120/122] fix: -g: a block without code after it was said to
 extend over the code that follows

---
 src/cc1/out/dbg_lbl.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/dbg_lbl.c b/src/cc1/out/dbg_lbl.c
index 8903862..4b6582b 100644
--- a/src/cc1/out/dbg_lbl.c
+++ b/src/cc1/out/dbg_lbl.c
@@ -71,8 +71,9 @@ void out_dbg_label_pop(out_ctx *octx, struct out_dbg_lbl *to_pop)
 	if(!blk)
 		blk = octx->last_used_blk;
 
-	/* this is the block we should emit the label from */
-	add_lbl_to_blk(to_pop, &blk->labels.end);
+	/* this is the block we should emit the label from - if there's no code in it
+	 * yet, the label goes before whatever is added to the block later */
+	add_lbl_to_blk(to_pop, blk_is_empty(blk) ? &blk->labels.start : &blk->labels.end);
 
 	/* release the caller's hold / hold returned by out_dbg_label_push() */
 	RELEASE(to_pop);
-- 
2.43.0


From fe3b784aa8470cd4066317acde9970acd55b809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:16 +0000
Subject: [PATCH 121/122] fix: members pointing to, or of, a packed type were
 packed themselves

---
 src/cc1/fold_sue.c | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index 8486383..f74e633 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -402,6 +402,48 @@ static void check_sue_align_attr(struct_union_enum_st *sue, symtable *stab)
 	round_size_to_align(&sue->size, sue->align);
 }
 
+static int fold_sue_member_packed(decl *d)
+{
+	type *r = d->ref;
+
+	if(attr_present(d->attr, attr_packed))
+		return 1;
+
+	/* a packed struct is packed inside - this doesn't extend
+	 * to members of (or pointing to, etc) its type */
+	while(r){
+		switch(r->type){
+			case type_auto:
+			case type_btype:
+				return 0;
+
+			case type_tdef:
+				d = r->bits.tdef.decl;
+				if(!d)
+					return 0;
+				if(attr_present(d->attr, attr_packed))
+					return 1;
+				r = d->ref;
+				break;
+
+			case type_attr:
+				if(attr_present(r->bits.attr, attr_packed))
+					return 1;
+				/* fall through */
+			case type_ptr:
+			case type_block:
+			case type_func:
+			case type_array:
+			case type_cast:
+			case type_where:
+				r = r->ref;
+				break;
+		}
+	}
+
+	return 0;
+}
+
 void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 {
 	if(sue->foldprog != SUE_FOLDED_NO || sue->membs_progress != SUE_MEMBS_COMPLETE)
@@ -466,7 +508,7 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 				fold_sue_calc_normal(&pack_state);
 			}
 
-			if(packed || attribute_present(d, attr_packed))
+			if(packed || fold_sue_member_packed(d))
 				pack_state.align = 1;
 
 			if(sue->primitive == type_struct && !d->bits.var.field_width){
-- 
2.43.0


From a8defc7415d7d29b050a3a9354f15824ff8c0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:17 +0000
Subject: [PATCH 122/122] fix: a pointer to an aligned struct or typedef took
 its alignment

---
 src/cc1/type.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/cc1/type.c b/src/cc1/type.c
index 262c20a..6c33b24 100644
--- a/src/cc1/type.c
+++ b/src/cc1/type.c
@@ -376,13 +376,64 @@ unsigned type_size(type *r, const where *from)
 	ucc_unreach(0);
 }
 
+static attribute *type_own_align_attr(type *r)
+{
+	/* not that of a pointed-to or returned typedef, struct or union */
+	int own = 1;
+
+	while(r){
+		attribute *da;
+
+		switch(r->type){
+			case type_tdef:
+			{
+				decl *d = r->bits.tdef.decl;
+
+				if(!own)
+					return NULL;
+				if(!d)
+					return type_attr_present(r, attr_aligned);
+				if((da = attr_present(d->attr, attr_aligned)))
+					return da;
+				r = d->ref;
+				break;
+			}
+
+			case type_ptr:
+			case type_block:
+			case type_func:
+				own = 0;
+				r = r->ref;
+				break;
+
+			case type_attr:
+				if((da = attr_present(r->bits.attr, attr_aligned)))
+					return da;
+				/* fall through */
+			case type_array:
+			case type_cast:
+			case type_where:
+				r = r->ref;
+				break;
+
+			case type_btype:
+				return own ? type_attr_present(r, attr_aligned) : NULL;
+
+			case type_auto:
+				return NULL;
+		}
+	}
+
+	return NULL;
+}
+
 static unsigned type_align_with_attr(type *r, const where *from, int with_attributes)
 {
 	struct_union_enum_st *sue;
 	type *test;
 	attribute *align;
 
-	if(with_attributes && (align = type_attr_present(r, attr_aligned))){
+	if(with_attributes && (align = type_own_align_attr(r))){
 		if(align->bits.align){
 			consty k;
 
-- 
2.43.0

