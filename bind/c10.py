"""C10: the calling convention, decided by spec/Abi.tla. ucc as caller is observed by assembly stubs which
snapshot the registers and stack and return whatever the specification allows; ucc as callee is invoked by an
assembly trampoline with garbage wherever the convention leaves bits undefined."""
import struct
from vlib import *
from ctype import *
import c01

INV = ["TypeOK", "NoSharing", "HiddenFirst", "InOrder", "Contiguous", "StackIsLast", "Functional", "RetComplete", "VaRefines"]
SCAL = TYPES + ["float", "double", "float", "double", "ptr", "enum"]
INTLIKE = lambda t: t not in ("float", "double")
def psz(t): return 1 if t == "bool" else PSIZE(t)
def fval(r, t):
    c = r.random()
    x = r.choice([0.0, 1.0, -1.0, 2.5, -0.0, 1e10, -3.25, 123456.0, 0.5, float("inf")]) if c < .6 else float(r.randrange(-100000, 100000)) / r.choice([1, 2, 4, 64])
    return int.from_bytes(struct.pack("<f" if t == "float" else "<d", x), "little")
def val(r, t):
    if t in ("float", "double"): return fval(r, t)
    if t == "ptr": return r.getrandbits(64)
    if t == "enum": return r.choice([0, 1, r.getrandbits(31)])
    return interesting(r, t) & ((1 << 64) - 1)      # sign-extended

def rettype(r, tag, aggr=.35):
    c = r.random()
    if c < .1: return {"k": "void"}
    if c < 1 - aggr: return {"k": "p", "t": r.choice(SCAL)}
    while 1:
        d = r.choice([0, 0, 1, 1, 2])
        prims = r.choice([None, None, ["float", "double"], ["float", "double", "int", "char"], ["float"], ["char", "short", "int"], ["long", "double"]])
        g = TGen(r, prefix=tag, flex=False, maxm=r.choice([1, 2, 2, 3, 4]), prims=prims, bf=prims is None, aligned=r.random() < .3)
        t = g.su(d)
        if align_lb(t) <= 16 and ok_unnamed(t): return t
def ok_unnamed(t):
    """compilers differ on unnamed bit-fields in aggregates returned by value: left out"""
    if t["k"] == "p": return True
    if t["k"] == "arr": return ok_unnamed(t["of"])
    return all((m["n"] or m["w"] < 0) and ok_unnamed(m["ty"]) for m in t["ms"])

def tname(t):
    if t["k"] == "void": return "void"
    if t["k"] == "p": return NAMES[t["t"]]
    return "%s %s" % ("union" if t["u"] else "struct", t["tag"])
ABIOPTS = [(), (), ("-fno-pic",), ("-fpic",), ("-O2",), ("-fomit-frame-pointer",), ("-fno-plt",), ("-fno-const-fold",), ("-mno-red-zone",), ("-fstack-protector-all",),
           ("-fomit-frame-pointer", "-fno-pic"), ("-g",), ("-fno-integral-float-load",), ("-fno-inline-functions",), ("-finline-functions",)]

def arglist(r, nmax=None):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 24]) if nmax is None else r.randint(0, nmax)
    pool = r.choice([SCAL, SCAL, SCAL, ["float", "double"], ["double", "int"], ["char", "bool", "short", "float"], ["long", "ptr"]])
    return [r.choice(pool) for _ in range(n)]

def argt(r, pt):
    """a type for the argument expression, convertible to pt without the constructs listed under C23's known findings"""
    if pt in ("ptr", "enum") or r.random() < .7: return pt
    if pt in ("float", "double"): return r.choice([pt, "float", "int", "short", "uchar"])
    if pt == "bool": return r.choice([pt, "int", "long", "double"])
    return r.choice([x for x in TYPES])

class Case:
    pass
def mkcase(r, n, callee, nested=False):
    c = Case(); c.n = n; c.callee = callee
    c.style = r.choice(["proto", "proto", "proto", "var", "none"]) if not callee else r.choice(["proto", "proto", "proto", "none"])
    ts = arglist(r, 4 if nested else None)
    c.ret = rettype(r, "%s%d_" % ("k" if callee else "r", n))
    nfix = len(ts)
    if c.style == "var":
        if not ts: ts = ["int"]
        nfix = r.randint(1, len(ts))
    if callee and c.style == "none": ts = [t if t != "float" else "double" for t in ts]     # see knr_float()
    c.params = [t for t in ts[:nfix]]
    c.args = []
    for j, t in enumerate(ts):
        at = t if callee or c.style == "none" or j >= nfix else argt(r, t)
        v = val(r, at)
        if at == "double" and t == "bool" and r.random() < .5: v = 0
        c.args.append({"t": at, "v": v, "sub": None})
    return c
def spec(c):
    return {"id": c.n, "style": c.style, "params": c.params if c.style != "none" else [], "ret": strip(c.ret) if c.ret["k"] != "void" else c.ret,
            "args": [{"t": a["t"], "v": word(a["v"])} for a in c.args]}

# ------------------------------------------------------------------ assembly side
ASM = r'''
.text
.globl common
common:
  movq %rax, SN+0(%rip); movq %rdi, SN+8(%rip); movq %rsi, SN+16(%rip); movq %rdx, SN+24(%rip); movq %rcx, SN+32(%rip)
  movq %r8, SN+40(%rip); movq %r9, SN+48(%rip)
  movsd %xmm0, SN+56(%rip); movsd %xmm1, SN+64(%rip); movsd %xmm2, SN+72(%rip); movsd %xmm3, SN+80(%rip)
  movsd %xmm4, SN+88(%rip); movsd %xmm5, SN+96(%rip); movsd %xmm6, SN+104(%rip); movsd %xmm7, SN+112(%rip)
  movq %rsp, SN+120(%rip)
  pushfq; popq %rax; movq %rax, SN+128(%rip)
  pushq %rbp; movq %rsp, %rbp; andq $-16, %rsp
  call snap
  movq %rbp, %rsp; popq %rbp
  # rax -> reply: rax rdx xmm0(16) xmm1(16)
  movq 8(%rax), %rdx; movups 16(%rax), %xmm0; movups 32(%rax), %xmm1; movq (%rax), %rax
  movq $0x5a5a5a5a5a5a5a5a, %rcx; movq %rcx, %rsi; movq %rcx, %rdi; movq %rcx, %r8; movq %rcx, %r9; movq %rcx, %r10; movq %rcx, %r11
  movq %rcx, %xmm2; movq %rcx, %xmm3; movq %rcx, %xmm4; movq %rcx, %xmm5; movq %rcx, %xmm6; movq %rcx, %xmm7; movq %rcx, %xmm8
  movq %rcx, %xmm9; movq %rcx, %xmm10; movq %rcx, %xmm11; movq %rcx, %xmm12; movq %rcx, %xmm13; movq %rcx, %xmm14; movq %rcx, %xmm15
  pushq $0xcd5; popfq
  cld
  ret
# invoke(fn, in, out): in: rax, 6 gp, 8 xmm(8 bytes each), nstk, stk...; out: rax rdx xmm0(16) xmm1(16) ok
.globl invoke
invoke:
  pushq %rbx; pushq %rbp; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  movq %rdx, OUTP(%rip)
  movq %rdi, FN(%rip)
  movq %rsi, %r11
  movq $0x1b1b1b1b00000001, %rbx
  movq $0x1b1b1b1b00000012, %r12
  movq $0x1b1b1b1b00000013, %r13
  movq $0x1b1b1b1b00000014, %r14
  movq $0x1b1b1b1b00000015, %r15
  movq $0x1b1b1b1b00000005, %rbp
  movq %rsp, RSPS(%rip)
  andq $-16, %rsp
  subq $64, %rsp
  movq $0x77, %r10
  movq %r10, (%rsp); movq %r10, 8(%rsp); movq %r10, 16(%rsp); movq %r10, 24(%rsp); movq %r10, 32(%rsp); movq %r10, 40(%rsp); movq %r10, 48(%rsp); movq %r10, 56(%rsp)
  movq 120(%r11), %r10       # nstk
  testq $1, %r10; jz 1f; subq $8, %rsp
1: testq %r10, %r10; jz 2f
  pushq 120(%r11,%r10,8); decq %r10; jmp 1b
2: movq %rsp, RSPC(%rip)
  movsd 56(%r11), %xmm0; movsd 64(%r11), %xmm1; movsd 72(%r11), %xmm2; movsd 80(%r11), %xmm3
  movsd 88(%r11), %xmm4; movsd 96(%r11), %xmm5; movsd 104(%r11), %xmm6; movsd 112(%r11), %xmm7
  movq 0(%r11), %rax; movq 8(%r11), %rdi; movq 16(%r11), %rsi; movq 24(%r11), %rdx; movq 32(%r11), %rcx; movq 40(%r11), %r8; movq 48(%r11), %r9
  movq $0x6363636363636363, %r10; movq %r10, %r11
  call *FN(%rip)
  movq OUTP(%rip), %r11
  movq %rax, (%r11); movq %rdx, 8(%r11); movups %xmm0, 16(%r11); movups %xmm1, 32(%r11)
  xorq %r10, %r10
  cmpq %rsp, RSPC(%rip); je 1f; orq $1, %r10
1: movq RSPS(%rip), %rcx; andq $-16, %rcx; subq $64, %rcx
  movq $8, %rdx
3: cmpq $0x77, (%rcx); je 4f; orq $2, %r10
4: addq $8, %rcx; decq %rdx; jnz 3b
  movq $0x1b1b1b1b00000001, %rdx; cmpq %rdx, %rbx; je 1f; orq $4, %r10
1: movq $0x1b1b1b1b00000012, %rdx; cmpq %rdx, %r12; je 1f; orq $8, %r10
1: movq $0x1b1b1b1b00000013, %rdx; cmpq %rdx, %r13; je 1f; orq $16, %r10
1: movq $0x1b1b1b1b00000014, %rdx; cmpq %rdx, %r14; je 1f; orq $32, %r10
1: movq $0x1b1b1b1b00000015, %rdx; cmpq %rdx, %r15; je 1f; orq $64, %r10
1: movq $0x1b1b1b1b00000005, %rdx; cmpq %rdx, %rbp; je 1f; orq $128, %r10
1: pushfq; popq %rdx; testq $0x400, %rdx; jz 1f; orq $256, %r10
1: movq %r10, 48(%r11)
  movq RSPS(%rip), %rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbp; popq %rbx
  cld
  ret
.data
.balign 16
.globl SN
SN: .zero 256
OUTP: .quad 0
FN: .quad 0
RSPS: .quad 0
RSPC: .quad 0
.section .note.GNU-stack,"",@progbits
'''
HARN = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
typedef unsigned long U;
extern U SN[32]; extern long pid;
struct rep { U rax, rdx, x0[2], x1[2]; };
struct ret { struct rep r; int hidden; unsigned size; const char *bytes; };
extern const struct ret rets[];
extern void flush_out(void);
static struct rep cur;
struct rep *snap(void){
  static char b[8192]; int n; long id = pid;
  U *st = (U *)SN[15];
  n = sprintf(b, "P %ld %lx %lx", id, SN[15], SN[16]);
  for(int i = 0; i < 15; i++) n += sprintf(b + n, " %lx", SN[i]);
  for(int i = 1; i <= 40; i++) n += sprintf(b + n, " %lx", st[i]);
  b[n++] = '\n'; flush_out(); if(write(1, b, n) != n) _exit(98);
  cur = rets[id].r;
  if(rets[id].hidden){ memcpy((void *)SN[1], rets[id].bytes, rets[id].size); cur.rax = SN[1]; }
  return &cur;
}
extern void invoke(void *, U *, U *);
static char hb[4096];
void doinvoke(int n, void *fn, U *in, int hidden, unsigned size){
  U o[8]; char b[8192]; int k;
  memset(hb, 0x99, sizeof hb);
  if(hidden) in[1] = (U)(hb + 1024);
  invoke(fn, in, o);
  flush_out();
  k = sprintf(b, "I %d %lx %lx %lx %lx %lx", n, o[6], o[0], o[1], o[2], o[4]);
  if(hidden){
    k += sprintf(b + k, " %d ", o[0] == (U)(hb + 1024));
    int bad = 0; for(unsigned i = 0; i < 1024; i++) bad |= hb[i] != (char)0x99 || hb[1024 + size + i] != (char)0x99;
    k += sprintf(b + k, "%d ", bad);
    for(unsigned i = 0; i < size && i < 1500; i++) k += sprintf(b + k, "%02x", (unsigned char)hb[1024 + i]);
  }
  b[k++] = '\n'; if(write(1, b, k) != k) _exit(98);
}
void *alloca_use(void *p){ return p; }
'''
def bytelist(b): return ",".join(str(x) for x in b) or "0"

def retbytes(r, res):
    """random bytes of a return object, with _Bool leaves 0 or 1"""
    b = bytearray(r.getrandbits(8) for _ in range(res["size"]))
    for l in res["leaves"]:
        if l["t"] == "bool":
            for q in range(l["bit"], l["bit"] + l["w"]):
                if q != l["bit"]: b[q // 8] &= ~(1 << q % 8)
    return bytes(b)
def mask(res):
    m = bytearray(res["size"])
    for l in res["leaves"]:
        for q in range(l["bit"], l["bit"] + l["w"]): m[q // 8] |= 1 << q % 8
    return m
def masked(b, res): return bytes(x & y for x, y in zip(b, mask(res))).hex()

def reply(r, c):
    """the registers which carry the returned bytes, garbage elsewhere"""
    g = {k: r.getrandbits(64) for k in ("rax", "rdx", "xmm0", "xmm1", "x0h", "x1h")}
    res = c.res; b = c.rb
    if res["hidden"] or c.ret["k"] == "void": return g
    for e, reg in enumerate(res["regs"]):
        if reg == "none": continue
        ch = b[8 * e:8 * e + 8]
        v = int.from_bytes(ch, "little"); w = 8 * len(ch)
        g[reg] = (g[reg] >> w << w) | v
    return g

def declp(t, name): return declare({"k": "p", "t": t}, name)
def proto(c, name):
    if c.style == "none": return "%s %s()" % (tname(c.ret), name)
    ps = [declp(t, "") for t in c.params]
    if c.style == "var": ps.append("...")
    return "%s %s(%s)" % (tname(c.ret), name, ", ".join(ps) or "void")
def fptype(c, name):
    return proto(c, "(*%s)" % name)

# ------------------------------------------------------------------ ucc as caller
def caller(r, c, data):
    """C text of the caller of probe c.n; data collects asm data definitions"""
    n = c.n; top = []; loc = []; pre = []; post = []; params = []; pargs = []
    if c.ret["k"] == "su": top.append(sudef(c.ret) + ";")
    top.append(proto(c, "probe%d" % n) + ";")
    args = []
    for j, a in enumerate(c.args):
        if a["sub"]:
            s = a["sub"]
            top.append("%s;" % proto(s, "probe%d" % s.n))
            sa = []
            for q, b in enumerate(s.args):
                data.append(("g%d_%d" % (s.n, q), word(b["v"])[:psz(b["t"])])); top.append("extern %s;" % declp(b["t"], "g%d_%d" % (s.n, q))); sa.append("g%d_%d" % (s.n, q))
            args.append("probe%d(%s)" % (s.n, ", ".join(sa))); continue
        g = "g%d_%d" % (n, j)
        data.append((g, word(a["v"])[:psz(a["t"])])); top.append("extern %s;" % declp(a["t"], g))
        p = r.random()
        if p < .3: args.append(g)
        elif p < .5: loc.append("%s = %s;" % (declp(a["t"], "l%d" % j), g)); args.append("l%d" % j)
        elif p < .62 and INTLIKE(a["t"]) and a["t"] not in ("ptr", "enum"): args.append(typed_lit(conv(a["v"], a["t"]), a["t"]))
        elif p < .72: params.append(declp(a["t"], "p%d" % j)); pargs.append(g); args.append("p%d" % j)
        elif p < .8: loc.append("%s = &%s;" % (declp(a["t"], "*q%d" % j), g)); args.append("*q%d" % j)
        elif p < .88: args.append("(oz%d, %s)" % (n, g))
        elif p < .94: args.append("(o1%d ? %s : %s)" % (n, g, g) if a["t"] in ("ptr", "float", "double", "int", "uint", "long", "ulong", "llong", "ullong") else g)
        else: loc.append("%s = { %s, %s };" % (declp(a["t"], "b%d[2]" % j), g, g)); args.append("b%d[o1%d]" % (j, n))
    top.append("int oz%d, o1%d = 1;" % (n, n))
    form = r.choice(["d", "d", "d", "f", "F", "m", "t"])
    call = "probe%d" % n
    if form == "f": loc.append("%s = probe%d;" % (fptype(c, "fp"), n)); call = "fp"
    if form == "F": loc.append("%s = &probe%d;" % (fptype(c, "fp"), n)); call = "(*fp)"
    if form == "m": loc.append("struct { int pad; %s; } fs = { 1, probe%d };" % (fptype(c, "m"), n)); call = "fs.m"
    call = "%s(%s)" % (call, ", ".join(args))
    # live values across the call
    live = r.choice([0, 0, 1, 2])
    if live and form != "t" and c.ret["k"] == "p" and INTLIKE(c.ret["t"]) and c.ret["t"] not in ("ptr",):
        x = r.getrandbits(32); pre.append("long lv = o1%d * %dL;" % (n, x)); c.live = x
        post.append("out2(%d, 1, (lv * 3 ^ lv) + 0 * r);" % n)
        if live == 2: c.sum = 1
    if r.random() < .15: pre.append("char vl[o1%d * 37]; vl[3] = 1;" % n)

    T = tname(c.ret)
    if c.ret["k"] == "void":
        body = "%s;" % call
        top.append("void f%d(%s){ %s %s %s out(%d, 0); %s }" % (n, ", ".join(params) or "void", " ".join(loc), " ".join(pre), body, n, " ".join(post)))
        main = "f%d(%s);" % (n, ", ".join(pargs))
    elif form == "t":
        top.append("%s f%d(%s){ %s return %s; }" % (T, n, ", ".join(params) or "void", " ".join(loc), call))
        main = "{ %s r = f%d(%s); outmem(%d, &r, sizeof r); }" % (T, n, ", ".join(pargs), n)
    else:
        if getattr(c, "sum", 0):
            call = "(%s)((lv + 5) * 0 + %s + (lv ^ lv))" % (T, call)
        how = r.choice(["init", "assign", "global", "ptr"])
        if how == "init" or c.ret["k"] == "p" and post: body = "%s r = %s;" % (T, call)
        elif how == "assign": body = "%s r; r = %s;" % (T, call)
        elif how == "ptr": body = "%s r; __typeof(r) *pr = &r; *pr = %s;" % (T, call)
        else: top.append("%s gr%d;" % (T, n)); body = "gr%d = %s; %s r = gr%d;" % (n, call, T, n)
        top.append("void f%d(%s){ %s %s %s outmem(%d, &r, sizeof r); %s }" % (n, ", ".join(params) or "void", " ".join(loc), " ".join(pre), body, n, " ".join(post)))
        main = "f%d(%s);" % (n, ", ".join(pargs))
    return "\n".join(top), main

def callee(r, c, data):
    n = c.n; top = []; b = []
    T = tname(c.ret)
    if c.ret["k"] == "su": top.append(sudef(c.ret) + ";")
    ps = [declp(t, "p%d" % j) for j, t in enumerate(c.params)]
    if c.style == "none": head = "%s callee%d(%s)%s" % (T, n, ", ".join("p%d" % j for j in range(len(ps))), "".join(" %s;" % p for p in ps))
    else: head = "%s callee%d(%s)" % (T, n, ", ".join(ps) or "void")
    ctx = r.random()
    if ctx < .3: b.append("ev(0);")
    elif ctx < .45: b.append("char vl[vl2 + 9]; vfill(vl, sizeof vl, 3);")
    elif ctx < .6: b.append("long x0 = vl2, x1 = x0 * 3, x2 = x1 ^ 5; struct { char b[100]; } big = {{1,2,3}}; vfill(&big, 100, 0);")
    order = list(range(len(ps))); 
    if r.random() < .4: r.shuffle(order)
    for j in order:
        t = c.params[j]; p = r.random()
        if p < .4: b.append("outmem(%d, &p%d, sizeof p%d);" % (1000 * 1000 + 100 * n + j, j, j))
        elif p < .7: b.append("{ %s = p%d; outmem(%d, &q, sizeof q); }" % (declp(t, "q"), j, 1000 * 1000 + 100 * n + j))
        elif INTLIKE(t) and t != "ptr": b.append("{ unsigned long q = p%d; q = (unsigned long)(%s)q; p%d = q; outmem(%d, &p%d, sizeof p%d); }" % (j, NAMES[t], j, 1000 * 1000 + 100 * n + j, j, j))
        else: b.append("{ %s, w = p%d; q = w; p%d = q; outmem(%d, &p%d, sizeof p%d); }" % (declp(t, "q"), j, j, 1000 * 1000 + 100 * n + j, j, j) if t != "ptr" else "{ void *q = p%d; p%d = 0; p%d = q; outmem(%d, &p%d, sizeof p%d); }" % (j, j, j, 1000 * 1000 + 100 * n + j, j, j))
    if c.ret["k"] != "void":
        data.append(("rv%d" % n, list(c.rb) or [0]))
        top.append("extern %s rv%d;" % (T, n))
        f = r.random()
        if f < .4: b.append("return rv%d;" % n)
        elif f < .55: b.append("%s r = rv%d; return r;" % (T, n))
        elif f < .7: b.append("%s *r = &rv%d; return *r;" % (T, n))
        elif f < .8: b.append("%s r; r = rv%d; ev(1); return vl2 ? r : rv%d;" % (T, n, n))
        elif f < .9: top.append("static %s sub%d(void){ return rv%d; }" % (T, n, n)); b.append("return sub%d();" % n)
        else: b.append("return vl2 == 2 ? rv%d : *(%s *)0;" % (n, T))
    top.append(head + "{ " + " ".join(b) + " }")
    return "\n".join(top)

def program(seed, batch):
    """(ucc text, gcc text, asm text)"""
    data = []; tops = []; mains = []; rets = {}; stubs = []
    harn = [HARN]; hm = []
    for c in batch:
        r = random.Random("%s/%d" % (seed, c.n))
        if not c.callee:
            t, m = caller(r, c, data); tops.append(t); mains.append(m)
            for s in [c] + [a["sub"] for a in c.args if a["sub"]]:
                g = reply(random.Random("%s/r%d" % (seed, s.n)), s)
                rets[s.n] = "{ {%dU, %dU, {%dU,%dU}, {%dU,%dU}}, %d, %d, \"%s\" }" % (g["rax"], g["rdx"], g["xmm0"], g["x0h"], g["xmm1"], g["x1h"], s.res["hidden"], s.res["size"], "".join("\\x%02x" % x for x in s.rb))
                stubs.append(".globl probe%d\nprobe%d: movq $%d, pid(%%rip); jmp common" % (s.n, s.n, s.n))
        else:
            tops.append(callee(r, c, data))
            mains.append("inv%d();" % c.n); tops.append("void inv%d(void);" % c.n)
            ins = [r.getrandbits(64) for _ in range(15)]; stk = [r.getrandbits(64) for _ in range(c.res["stk"])]
            for (kind, idx), t, v in zip(c.res["locs"], c.res["types"], c.res["vals"]):
                v = unword(v); w = 8 * psz(t)
                if kind == "gp": x = ins[1 + idx]
                elif kind == "fp": x = ins[7 + idx]
                else: x = stk[idx]
                x = (x >> w << w) | (v & ((1 << w) - 1))
                if kind == "gp": ins[1 + idx] = x
                elif kind == "fp": ins[7 + idx] = x
                else: stk[idx] = x
            arr = ins + [len(stk)] + stk
            harn.append("extern void callee%d(void); void inv%d(void){ U in[] = {%s}; doinvoke(%d, (void *)callee%d, in, %d, %d); }" % (c.n, c.n, ",".join("%dU" % x for x in arr), c.n, c.n, c.res["hidden"], c.res["size"]))
    asm = ASM + ".text\n" + "\n".join(stubs) + "\n.data\n.globl pid\npid: .quad 0\n" + "\n".join(".balign 16\n.globl %s\n%s: .byte %s" % (n, n, bytelist(b)) for n, b in data) + "\n"
    harn.append("const struct ret rets[] = { [0] = {{0}}, %s };" % ", ".join("[%d] = %s" % kv for kv in rets.items()))
    text = c01.PRE + "enum en { EN0 }; int ev(int); extern int vl2; void vfill(void *, unsigned long, int);\n" + "\n".join(tops) + "\nint main(void){\n" + "\n".join("%s flush_out();" % m for m in mains) + "\nreturn 0; }\n"
    return text, "\n".join(harn), asm

def build(seed, batch, opts, extra_text=None):
    text, harn, asm = program(seed, batch)
    d = tempfile.mkdtemp(prefix="h", dir=scratch())
    try:
        open(d + "/h.c", "w").write(harn); open(d + "/s.s", "w").write(asm)
        pic = [] if "-fno-pic" in opts else ["-fPIE"]
        p = subprocess.run(["gcc", "-w", "-O1", *pic, "-r", "-nostdlib", "-o", d + "/x.o", d + "/h.c", d + "/s.s"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: raise CheckError("harness: " + p.stdout.decode()[-2000:])
        r = build_run(text, opts, extra_objs=[d + "/x.o"])
    finally: shutil.rmtree(d, ignore_errors=True)
    return r, {"program.c": text, "harness.c": harn, "stubs.s": asm}

def check(job):
    seed, batch, opts = job
    r, files = build(seed, batch, opts)
    if r["stage"] != "run" or r["rc"] != 0:
        if len(batch) == 1: return [(batch[0], opts, "%s failed with status %s: %s" % (r["stage"], r["rc"], r["out"][-400:]), files)]
        h = len(batch) // 2
        return check((seed, batch[:h], opts)) + check((seed, batch[h:], opts))
    snaps, inv, mem, oth = {}, {}, {}, {}
    for l in r["out"].split("\n"):
        p = l.split()
        if not p: continue
        if p[0] == "P": snaps.setdefault(int(p[1]), []).append([int(x, 16) for x in p[2:]])
        elif p[0] == "I": inv[int(p[1])] = p[2:]
        elif len(p) == 2 and "." not in p[0]: mem[int(p[0])] = p[1]
        elif len(p) == 2: oth[p[0]] = int(p[1], 16)
    bad = []
    for c in batch:
        d = judge_callee(c, inv, mem) if c.callee else judge_caller(c, snaps, mem, oth)
        if d:
            _, f1 = (r, files) if len(batch) == 1 else (None, dict(zip(("program.c", "harness.c", "stubs.s"), program(seed, [c]))))
            bad.append((c, opts, d, f1))
    return bad

def judge_snap(c, sn):
    if not sn: return "the probe was not called"
    if len(sn) != 1: return "the probe was called %d times" % len(sn)
    rsp, fl, regs, stk = sn[0][0], sn[0][1], sn[0][2:17], sn[0][17:]
    if rsp % 16 != 8: return "stack not 16-byte aligned at the call: rsp on entry %x" % rsp
    if fl & 0x400: return "direction flag set"
    al = c.res["al"]
    if al >= 0 and not al <= regs[0] & 255 <= 8: return "%%al is %d for %d vector registers" % (regs[0] & 255, al)
    for j, ((kind, idx), t, v) in enumerate(zip(c.res["locs"], c.res["types"], c.res["vals"])):
        w = psz(t)
        if t not in ("float", "double"): w = max(w, 4)
        got = regs[1 + idx] if kind == "gp" else regs[7 + idx] if kind == "fp" else stk[idx]
        m = (1 << 8 * w) - 1
        if got & m != unword(v) & m: return "argument %d (%s) in %s %d: expected %x, got %x" % (j + 1, t, kind, idx, unword(v) & m, got & m)
    return None
def judge_caller(c, snaps, mem, oth):
    for a in c.args:
        if a["sub"]:
            d = judge_snap(a["sub"], snaps.get(a["sub"].n))
            if d: return "nested call: " + d
    d = judge_snap(c, snaps.get(c.n))
    if d: return d
    if c.ret["k"] == "void":
        return None if mem.get(c.n) == "0" else "the code after the call did not run"
    if c.n not in mem: return "no result"
    exp, got = masked(c.rb, c.res), masked(bytes.fromhex(mem[c.n]), c.res)
    if exp != got: return "returned %s: expected %s, got %s" % (tname(c.ret), exp, got)
    if hasattr(c, "live"):
        e = ((c.live * 3) ^ c.live) & ((1 << 64) - 1)
        if oth.get("%d.1" % c.n) != e: return "value live across the call: expected %x, got %s" % (e, oth.get("%d.1" % c.n))
    return None
def judge_callee(c, inv, mem):
    for j, t in enumerate(c.params):
        exp = bytes(word(c.args[j]["v"])[:psz(t)]).hex()
        got = mem.get(1000 * 1000 + 100 * c.n + j)
        if exp != got: return "parameter %d (%s): expected %s, got %s" % (j + 1, t, exp, got)
    o = inv.get(c.n)
    if not o: return "did not return"
    bits = int(o[0], 16)
    if bits: return "callee-saved state destroyed (mask %x: 1 rsp, 2 caller's stack, 4 rbx, 8.. r12-r15, 80 rbp, 100 DF)" % bits
    if c.ret["k"] == "void": return None
    if c.res["hidden"]:
        if o[5] != "1": return "hidden return pointer not returned in rax"
        if o[6] != "0": return "wrote outside the return buffer"
        got = bytes.fromhex(o[7])
    else:
        regs = dict(zip(("rax", "rdx", "xmm0", "xmm1"), (int(x, 16) for x in o[1:5])))
        got = b"".join((regs.get(x, 0)).to_bytes(8, "little") for x in c.res["regs"])[:c.res["size"]]
    if masked(got, c.res) != masked(c.rb, c.res): return "returned %s: expected %s, got %s" % (tname(c.ret), masked(c.rb, c.res), masked(got, c.res))
    return None

def sig(c):
    s = "%s %s(%s) args (%s)" % ("callee" if c.callee else "caller", c.style, ",".join(c.params), ",".join(a["t"] + ("*" if a["sub"] else "") for a in c.args))
    return s + " ret " + (sudef(c.ret) if c.ret["k"] == "su" else tname(c.ret))

def make(r, count, kinds=(False, True)):
    cases, allc = [], []
    n = 1
    for k in range(count):
        for ce in kinds:
            c = mkcase(r, n, ce); n += 1
            cases.append(c); allc.append(c)
            if not ce and r.random() < .35:
                for a in c.args:
                    if r.random() < .3:
                        s = mkcase(r, n, False, nested=True); n += 1
                        s.ret = {"k": "p", "t": a["t"]}; a["sub"] = s; allc.append(s)
    return cases, allc

def knr_float(rep):
    """6.9.1p10/6.5.2.2p6: an old-style definition's float parameter is passed as the promoted double"""
    text = "float callee(a, f) int a; float f; { return f; }\nint main(void){ float (*p)() = (float (*)())callee; return p(1, 2.5) == 2.5f ? 0 : 7; }"
    r = build_run(text)
    if r["stage"] != "run" or r["rc"]: rep.violation("knr-float", "an old-style definition with a float parameter doesn't receive the promoted double argument (status %s)" % r["rc"], {"program.c": text})

def go(rep):
    build_ucc(); rt_obj(); knr_float(rep)
    r = rng("C10")
    cases, allc = make(r, 6000 if THOROUGH else 700)
    res = tlc_cases("Abi", [spec(c) for c in allc], inv=INV)
    for k, c in enumerate(allc):
        c.res = res[k][0]
        c.rb = retbytes(r, c.res)
    for c in allc:       # a nested call's value is the argument's
        for a in c.args:
            if a["sub"]: a["sub"].rb = bytes(word(a["v"])[:a["sub"].res["size"]])
    B = 20
    jobs = [("C10/%d" % SEED, cases[k:k + B], ABIOPTS[(k // B) % len(ABIOPTS)]) for k in range(0, len(cases), B)]
    for l in pmap(check, jobs):
        for c, o, d, f in l: rep.violation(sig(c), "options %s: %s" % (" ".join(o), d), f)
    rep.cov.update(traces_validated_against_impl=len(allc), arguments=sum(len(c.args) for c in allc), aggregates_returned=sum(c.ret["k"] == "su" for c in allc),
                   callers=sum(not c.callee for c in cases), callees=sum(c.callee for c in cases), stack_arguments=sum(c.res["stk"] for c in allc))
    rep.sample({"signature": sig(cases[0]), "places": cases[0].res["locs"]})

if __name__ == "__main__": main(go, "C10", "model_checking")
