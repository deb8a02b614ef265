"""C11: variable argument lists, decided by spec/VaList.tla: scripts of va_start/va_arg/va_copy/va_end and of passing a
va_list on are run in functions compiled by ucc or gcc, called from either and calling helpers of either."""
import struct
from vlib import *
from ctype import *
import c01, c10
from c10 import val, psz, INTLIKE, SCAL, declp

INV = ["TypeOK", "Refines", "Bounds", "Independent", "Legal", "AllEnded"]
RETS = {"void": ("void", 0, "return;"), "int": ("int", 0, "return 5;"), "double": ("double", 0, "return 2.5;"),
        "mem": ("struct big", 1, "return gbig;"), "regs": ("struct two", 0, "return gtwo;")}
FULL = ["int", "uint", "long", "ulong", "llong", "ullong", "double", "ptr", "enum"]
PROM = lambda t: "double" if t == "float" else t if t in FULL else "int"
FMT = {"int": "%d", "uint": "%u", "long": "%ld", "ulong": "%lu", "llong": "%lld", "ullong": "%llu", "double": "%.17g", "enum": "%u"}

class Case: pass
def unsigned_ok(t, v):
    return not (v >> (8 * psz(t) - 1)) & 1
def pyconv(v, t):
    return v & ((1 << 8 * psz(t)) - 1)
FLIP = {"int": "uint", "uint": "int", "long": "ulong", "ulong": "long", "llong": "ullong", "ullong": "llong"}
def readtype(r, c, k):
    """a type argument k may be read as"""
    p = PROM(c.args[k]["t"])
    if p == "enum": return r.choice(["enum", "uint"])
    small = c.args[k]["t"] == p
    if p in FLIP and small and unsigned_ok(p, pyconv(c.args[k]["v"], p)) and r.random() < .2: return FLIP[p]
    return p
def mkcase(r, n):
    c = Case(); c.n = n
    heavy = r.choice([[], [], ["double"], ["int", "long"], ["double", "float"]])
    pool = heavy or SCAL
    np = r.choice([1, 1, 1, 2, 3, 5, 6, 7, 8, 9, 11, 15])
    c.params = [r.choice(pool if r.random() < .7 else SCAL) for _ in range(np - 1)] + [r.choice(FULL[:8])]
    pool = r.choice([SCAL, SCAL, ["double", "float"], ["int", "long", "ptr"], ["double", "int"], ["char", "short", "float"], ["long"]])
    nv = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 19, 24])
    c.args = []
    for t in c.params + [r.choice(pool) for _ in range(nv)]:
        c.args.append({"t": t, "v": val(r, t)})
    c.retk = r.choice(["void", "int", "double", "mem", "mem", "regs"])
    c.hidden = RETS[c.retk][1]
    c.callee = r.choice(["ucc", "ucc", "ucc", "ucc", "gcc"]); c.caller = r.choice(["ucc", "ucc", "gcc"])
    # the script
    cur = [0] * 5; s = []
    NP = len(c.params); NA = len(c.args)
    for _ in range(r.choice([3, 6, 10, 16, 25])):
        live = [v for v in range(1, 5) if cur[v] > 0]; free = [v for v in range(1, 5) if cur[v] == 0]; dead = [v for v in range(1, 5) if cur[v] < 0]
        p = r.random()
        if not live or (p < .08 and free):
            if not free: v = r.choice(dead); s.append({"op": "end", "v": v}); cur[v] = 0; continue
            v = r.choice(free); s.append({"op": "start", "v": v}); cur[v] = NP + 1
        elif p < .15 and free:
            v = r.choice(live); d = r.choice(free); s.append({"op": "copy", "d": d, "v": v}); cur[d] = cur[v]
        elif p < .2:
            v = r.choice(live + dead); s.append({"op": "end", "v": v}); cur[v] = 0
        elif p < .35:
            v = r.choice(live); left = NA - cur[v] + 1; q = r.choice([left, r.randint(0, left)])
            ptr = r.random() < .5
            op = {"op": "pass", "v": v, "ts": [readtype(r, c, cur[v] - 1 + a) for a in range(q)], "ptr": ptr, "h": r.choice(["ucc", "gcc", "gcc", "chain", "fmt"])}
            if op["h"] == "fmt":
                if ptr or not op["ts"] or "ptr" in op["ts"]: op["h"] = "gcc"
            s.append(op); cur[v] = cur[v] + q if ptr else -1
        else:
            v = r.choice(live)
            k = r.choice([1, 1, 2, 3, 8, 20])
            while k and cur[v] <= NA:
                s.append({"op": "arg", "v": v, "t": readtype(r, c, cur[v] - 1)}); cur[v] += 1; k -= 1
    for v in range(1, 5):
        if cur[v]: s.append({"op": "end", "v": v})
    nr = 0
    for k, o in enumerate(s):
        if nr > 180 : break
        nr += 1 if o["op"] == "arg" else len(o.get("ts", ()))
    c.script = s
    c.ok = nr <= 190
    return c
def spec(c):
    return {"id": c.n, "params": c.params, "hidden": bool(c.hidden), "args": [{"t": a["t"], "v": word(a["v"])} for a in c.args], "script": [{k: v for k, v in o.items() if k != "h"} for o in c.script]}

COMMON = c01.PRE + """
typedef __builtin_va_list va_list;
#define va_start(l, a) __builtin_va_start(l, a)
#define va_arg(l, t) __builtin_va_arg(l, t)
#define va_end(l) __builtin_va_end(l)
#define va_copy(d, s) __builtin_va_copy(d, s)
enum en { EN0 }; int ev(int); extern int vl2, one; void vfill(void *, unsigned long, int);
struct big { long a[5]; }; struct two { long a; double b; };
extern struct big gbig; extern struct two gtwo;
typedef char *strt;
int vsnprintf(char *, unsigned long, const char *, va_list);
unsigned long strlen(const char *);
"""
TN = lambda t: declp(t, "").strip()
def ptrtype(r): return "void *"

def helper(r, c, pc, o, base, comp, ucc, gcc):
    """text of the function a va_list is passed to; appends to ucc/gcc lists"""
    name = "h%d_%d" % (c.n, pc)
    def body(lo, hi, acc):
        b = []
        for a in range(lo, hi):
            t = o["ts"][a]
            b.append("{ %s = va_arg(%s, %s); outmem(%d, &x, sizeof x); }" % (declp(t, "x"), acc, TN(t), base + a))
        return b
    sg = "void %s(va_list %s)" % (name, "*ap" if o["ptr"] else "ap")
    acc = "*ap" if o["ptr"] else "ap"
    me, other = (ucc, gcc) if comp != "gcc" else (gcc, ucc)
    if comp == "fmt":
        fmt = " ".join(FMT[t] for t in o["ts"])
        me.append("%s{ char b[4000]; vsnprintf(b, sizeof b, \"%s\", ap); outmem(%d, b, strlen(b)); }" % (sg, fmt, base))
    elif comp == "chain":
        k = r.randint(0, len(o["ts"]))
        other.append("void %s_b(va_list %s){ %s }" % (name, "*ap" if o["ptr"] else "ap", " ".join(body(k, len(o["ts"]), acc))))
        me.append("void %s_b(va_list %s);" % (name, "*ap" if o["ptr"] else "ap"))
        me.append("%s{ %s %s_b(ap); }" % (sg, " ".join(body(0, k, acc)), name))
    else:
        me.append("%s{ %s }" % (sg, " ".join(body(0, len(o["ts"]), acc))))
    return sg + ";"

def program(seed, batch):
    ucc, gcc, umain, data = [], [], [], []
    for c in batch:
        r = random.Random("%s/%d" % (seed, c.n)); n = c.n
        ret, _, rs = RETS[c.retk]
        me = ucc if c.callee == "ucc" else gcc
        b = []; glob = []
        # where the objects live
        hold = {}
        for v in range(1, 5):
            k = r.choice(["l", "l", "l", "s", "g", "m", "a", "p"])
            if k == "l": b.append("va_list v%d;" % v); hold[v] = "v%d" % v
            elif k == "s": b.append("static va_list v%d;" % v); hold[v] = "v%d" % v
            elif k == "g": glob.append("static va_list v%d_%d;" % (n, v)); hold[v] = "v%d_%d" % (n, v)
            elif k == "m": b.append("struct { int pad; va_list l; } m%d;" % v); hold[v] = "m%d.l" % v
            elif k == "a": b.append("va_list v%d[2];" % v); hold[v] = "v%d[one]" % v
            else: b.append("va_list v%d, *pl%d = &v%d;" % (v, v, v)); hold[v] = "(*pl%d)" % v
        ctx = r.random()
        if ctx < .2: b.append("char vl[vl2 + 9]; vfill(vl, sizeof vl, 3);")
        elif ctx < .4: b.append("struct { char b[100]; } big = {{1,2,3}}; vfill(&big, 100, 0);")
        elif ctx < .5: b.append("ev(0);")
        b.append("long lv = vl2; lv *= 3;")
        base = n * 200; j = 0; pc = 0
        while pc < len(c.script):
            o = c.script[pc]; h = hold[o["v"]]
            if o["op"] == "start": b.append("va_start(%s, p%d);" % (h, len(c.params) - 1) if r.random() < .9 else "if(one) va_start(%s, p%d);" % (h, len(c.params) - 1))
            elif o["op"] == "end": b.append("va_end(%s);" % h)
            elif o["op"] == "copy": b.append("va_copy(%s, %s);" % (hold[o["d"]], h))
            elif o["op"] == "pass":
                glob.append(helper(r, c, pc, o, base + j, o["h"], ucc, gcc))
                b.append("h%d_%d(%s%s);" % (n, pc, "&" if o["ptr"] else "", h)); j += len(o["ts"])
            else:
                t = o["t"]; q = 1
                while pc + q < len(c.script) and c.script[pc + q] == o: q += 1
                a = "va_arg(%s, %s)" % (h, TN(t))
                if q > 1 and r.random() < .6:
                    b.append("for(int q = 0; q < %d; q++){ %s = %s; outmem(%d + q, &x, sizeof x); }" % (q, declp(t, "x"), a, base + j)); j += q; pc += q; continue
                id = base + j; j += 1; D = declp(t, "x")
                f = r.random(); O = "outmem(%d, &x, sizeof x);" % id
                if f < .35: b.append("{ %s = %s; %s }" % (D, a, O))
                elif f < .45: b.append("{ %s; x = one ? %s : 0; %s }" % (D, a, O))
                elif f < .55: b.append("{ %s[2]; x[one] = %s; outmem(%d, &x[1], sizeof *x); }" % (D, a, id))
                elif f < .65: b.append("{ %s = (ev(1), %s); %s }" % (D, a, O))
                elif f < .75: b.append("{ %s, *q = &x; *q = %s; %s }" % (D, a, O) if t != "ptr" else "{ void *x, **q = &x; *q = %s; %s }" % (a, O))
                elif f < .85 and t not in ("ptr", "enum", "double"): b.append("{ %s = lv + %s - lv; %s }" % (D, a, O))
                elif f < .95: b.append("outv_%s(%d, %s);" % (t, id, a))
                else: b.append("if(one){ %s = %s; do{ %s }while(0); } else { ev(2); }" % (D, a, O))
            pc += 1
        b.append("out2(%d, 7, lv - vl2 * 3);" % n)
        sg = "%s vf%d(%s, ...)" % (ret, n, ", ".join(declp(t, "p%d" % k) for k, t in enumerate(c.params)))
        me.extend(glob)
        # named parameters still arrive
        for k in range(len(c.params)):
            if r.random() < .4: b.insert(r.choice([4, len(b)]), "outmem(%d, &p%d, sizeof p%d);" % (10 ** 7 + n * 50 + k, k, k)); c.checked = getattr(c, "checked", set()) | {k}
        me.append("%s{ %s %s }" % (sg, " ".join(b), rs))
        call = []; tx = ["%s;" % sg]
        for k, a in enumerate(c.args):
            data.append(("g%d_%d" % (n, k), word(a["v"])[:psz(a["t"])])); tx.append("extern %s;" % declp(a["t"], "g%d_%d" % (n, k))); call.append("g%d_%d" % (n, k))
        chk = {"void": "vf%d(%s);", "int": "out2(%d, 8, vf%%d(%%s) == 5);" % n, "double": "out2(%d, 8, vf%%d(%%s) == 2.5);" % n,
               "mem": "struct big r = vf%%d(%%s); out2(%d, 8, r.a[4] == 99);" % n, "regs": "struct two r = vf%%d(%%s); out2(%d, 8, r.a == 7 && r.b == 1.25);" % n}[c.retk]
        tx.append("void call%d(void){ %s }" % (n, chk % (n, ", ".join(call))))
        (ucc if c.caller == "ucc" else gcc).extend(tx)
        umain.append("call%d(); flush_out();" % n)
    OUTV = "\n".join("static void outv_%s(int id, %s){ outmem(id, &x, sizeof x); }" % (t, declp(t, "x")) for t in FULL)
    u = COMMON + OUTV + "\n" + "\n".join(ucc) + "\n" + "\n".join("void call%d(void);" % c.n for c in batch) + "\nint main(void){\n" + "\n".join(umain) + "\nreturn 0; }\n"
    g = COMMON + OUTV + "\nint one = 1; struct big gbig = {{1,2,3,4,99}}; struct two gtwo = {7, 1.25};\n" + "\n".join(gcc) + "\n"
    s = ".data\n" + "\n".join(".balign 16\n.globl %s\n%s: .byte %s" % (n, n, c10.bytelist(b)) for n, b in data) + "\n.section .note.GNU-stack,\"\",@progbits\n"
    return u, g, s

def build(seed, batch, opts):
    u, g, s = program(seed, batch)
    d = tempfile.mkdtemp(prefix="h", dir=scratch())
    try:
        open(d + "/h.c", "w").write(g); open(d + "/s.s", "w").write(s)
        pic = [] if "-fno-pic" in opts else ["-fPIE"]
        p = subprocess.run(["gcc", "-w", "-O1", *pic, "-r", "-nostdlib", "-o", d + "/x.o", d + "/h.c", d + "/s.s"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: raise CheckError("harness: " + p.stdout.decode()[-2000:])
        r = build_run(u, opts, extra_objs=[d + "/x.o"])
    finally: shutil.rmtree(d, ignore_errors=True)
    return r, {"program.c": u, "gcc.c": g, "data.s": s}

def judge(c, mem, oth):
    for k in sorted(getattr(c, "checked", ())):
        e = bytes(c.res["vals"][k][:psz(c.params[k])]).hex(); gt = mem.get(10 ** 7 + c.n * 50 + k)
        if e != gt: return "named parameter %d (%s): expected %s, got %s" % (k + 1, c.params[k], e, gt)
    j = 0
    for pc, o in enumerate(c.script):
        ts = [o["t"]] if o["op"] == "arg" else o.get("ts", [])
        if o.get("h") == "fmt":
            vs = []
            for t, w in zip(ts, c.res["reads"][j:]):
                x = unword(w)
                if t == "double": vs.append(struct.unpack("<d", x.to_bytes(8, "little"))[0])
                else:
                    x &= (1 << 8 * psz(t)) - 1
                    if t in ("int", "long", "llong") and x >> (8 * psz(t) - 1): x -= 1 << 8 * psz(t)
                    vs.append(x)
            e = " ".join(FMT[t].replace("l", "") for t in ts) % tuple(vs)
            got = bytes.fromhex(mem.get(c.n * 200 + j, "")).decode(errors="replace")
            if e != got: return "vsnprintf at step %d: expected %r, got %r" % (pc + 1, e, got)
            j += len(ts); continue
        for t in ts:
            e = bytes(c.res["reads"][j][:psz(t)]).hex(); gt = mem.get(c.n * 200 + j)
            if e != gt: return "step %d (%s%s) reads %s: expected %s, got %s" % (pc + 1, o["op"], " " + o["h"] if "h" in o else "", t, e, gt)
            j += 1
    if oth.get("%d.7" % c.n) != 0: return "the function did not finish, or a local changed"
    if c.retk != "void" and oth.get("%d.8" % c.n) != 1: return "wrong return value"
    return None

def check(job):
    seed, batch, opts = job
    r, files = build(seed, batch, opts)
    if r["stage"] != "run" or r["rc"] != 0:
        if len(batch) == 1: return [(batch[0], opts, "%s failed with status %s: %s" % (r["stage"], r["rc"], r["out"][-400:]), files)]
        h = len(batch) // 2
        return check((seed, batch[:h], opts)) + check((seed, batch[h:], opts))
    mem, oth = {}, {}
    for l in r["out"].split("\n"):
        p = l.split()
        if len(p) == 2 and "." not in p[0]: mem[int(p[0])] = p[1]
        elif len(p) == 2: oth[p[0]] = int(p[1], 16)
    bad = []
    for c in batch:
        d = judge(c, mem, oth)
        if d: bad.append((c, opts, d, dict(zip(("program.c", "gcc.c", "data.s"), program(seed, [c])))))
    return bad
def sig(c):
    def st(o):
        return "%s%s%d%s" % (o["op"], "%d=" % o["d"] if "d" in o else " ", o["v"], ":" + o["t"] if "t" in o else (":%s%s(%s)" % (o["h"], "*" if o["ptr"] else "", ",".join(o["ts"])) if "ts" in o else ""))
    return "%s->%s %s (%s) args (%s) {%s}" % (c.caller, c.callee, c.retk, ",".join(c.params), ",".join(a["t"] for a in c.args[len(c.params):]), "; ".join(st(o) for o in c.script))

def go(rep):
    r = rng("C11")
    build_ucc(); rt_obj()
    cases = []
    while len(cases) < (6000 if THOROUGH else 640):
        c = mkcase(r, len(cases) + 1)
        if c.ok: cases.append(c)
    res = tlc_cases("VaList", [spec(c) for c in cases], inv=INV, props=["InOrder"])
    for k, c in enumerate(cases): c.res = res[k][0]
    B = 16
    jobs = [("C11/%d" % SEED, cases[k:k + B], c10.ABIOPTS[(k // B) % len(c10.ABIOPTS)]) for k in range(0, len(cases), B)]
    for l in pmap(check, jobs):
        for c, o, d, f in l: rep.violation(sig(c), "options %s: %s" % (" ".join(o), d), f)
    rep.cov.update(traces_validated_against_impl=len(cases), script_steps=sum(len(c.script) for c in cases), reads=sum(len(c.res["reads"]) for c in cases),
                   lists_passed_on=sum(o["op"] == "pass" for c in cases for o in c.script), copies=sum(o["op"] == "copy" for c in cases for o in c.script))
    rep.sample({"case": sig(cases[0])})

if __name__ == "__main__": main(go, "C11", "model_checking")
