"""C02: constant expressions. The specification (spec/CEval.tla) evaluates the expression; every context in which
the compiler must evaluate it itself has to behave as that value."""
import json
from vlib import *
from cexpr import *
import c01

def AND(e, m): return {"k": "bin", "op": "&", "l": e, "r": {"k": "num", "base": 10, "suf": "", "v": word(m)}}
def ADD1(e): return {"k": "bin", "op": "+", "l": e, "r": {"k": "num", "base": 10, "suf": "", "v": word(1)}}
def CAST(t, e): return {"k": "cast", "t": t, "e": e}
SW = ["int", "uint", "long", "ulong", "llong", "ullong"]

# sink: (wrap(e, st) -> expression given to the spec and rendered as %E, toplevel text, body, expected(value, st) -> {suffix: value})
def mk(n, c):
    s, t = c["sink"], c.get("st", "int")
    E = render(c["w"], {}); T = CN[t]
    V = typed_lit(c["val"], t) if "val" in c else "0"
    W = typed_lit(c["val"] ^ 1, t) if "val" in c else "0"
    U = "(unsigned long)"
    if s == "global": return "%s g%d = %s;" % (T, n, E), "out(%d, %sg%d);" % (n, U, n)
    if s == "static": return "", "static %s v = %s; out(%d, %sv);" % (T, E, n, U)
    if s == "member": return "struct { char c; %s m; char d; } g%d[2] = { {1,2,3}, { 1, .m = %s, 1 } };" % (T, n, E), "out(%d, %sg%d[1].m);" % (n, U, n)
    if s == "enum": return "enum { e%d = %s };" % (n, E), "out(%d, %s(long)e%d);" % (n, U, n)
    if s == "enum2": return "enum { e%d = %s, f%d };" % (n, E, n), "out(%d, %s(long)f%d);" % (n, U, n)
    if s == "bound": return "char g%d[%s];" % (n, E), "out(%d, sizeof g%d);" % (n, n)
    if s == "bound2": return "", "struct { char c; short q[%s]; } v; out(%d, sizeof v.q / 2);" % (E, n)
    if s == "tybound": return "", "out(%d, sizeof(char[%s]));" % (n, E)
    if s == "case": return "int f%d(%s x){ switch(x){ case %s: return 1; default: return 2; } }" % (n, T, E), "out(%d, f%d(%s)*10 + f%d(%s));" % (n, n, V, n, W)
    if s == "case2": return "int f%d(%s x){ int k = 0; switch(x){ case %s: k = 3; case %s: k += 4; } return k; }" % (n, T, E, W), "out(%d, f%d(%s)*10 + f%d(%s));" % (n, n, V, n, W)
    if s == "bits": return "struct { unsigned a : 3; unsigned long f : %s; } g%d;" % (E, n), "g%d.f = -1; out(%d, g%d.f);" % (n, n, n)
    if s == "sassert": return "_Static_assert(%s == %s, \"x\");" % (E, V), "out(%d, 1);" % n
    if s == "choose": return "", "out(%d, __builtin_choose_expr(%s, 11, 22));" % (n, E)
    if s == "constp": return "", "out(%d, __builtin_constant_p(%s));" % (n, E)
    if s == "alignas": return "", "_Alignas(1 << %s) static char v; out(%d, _Alignof(v));" % (E, n)
    if s == "desig": return "char g%d[] = { [%s] = 5 };" % (n, E), "out(%d, sizeof g%d * 10 + g%d[sizeof g%d - 1]);" % (n, n, n, n)
    if s == "addr": return "short a%d[64]; short *p%d = &a%d[%s];" % (n, n, n, E), "out(%d, p%d - a%d);" % (n, n, n)
    if s == "addr2": return "struct { long x; char c[64]; } a%d[3]; char *p%d = 5 + a%d[1].c + (%s) - 2;" % (n, n, n, E), "out(%d, p%d - (char *)a%d);" % (n, n, n)
    if s == "addr3": return "int *p%d = (int *)((%s) * 4ul);" % (n, E), "out(%d, %sp%d);" % (n, U, n)
    if s == "addr4": return "int a%d[4][8]; int *p%d = (int *)((char *)a%d[2] - (%s) * 4);" % (n, n, n, E), "out(%d, p%d - a%d[0]);" % (n, n, n)
    if s == "fold": return "", "out(%d, %s(%s));" % (n, U, E)
    if s == "if": return "", "if(%s) out(%d, 1); else out(%d, 0);" % (E, n, n)
    if s == "sw": return "", "switch(%s){ case %s: out(%d, 1); break; default: out(%d, 0); }" % (CT(E, t), V, n, n)
def CT(E, t): return "(%s)%s" % (CN[t], E)

def wrap(e, s, t):
    if s in ("global", "static", "member", "case", "case2", "sassert", "fold", "sw"): return CAST(t, e) if s in ("case", "case2", "sassert", "sw") else e
    if s == "enum": return CAST("int", e)
    if s == "enum2": return AND(CAST("int", e), 0x7ffffff)
    if s in ("bound", "bound2", "tybound"): return ADD1(AND(e, 1023))
    if s == "bits": return ADD1(AND(e, 60))
    if s == "alignas": return AND(e, 7)
    if s in ("desig", "addr", "addr2", "addr3"): return AND(e, 63)
    if s == "addr4": return AND(e, 15)
    return e
def final(w, s, t):
    if s in ("global", "static", "member"): return CAST(t, w)
    if s in ("choose", "if"): return {"k": "truth", "e": w}
    return w
def expect(c, v):
    s = c["sink"]
    M = lambda x: x & ((1 << 64) - 1)
    sv = v - (1 << 64) if v >> 63 else v
    if s == "enum2": return M(sv + 1)
    if s in ("case", "sw"): return 12 if s == "case" else 1
    if s == "case2": return 74
    if s == "bits": return (1 << v) - 1
    if s in ("sassert", "constp"): return 1
    if s == "choose": return 11 if v else 22
    if s == "alignas": return 1 << v
    if s == "desig": return (v + 1) * 10 + 5
    if s == "addr2": return 72 + 8 + v + 3
    if s == "addr3": return 4 * v
    if s == "addr4": return 16 - v
    return v

SINKS = ["global", "static", "member", "enum", "enum2", "bound", "bound2", "tybound", "case", "case2", "bits", "sassert", "sassert",
         "choose", "constp", "alignas", "desig", "addr", "addr2", "addr3", "addr4", "fold", "fold", "if", "sw"]

def program(batch):
    tops, calls = [], []
    for n, c in batch:
        t, b = mk(n, c); tops.append(t); tops.append("void t%d(void){ %s }" % (n, b)); calls.append("t%d();" % n)
    return c01.PRE + "\n".join(tops) + "\nint main(void){\n" + "\n".join("%s flush_out();" % x for x in calls) + "\nreturn 0; }\n"

def make(r, n):
    cs = []
    def add(e, s=None):
        s = s or r.choice(SINKS)
        t = r.choice(SW) if s in ("case", "case2", "sw", "sassert") else r.choice(TYPES)
        cs.append({"sink": s, "st": t, "w": wrap(e, s, t), "e": e})
    L = lambda t, v=None: Gen(r, const=True).lit(t=t, val=v)
    for op in ARITH + REL + SH:
        for ta in TYPES:
            for tb in TYPES:
                for _ in range(6 if THOROUGH else 1):
                    y = L(tb, conv(r.choice([0, 1, 5, 7, 8, 15, 16, 31, 32, 63]), tb) if op in SH else None)
                    add({"k": "bin", "op": op, "l": L(ta), "r": y}, r.choice(["fold", "global", "sassert", None]))
    for ta in TYPES:
        for tb in TYPES:
            x = L(ta)
            if r.random() < .4: x = {"k": "un", "op": r.choice("~-!+"), "e": x}
            add(CAST(tb, x), r.choice(["fold", "global", "sassert", None]))
    while len(cs) < n:
        g = Gen(r, const=True)
        add(g.expr(r.choice([0, 1, 1, 2, 2, 3, 4])))
    return cs

def go(rep):
    r = rng("C02")
    cases = make(r, 30000 if THOROUGH else 6000)
    build_ucc(); rt_obj()
    res = tlc_cases("RunEval", [final(c["w"], c["sink"], c["st"]) for c in cases], inv=["TypeOK"])
    res = {k: v[0] for k, v in res.items()}
    ok = []
    for n, c in enumerate(cases):
        if res[n]["ub"]: continue
        v = unword(res[n]["v"])
        c["val"] = v
        ok.append((n, c))
    exp = lambda c, n, rs: {"%d" % n: expect(c, unword(rs["v"]))}
    B = 60
    optsets = [(), (), ("-O2",), ("-fpic",), ()]
    jobs = [(ok[k:k + B], optsets[(k // B) % len(optsets)]) for k in range(0, len(ok), B)]
    outs = pmap(lambda j: [(x, j[1]) for x in c01.check_batch(j[0], res, j[1], program, exp)], jobs)
    for l in outs:
        for (n, desc, src), o in l:
            rep.violation("%s: %s" % (cases[n]["sink"], render(cases[n]["w"], {})), "context %s %s, expression %s: %s" % (cases[n]["sink"], cases[n]["st"], render(cases[n]["w"], {}), desc), {"program.c": src})
    # judgements: a false assertion / duplicate case label must be rejected, with exactly that value
    neg = [(n, c) for n, c in ok if c["sink"] in ("sassert", "case", "case2")][: 3000 if THOROUGH else 500]
    def bad(nc):
        n, c = nc; E = render(c["w"], {}); V = typed_lit(c["val"], c["st"])
        if c["sink"] == "sassert": src = "_Static_assert(%s != %s, \"x\");\nint x;\n" % (E, V)
        else: src = "int f(%s x){ switch(x){ case %s: return 1; case 1 ? %s : 0: return 2; } return 3; }\n" % (CN[c["st"]], E, V)
        d = newdir(); f = os.path.join(d, "a.c"); open(f, "w").write(src)
        rc, o, _ = run([ucc(), "-w", "-c", "-o", os.path.join(d, "a.o"), f], merge=True)
        left = os.path.exists(os.path.join(d, "a.o"))
        shutil.rmtree(d)
        if rc == 0 or left or not isinstance(rc, int) or rc < 0: return n, src, rc, o.decode(errors="replace")
    for b in pmap(bad, neg):
        if b: rep.violation("accepts " + b[1].split("\n")[0], "constraint violation not diagnosed (status %s): %s" % (b[2], b[3]), {"program.c": b[1]})
    rep.cov.update(traces_validated_against_impl=len(ok) + len(neg), cases_generated=len(cases), rejected_as_required=len(neg), contexts=len(set(SINKS)))
    for n, c in ok[:2] + ok[-2:]: rep.sample({"context": c["sink"], "expr": render(c["w"], {}), "value": "%x" % c["val"]})

if __name__ == "__main__": main(go, "C02", "model_checking")
