"""C21: overflow / undefined-behaviour checks and overflow builtins, decided by spec/Sanitize.tla."""
import json
from vlib import *
from cexpr import *

ON = {"-ftrapv": ["ovf"], "-fsanitize=signed-integer-overflow": ["ovf"], "-fsanitize=shift": ["shift"], "-fsanitize=shift-exponent": ["shift"],
      "-fsanitize=integer-divide-by-zero": ["div"], "-fsanitize=bounds": ["bounds"], "-fsanitize=null": ["null"], "-fsanitize=alignment": ["align"],
      "-fsanitize=bool": ["bool"], "-fsanitize=vla-bound": ["vla"], "-fsanitize=unreachable": ["unreach"],
      "-fsanitize=nonnull-attribute": ["nonnull"], "-fsanitize=returns-nonnull-attribute": ["retnn"],
      "-fsanitize=undefined": ["ovf", "shift", "div", "bounds", "null", "align", "bool", "vla", "unreach", "nonnull", "retnn"]}
OPTSETS = [(k,) for k in ON] + [("-fsanitize=undefined",)] * 6 + [("-ftrapv",)] * 3 + [("-ftrapv", "-fsanitize=shift"), ("-fsanitize=undefined", "-fno-const-fold"), ("-ftrapv", "-fno-const-fold"),
           ("-fsanitize=signed-integer-overflow", "-fsanitize=integer-divide-by-zero"), (), ("-ftrapv", "-fno-pic"), ("-fsanitize=undefined", "-fno-sanitize=all"), ("-fsanitize=undefined", "-fstack-protector-all"),
           ("-fsanitize=null", "-fsanitize=bool", "-fsanitize=alignment")]
def enabled(o):
    s = []
    for x in o:
        if x == "-fno-sanitize=all": s = []
        s += ON.get(x, [])
    return sorted(set(s))

class G(Gen):
    def leaf(self, small=False):
        if self.r.random() < .12 and not self.nolit: return Gen.leaf(self, small)
        r = self.r
        t = r.choice(self.types)
        val = conv(r.choice([0, 1, 2, 7, 8, 15, 16, 31, 31, 32, 33, 63, 64, -1, 200]), t) if small else None
        v = self.var(t, val=val)
        return {"k": "var", "id": v["id"], "t": v["t"], "v": word(v["v"])}
    nolit = True
    def lit(self, t=None, val=None):
        return Gen.lit(self, t, val)

EDGE = lambda r, t: conv(r.choice([(1 << (8 * size(t) - 1)) - 1, (1 << (8 * size(t) - 1)), (1 << (8 * size(t))) - 1, -1, 0, 1, 2, (1 << (8 * size(t) - 1)) - 2, (1 << (4 * size(t))), (1 << (4 * size(t))) - 1, 1 << (8 * size(t) - 2)]), t)
def single(r):
    g = G(r, places=["g", "l", "a", "m", "c", "s", "d", "e", "v"])
    ty = ["int"] * 4 + ["long"] * 3 + ["llong"] + TYPES
    ta, tb = r.choice(ty), r.choice(ty)
    k = r.random()
    def var(t, place=None, val=None):
        v = g.var(t, place=place, val=val if val is not None else EDGE(r, t) if r.random() < .6 else None)
        return {"k": "var", "id": v["id"], "t": t, "v": word(v["v"])}
    if k < .12: return {"k": "un", "op": "-", "e": var(ta)}, g
    lv = [p for p in "glamsdev"]
    if k < .22:
        a = var(ta, r.choice(lv)); return dict(a, k=r.choice(["pre", "post"]), op=r.choice("+-")), g
    op = r.choice(["+", "-", "*", "+", "-", "*", "/", "%", "<<", ">>", "&", "<"])
    def rhs():
        sv = conv(r.choice([0, 1, 5, 7, 8, 15, 16, 30, 31, 32, 33, 62, 63, 64, -1, -5, 127, 1 << 31]), tb) if op in SH else conv(r.choice([0, -1, 1, 2, 7, -3]), tb) if op in "/%" else None
        if r.random() < .25: return {"k": "lit", "t": tb, "v": word(sv if sv is not None else EDGE(r, tb))}
        return var(tb, val=sv)
    if k < .4 and op not in ("<",):
        a = var(ta, r.choice(lv)); b = rhs()
        return {"k": "cas", "op": op, "id": a["id"], "t": ta, "v": a["v"], "e": b}, g
    a = var(ta); b = rhs()
    if r.random() < .1 and op not in SH and b["k"] == "var": a = {"k": "lit", "t": ta, "v": word(EDGE(r, ta))}
    if op == "%" or op == "/":
        if b["k"] == "lit" and unword(b["v"]) == 0: b = var(tb, val=0)       # diagnosed at compile time
    if op in SH and b["k"] == "lit": b = var(tb, val=unword(b["v"]))      # likewise
    return {"k": "bin", "op": op, "l": a, "r": b}, g

def allconst(e): return e["k"] in ("lit", "num", "sizeof", "sizeoft") or (e["k"] not in ("var", "asg", "cas", "pre", "post", "bf") and all(allconst(e[f]) for f in "elrc" if isinstance(e.get(f), dict)))

SZT = {"char": 1, "short": 2, "int": 4, "long": 8, "double": 8, "struct p": 8}
def op(r, on):
    kinds = ["expr"] * 6 + ["nest"] * 2 + ["ovfb"]
    for a, b in (("bounds", "idx"), ("null", "load"), ("align", "load"), ("bool", "bool"), ("vla", "vla"), ("unreach", "unreach"), ("nonnull", "nonnull"), ("retnn", "retnn")):
        kinds += [b] * (5 if a in on and len(on) < 4 else 1)
    k = r.choice(kinds)
    if k == "expr":
        e, g = single(r); return {"k": "expr", "e": e, "vars": g.vars}
    if k == "nest":
        while True:
            g = G(r, places=["g", "l", "a", "m", "c", "s", "d", "e", "v"]); e = g.expr(r.choice([1, 2, 2, 3]))
            if not any(allconst(x) and x["k"] not in ("lit", "num") for x in nodes(e)): return {"k": "expr", "e": e, "vars": g.vars}
    if k == "ovfb":
        ts = [t for t in TYPES]; tr = r.choice([t for t in TYPES if t != "bool"])
        ta, tb = r.choice(ts), r.choice(ts)
        if r.random() < .5: ta = tb = tr
        v = lambda t: EDGE(r, t) if r.random() < .6 else interesting(r, t)
        return {"k": k, "op": r.choice("+-*"), "ta": ta, "a": word(v(ta)), "tb": tb, "b": word(v(tb)), "tr": tr, "form": r.choice("glc")}
    if k == "idx":
        n = r.choice([1, 2, 3, 4, 7, 100]); i = r.choice([-1, 0, n - 1, n, n + 1, r.randrange(n), -n, 1000, -100000])
        t = r.choice(["char", "schar", "short", "int", "uint", "long", "uchar", "ushort", "ulong"])
        if conv(i, t) != i: i = r.choice([0, 1])
        if i > n and conv(i, t) != i: i = 0
        return {"k": k, "n": n, "i": i, "t": t, "at": r.random() < .4, "sz": 0, "ety": r.choice(["char", "short", "int", "long"]), "vla": r.random() < .3, "form": r.randrange(4), "nt": r.choice(["int", "long", "char", "ulong"])}
    if k == "load":
        t = r.choice(["short", "int", "long", "llong", "char", "ushort"]); al = size(t)
        return {"k": k, "t": t, "align": al, "null": r.random() < .3, "off": r.choice([0, 8, al, 16] + [r.randrange(16)] * 3), "v": word(interesting(r, t)), "form": r.randrange(3)}
    if k == "bool": return {"k": k, "byte": r.choice([0, 1, 0, 1, 2, 3, 128, 255, 254])}
    if k == "vla": return {"k": k, "n": r.choice([-1, 0, 1, 2, 5, -100, 30]), "t": r.choice(["int", "long", "short", "schar", "char"]), "sz": r.choice([1, 2, 4, 8])}
    if k == "unreach": return {"k": k, "c": r.random() < .4}
    return {"k": k, "null": r.random() < .4, "form": r.randrange(3)}

PRE = """void out2(int, int, unsigned long); void guard(int, void (*)(void)); void flush_out(void); int strcmp(const char *, const char *);
"""
RTG = r'''
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
static sigjmp_buf jb; static int cur, armed;
void out2(int,int,unsigned long); void flush_out(void);
void san_err(void){ if(armed) siglongjmp(jb, 77); }
static void h(int s){ if(armed) siglongjmp(jb, s); signal(s, SIG_DFL); raise(s); }
void guard(int n, void (*f)(void)){
  static int init; if(!init){ init=1; struct sigaction a={0}; a.sa_handler=h; a.sa_flags=SA_NODEFER; sigaction(SIGILL,&a,0); sigaction(SIGFPE,&a,0); sigaction(SIGSEGV,&a,0); sigaction(SIGBUS,&a,0); }
  int r; cur=n; armed=1;
  if(!(r=sigsetjmp(jb,1))) f();
  armed=0; out2(n, 9999, r); flush_out(); }
'''
W = {1: "char", 2: "short", 4: "int", 8: "long"}
def place_vars(n, j, vs, top, loc):
    names = {}
    for v in vs:
        t, p, i = CN[v["t"]], v["p"], v["id"]; val = typed_lit(v["v"], v["t"]); nm = "v%d_%d_%d" % (n, j, i)
        if p == "g": top.append("%s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "v": top.append("volatile %s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "s": loc.append("static %s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "l": loc.append("%s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "a": top.append("%s %s[3] = {1,%s,1};" % (t, nm, val)); names[i] = "%s[1]" % nm
        elif p == "e": top.append("%s %s[4] = {1,1,1,%s}; int i%s = 3;" % (t, nm, val, nm)); names[i] = "%s[i%s]" % (nm, nm)
        elif p == "m": top.append("struct s%s { char c; %s m; char d; } %s = {1,%s,1}, *p%s = &%s;" % (nm, t, nm, val, nm, nm)); names[i] = "p%s->m" % nm
        elif p == "d": loc.append("%s o%s = %s; %s *%s = &o%s;" % (t, nm, val, t, nm, nm)); names[i] = "(*%s)" % nm
        elif p == "c": top.append("%s %s(int a, int b){ return a > b ? %s : 0; }" % (t, nm, val)); names[i] = "%s(2,1)" % nm
    return names

def render_case(n, c):
    top, body = [], []
    for j, o in enumerate(c["ops"]):
        k = o["k"]; loc = []
        O = lambda x: "out2(%d, %d, (unsigned long)(%s));" % (n, j, x)
        if k == "expr":
            nm = place_vars(n, j, o["vars"], top, loc)
            b = O(render(o["e"], nm)) + " ".join(O(nm[i]) for i in effs(o["e"]))
        elif k == "ovfb":
            f = {"+": "add", "-": "sub", "*": "mul"}[o["op"]]
            x, y = typed_lit(unword(o["a"]), o["ta"]), typed_lit(unword(o["b"]), o["tb"])
            r = "r%d_%d" % (n, j)
            if o["form"] == "g": top.append("%s x%s = %s; %s y%s = %s; %s %s;" % (CN[o["ta"]], r, x, CN[o["tb"]], r, y, CN[o["tr"]], r)); x, y = "x" + r, "y" + r
            elif o["form"] == "l": loc.append("%s x%s = %s; %s y%s = %s; %s %s = 3;" % (CN[o["ta"]], r, x, CN[o["tb"]], r, y, CN[o["tr"]], r)); x, y = "x" + r, "y" + r
            else: loc.append("%s x%s = %s; %s %s = 3;" % (CN[o["ta"]], r, x, CN[o["tr"]], r)); x = "x" + r
            b = O("__builtin_%s_overflow(%s, %s, &%s)" % (f, x, y, r)) + O(r)
        elif k == "idx":
            a = "a%d_%d" % (n, j); es = SZT[o["ety"]]; o["sz"] = es
            if o["vla"]: loc.append("%s vn%s = %d; %s %s[vn%s];" % (CN[o["nt"]], a, o["n"], o["ety"], a, a))
            elif o["form"] == 3: top.append("%s %s[%d];" % (o["ety"], a, o["n"]))
            else: loc.append("%s %s[%d];" % (o["ety"], a, o["n"]))
            loc.append("{ %s *q = %s; for(int z = 0; z < %d; z++) q[z] = 10 + z; }" % (o["ety"], a, o["n"]))
            loc.append("%s i%s = %d;" % (CN[o["t"]], a, o["i"]))
            x = "i%s" % a
            acc = {0: "%s[%s]" % (a, x), 1: "%s[%s]" % (x, a), 2: "*(%s + %s)" % (a, x), 3: "%s[%s]" % (a, x)}[o["form"]]
            b = O("(char *)&%s - (char *)%s" % (acc, a)) if o["at"] else O(acc)
        elif k == "load":
            m = "m%d_%d" % (n, j); t = CN[o["t"]]
            loc.append("union { char c[64]; long al; } %s; int o%s = %d; { %s t = %s; char *q = (char *)&t; for(unsigned z = 0; z < sizeof t; z++) %s.c[o%s + z] = q[z]; }" % (m, m, o["off"], t, typed_lit(unword(o["v"]), o["t"]), m, m))
            loc.append("%s *p%s = %s;" % (t, m, "0" if o["null"] else "(%s *)(%s.c + o%s)" % (t, m, m)))
            b = O({0: "*p%s", 1: "p%s[0]", 2: "+*p%s"}[o["form"]] % m)
        elif k == "bool":
            m = "b%d_%d" % (n, j); loc.append("unsigned char c%s = %d; _Bool *%s = (_Bool *)&c%s;" % (m, o["byte"], m, m)); b = O("*%s" % m)
        elif k == "vla":
            m = "n%d_%d" % (n, j); loc.append("%s %s = %d;" % (CN[o["t"]], m, o["n"])); b = "{ %s z%s[%s]; %s }" % (W[o["sz"]], m, m, O("sizeof z%s" % m))
        elif k == "unreach":
            m = "u%d_%d" % (n, j); loc.append("int %s = %d;" % (m, o["c"])); b = "if(%s) __builtin_unreachable(); %s" % (m, O("1"))
        elif k == "nonnull":
            m = "k%d_%d" % (n, j)
            at = ["__attribute__((nonnull)) int %s(int *p, int q)", "__attribute__((nonnull(1))) int %s(int *p, int q)", "__attribute__((nonnull(2, 3))) int %s(int q, int *p, int *s)"][o["form"]] % m
            top.append("static %s; static %s { return 7; }" % (at, at.split(") ", 1)[1] if 0 else at))
            loc.append("int x%s; int *p%s = %s;" % (m, m, "0" if o["null"] else "&x%s" % m))
            b = O(["%s(p%s, 0)" % (m, m), "%s(p%s, 0)" % (m, m), "%s(0, &x%s, p%s)" % (m, m, m)][o["form"]])
        else:
            m = "w%d_%d" % (n, j)
            top.append("static int x%s; static __attribute__((returns_nonnull)) void *%s(int c){ return c ? (void *)0 : (void *)&x%s; }" % (m, m, m))
            loc.append("int c%s = %d;" % (m, o["null"]))
            b = "%s(c%s); %s" % (m, m, O("8"))
        body.append("{ %s %s }" % (" ".join(loc), b))
    at = "__attribute__((no_sanitize(\"undefined\"))) " if c.get("nosan") else ""
    top.append("%svoid f%d(void){ %s }" % (at, n, "\n".join(body)))
    return "\n".join(top), "guard(%d, f%d);" % (n, n)

def effs(e):
    """objects in the order the specification lists their effects"""
    k = e["k"]
    if k in ("asg", "cas"): return effs(e["e"]) + [e["id"]]
    if k in ("pre", "post"): return [e["id"]]
    o = []
    for f in ("c", "l", "r", "e"):
        if isinstance(e.get(f), dict) and k not in ("sizeof",): o += effs(e[f])
    return o

def program(batch):
    p = [render_case(n, c) for n, c in batch]
    return PRE + "\n".join(a for a, _ in p) + "\nint main(void){\n" + "\n".join(b for _, b in p) + "\nreturn 0; }\n"

def judge(n, res, out):
    got = [(int(l.split()[0].split(".")[1]), int(l.split()[1], 16)) for l in out.split("\n") if l.startswith("%d." % n)]
    if not got or got[-1][0] != 9999: return "no result; got %s" % got
    how = got[-1][1]
    want = [unword(w) for w in res["log"]]
    vals = [v for k, v in got[:-1]]
    if res["st"] == "trap":
        if how not in (77, 4): return "operation %d has an enabled undefined behaviour, but the program %s; log %s, expected %s then a trap" % (len(want), "went on" if how == 0 else "got signal %d" % how, vals, want)
    elif how != 0: return "trap (%d) without undefined behaviour after %s; expected values %s" % (how, vals, want)
    return None if vals == want else "values %s, expected %s" % (["%x" % v for v in vals], ["%x" % v for v in want])

def simple_eff(o): return True
def go(rep):
    r = rng("C21")
    n = 30000 if THOROUGH else 5000
    cases = []
    for k in range(n):
        opts = OPTSETS[(k // 20) % len(OPTSETS)]
        c = {"on": enabled(opts), "opts": opts}
        if r.random() < .06: c["nosan"] = True; c["on"] = []
        c["ops"] = [op(r, c["on"]) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        for o in c["ops"]:
            if o["k"] == "idx": o["sz"] = SZT[o["ety"]]
            # only expressions whose effects are unconditional are logged in order
            if o["k"] == "expr" and any(x["k"] in ("and", "or", "cond", "elvis", "sizeof") and any(effs(x[f]) for f in "lre" if isinstance(x.get(f), dict)) for x in nodes(o["e"])): 
                o.update(k="expr", e={"k": "lit", "t": "int", "v": word(1)}, vars=[])
        cases.append(c)
    build_ucc(); rt_obj()
    g = os.path.join(scratch(), "guard.o"); gc = os.path.join(scratch(), "guard.c")
    open(gc, "w").write(RTG); subprocess.run(["gcc", "-O1", "-w", "-c", "-fPIE", "-o", g, gc], check=True)
    res = {k: v[0] for k, v in tlc_cases("Sanitize", [{"on": c["on"], "ops": [{x: y for x, y in o.items() if x != "vars"} for o in c["ops"]]} for c in cases], inv=["StopsExactly", "Agree"]).items()}
    ok = [k for k in range(n) if res[k]["st"] != "drop"]
    jobs = []
    by = {}
    for k in ok: by.setdefault((cases[k]["opts"], (k // 20) % 2), []).append(k)
    for (o, h), ks in by.items():
        for a in range(0, len(ks), 25): jobs.append((ks[a:a + 25], tuple(o) + (("-fsanitize-error=call=san_err",) if h else ("-fsanitize-undefined-trap-on-error",) if a % 2 else ())))
    def check(ks, opts):
        src = program([(k, cases[k]) for k in ks])
        rr = build_run(src, opts, extra_objs=[g])
        if rr["stage"] != "run" or rr["rc"] != 0:
            if len(ks) > 1: return check(ks[:len(ks) // 2], opts) + check(ks[len(ks) // 2:], opts)
            return [(ks[0], "%s ended with %s: %s" % (rr["stage"], rr["rc"], rr["out"][-400:]), src, opts)]
        return [(k, d, program([(k, cases[k])]), opts) for k in ks for d in [judge(k, res[k], rr["out"])] if d]
    for l in pmap(lambda j: check(*j), jobs):
        for k, d, src, o in l:
            rep.violation("%s %s" % (" ".join(o), sig(cases[k])), "options %s\n%s" % (" ".join(o), d), {"program.c": src})
    rep.cov.update(traces_validated_against_impl=len(ok), cases_generated=n, trapping=sum(res[k]["st"] == "trap" for k in ok), undefined_dropped=n - len(ok), option_sets=len(set(OPTSETS)))
    for k in ok[:3]: rep.sample({"ops": sig(cases[k]), "on": cases[k]["on"], "result": res[k]["st"]})

def sig(c):
    o = []
    for x in c["ops"]:
        if x["k"] == "expr": o.append(render(x["e"], {v["id"]: "%s<%s:%d>" % (v["p"], CN[v["t"]], v["v"]) for v in x["vars"]}))
        elif x["k"] == "ovfb": o.append("ovf%s(%s %x, %s %x, %s)" % (x["op"], x["ta"], unword(x["a"]), x["tb"], unword(x["b"]), x["tr"]))
        else: o.append(" ".join("%s=%s" % (a, unword(b) if a == "v" else b) for a, b in x.items()))
    return ("nosan " if c.get("nosan") else "") + "; ".join(o)

if __name__ == "__main__": main(go, "C21", "model_checking")
