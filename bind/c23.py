"""C23: floating conversions, comparisons and arithmetic, decided by spec/FEval.tla."""
import struct, math
from vlib import *
import cexpr, c01
from cexpr import *

FT = ["float", "double"]
CN.update({"float": "float", "double": "double"})
f2w = lambda x: struct.unpack("<I", struct.pack("<f", x))[0]
d2w = lambda x: struct.unpack("<Q", struct.pack("<d", x))[0]
w2f = lambda w: struct.unpack("<f", struct.pack("<I", w))[0]
w2d = lambda w: struct.unpack("<d", struct.pack("<Q", w))[0]
val = lambda w, t: w2f(w) if t == "float" else w2d(w)
isnan = lambda w, t: val(w, t) != val(w, t)

def finteresting(r, t):
    """the bits of a value"""
    c = r.random(); p = 24 if t == "float" else 53
    def enc(x):
        try: return f2w(x) if t == "float" else d2w(x)
        except OverflowError: return f2w(math.inf)
    s = r.choice([1, 1, -1])
    if c < .22: return enc(s * r.choice([0.0, 1.0, 2.0, 3.0, 0.5, 10.0, 100.0, 255.0, 256.0, 0.25, 1.5, 7.0]))
    if c < .42:                                   # near the limits of integer types
        k = r.choice([7, 8, 15, 16, 31, 31, 32, 32, 52, 53, 62, 63, 63, 64, 64])
        x = enc(s * float(2 ** k)); return max(0, x + r.choice([0, 0, -1, 1, -2, 1 << (p - 24 if p > 24 else 0)]))
    if c < .58: return enc(s * (r.randrange(1 << r.choice([3, 8, 16, 24, 31, 33, 53])) + r.choice([0, 0, .5, .25, .75])))
    if c < .66: return enc(s * r.choice([math.inf, math.nan, math.inf, math.nan]))
    if c < .74: return (r.choice([0, 1]) << (31 if t == "float" else 63)) | r.choice([1, 2, 3, (1 << (p - 1)) - 1, 1 << (p - 1), (1 << (p - 1)) + 1, ((254 if t == "float" else 2046) << (p - 1)) | ((1 << (p - 1)) - 1)])
    if c < .86: return enc(s * r.randrange(1, 1 << 12) * 2.0 ** r.randrange(-40, 40))
    return r.getrandbits(32 if t == "float" else 64)

def ftext(w, t):
    x = val(w, t); suf = "f" if t == "float" else ""
    if x != x: return "(0.0%s/0.0%s)" % (suf, suf)
    if math.isinf(x): return "(%s1.0%s/0.0%s)" % ("-" if x < 0 else "", suf, suf)
    m, e = math.frexp(abs(x)); s = "-" if math.copysign(1, x) < 0 else ""
    if s or True:
        if x == int(x) and abs(x) < 1e15: b = "%d.0" % abs(x)
        elif (w % 3 == 0) and abs(x) > 1e-300: b = abs(x).hex()
        else: b = "%.17g" % abs(x); b += "" if "." in b or "e" in b else ".0"
    return "(%s%s%s)" % (s, b, suf)
_tl = cexpr.typed_lit
def ftyped_lit(v, t): return ftext(v, t) if t in FT else _tl(v, t)
cexpr.typed_lit = ftyped_lit; c01.typed_lit = ftyped_lit

class FGen(Gen):
    def __init__(self, r, const=False): Gen.__init__(self, r, const=const, types=TYPES[:0] + ["bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "ulong", "llong", "ullong"] + FT * 7)
    def var(self, t=None, place=None, val=None):
        t = t or self.r.choice(self.types)
        if t in FT and val is None: val = finteresting(self.r, t)
        return Gen.var(self, t, place, val)
    def lit(self, t=None, val=None):
        r = self.r
        t = t or r.choice(self.types)
        if t in FT: return {"k": "lit", "t": t, "v": word(finteresting(r, t) if val is None else val)}
        return {"k": "lit", "t": t, "v": word(interesting(r, t) if val is None else conv(val, t))}
    def leaf(self, small=False):
        if self.const or self.r.random() < .2: return self.lit()
        v = self.var(); return {"k": "var", "id": v["id"], "t": v["t"], "v": word(v["v"])}
    def expr(self, d):
        r = self.r
        if d <= 0: return self.leaf()
        c = r.random()
        if c < .06: return self.leaf()
        if c < .36: return {"k": "bin", "op": r.choice("+-*/"), "l": self.expr(d - 1), "r": self.expr(d - 1 if r.random() < .6 else 0)}
        if c < .54: return {"k": "bin", "op": r.choice(REL), "l": self.expr(d - 1), "r": self.expr(d - 1)}
        if c < .62: return {"k": "un", "op": r.choice("--!+"), "e": self.expr(d - 1)}
        if c < .80: return {"k": "cast", "t": r.choice(self.types), "e": self.expr(d - 1)}
        if c < .86: return {"k": r.choice(["and", "or"]), "l": self.expr(d - 1), "r": self.expr(d - 1)}
        if c < .93:
            if r.random() < .25: return {"k": "elvis", "l": self.expr(d - 1), "r": self.expr(d - 1)}
            return {"k": "cond", "c": self.expr(d - 1), "l": self.expr(d - 1), "r": self.expr(d - 1)}
        if c < .94: return {"k": "sizeof", "e": self.expr(d - 1)}
        if self.const: return self.leaf()
        if c < .955: return {"k": "comma", "l": self.expr(d - 1), "r": self.expr(d - 1)}
        v = self.lval()
        if c < .97: return {"k": "asg", "id": v["id"], "t": v["t"], "e": self.expr(d - 1)}
        if c < .99: return {"k": "cas", "op": r.choice("+-*/"), "id": v["id"], "t": v["t"], "v": word(v["v"]), "e": self.expr(d - 1)}
        return {"k": r.choice(["pre", "post"]), "op": r.choice("+-"), "id": v["id"], "t": v["t"], "v": word(v["v"])}

SINKS = ["var", "store", "ret", "arg", "init", "if", "nif", "while", "auto"]
def ends(r, e, g, const=False):
    sink = r.choice(["static", "static", "auto", "if", "var"]) if const else r.choice(SINKS)
    if sink == "ret" and assigned(e): sink = "var"
    c = {"e": e, "vars": g.vars, "sink": sink}
    if sink not in ("if", "nif", "while"): c["st"] = r.choice(g.types)
    return c

def place(case, n):
    top, params, args, loc, names = [], [], [], [], {}
    sub = dict(case, sink="out", e={"k": "lit", "t": "int", "v": word(0)})
    # objects whose initial value has no literal spelling go through a union
    for v in case["vars"]:
        t = CN[v["t"]]; nm = "v%d_%d" % (n, v["id"]); i = v["id"]; p = v["p"]
        val = ftyped_lit(v["v"], v["t"])
        if v["t"] in FT and (v["v"] % 5 == 0 or "/" in val):
            top.append("union { %s i; %s f; } u%s = { 0x%xu%s };" % ("unsigned" if v["t"] == "float" else "unsigned long", t, nm, v["v"], "" if v["t"] == "float" else "l")); val = "u%s.f" % nm
            if p in "gvs": p = v["p"] = "l"
            if p in "aem": p = "d"
        if p == "g": top.append("%s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "v": top.append("volatile %s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "s": loc.append("static %s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "l": loc.append("%s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "p": params.append("%s %s" % (t, nm)); args.append(val); names[i] = nm
        elif p == "a": top.append("%s %s[3] = {1,%s,1};" % (t, nm, val)); names[i] = "%s[1]" % nm
        elif p == "e": top.append("%s %s[4] = {1,1,1,%s}; int i%s = 3;" % (t, nm, val, nm)); names[i] = "%s[i%s]" % (nm, nm)
        elif p == "m": top.append("struct s%s { char c; %s m; char d; } %s = {1,%s,1}, *p%s = &%s;" % (nm, t, nm, val, nm, nm)); names[i] = "p%s->m" % nm
        elif p == "d": loc.append("%s o%s = %s; %s *%s = &o%s;" % (t, nm, val, t, nm, nm)); names[i] = "(*%s)" % nm
        elif p == "c": top.append("%s %s(int a, int b){ return a > b ? %s : 0; }" % (t, nm, val)); names[i] = "%s(2,1)" % nm
        elif p == "x": top.append("struct s%s { %s m; } %s(void){ struct s%s r = {%s}; return r; }" % (nm, t, nm, nm, val)); names[i] = "%s().m" % nm
    txt = render(case["e"], names); sink = case["sink"]; T = CN.get(case.get("st", ""), "int"); ret = "void"
    om = "outmem(%d, &%%s, sizeof %%s);" % n
    if sink == "var": body = "%s t = %s; " % (T, txt) + om % ("t", "t")
    elif sink == "auto": body = "__auto_type t = %s; " % txt + om % ("t", "t")
    elif sink == "static": top.append("%s t%d = %s;" % (T, n, txt)); body = om % ("t%d" % n, "t%d" % n)
    elif sink == "store": top.append("%s st%d;" % (T, n)); body = "st%d = %s; " % (n, txt) + om % ("st%d" % n, "st%d" % n)
    elif sink == "ret": ret = T; body = "return %s;" % txt
    elif sink == "arg": top.append("void sk%d(int q, %s a, float z){ outmem(%d, &a, sizeof a); }" % (n, T, n)); body = "sk%d(7, %s, 2);" % (n, txt)
    elif sink == "init": body = "%s t[2] = { 0, %s }; " % (T, txt) + om % ("t[1]", "t[1]")
    else:
        body = {"if": "int k; if(%s) k = 1; else k = 0;", "nif": "int k = 1; if(!(%s)) k = 0;", "while": "int k = 0; while(%s){ k = 1; break; }"}[sink] % txt + om % ("k", "k")
    outs = []
    for i in sorted(assigned(case["e"])):
        outs.append("{ %s w = %s; outmem(%d00%d, &w, sizeof w); }" % (CN[next(v["t"] for v in case["vars"] if v["id"] == i)], names[i], n, i))
    if sink == "ret":
        f = "%s f%d(%s){ %s %s }" % (ret, n, ", ".join(params) or "void", " ".join(loc), body)
        call = "{ %s w = f%d(%s); outmem(%d, &w, sizeof w); }" % (T, n, ", ".join(args), n)
    else:
        f = "void f%d(%s){ %s %s %s }" % (n, ", ".join(params) or "void", " ".join(loc), body, " ".join(outs)); call = "f%d(%s);" % (n, ", ".join(args))
    return "\n".join(top + [f]), call

def spec_expr(c):
    if c["sink"] in ("if", "nif", "while"): return {"k": "truth", "e": c["e"]}
    if c["sink"] == "auto": return c["e"]
    return {"k": "cast", "t": c["st"], "e": c["e"]}
psize = lambda t: 4 if t == "float" else size(t)
def alternate(res): return dict(res, v=res["av"], eff=res["aeff"])
def expected(c, n, res):
    m = {"%d" % n: (res["t"], unword(res["v"]) & ((1 << 8 * psize(res["t"])) - 1))}
    if c["sink"] != "ret":
        ty = {v["id"]: v for v in c["vars"]}
        for i in assigned(c["e"]): m["%d00%d" % (n, i)] = (ty[i]["t"], ty[i]["v"] & ((1 << 8 * psize(ty[i]["t"])) - 1))
        for i, w in res["eff"]: m["%d00%d" % (n, i)] = (ty[i]["t"], unword(w) & ((1 << 8 * psize(ty[i]["t"])) - 1))
    return m

def program(batch):
    tops, calls = [], []
    for n, c in batch:
        t, call = place(c, n); tops.append(t); calls.append(call)
    return c01.PRE + "\n".join(tops) + "\nint main(void){\n" + "\n".join("%s flush_out();" % c for c in calls) + "\nreturn 0; }\n"
def parse(txt):
    m = {}
    for l in txt.split("\n"):
        p = l.split()
        if len(p) == 2: m.setdefault(p[0], []).append((len(p[1]) // 2, int.from_bytes(bytes.fromhex(p[1]), "little")))
    return m
QUIRK = ["a NaN is taken for false where control branches on it", "unsigned int and floating types are converted as if through int at run time"]
def same(t, v, g): return len(g) == 1 and g[0][0] == psize(t) and (g[0][1] == v or (t in FT and isnan(v, t) and isnan(g[0][1], t)))
def matches(got, want): return all(same(t, v, got.get(k, [])) for k, (t, v) in want.items())
def check_batch(batch, results, opts=()):
    src = program(batch); r = build_run(src, opts); bad = []
    if r["stage"] != "run":
        if len(batch) == 1: return [(batch[0][0], "well-formed program not accepted (%s, status %s): %s" % (r["stage"], r["rc"], r["out"][:600]), src)]
        h = len(batch) // 2
        return check_batch(batch[:h], results, opts) + check_batch(batch[h:], results, opts)
    got = parse(r["out"])
    for n, c in batch:
        q = results[n]["q"]
        if sum(q) and (results[n]["aub"] or matches(got, expected(c, n, alternate(results[n])))) and not matches(got, expected(c, n, results[n])):
            bad.append((n, QUIRK[0 if q[0] else 1], src)); continue
        for k, (t, v) in expected(c, n, results[n]).items():
            g = got.get(k, [])
            if not same(t, v, g):
                if len(batch) > 1: bad += check_batch([(n, c)], results, opts)
                else: bad.append((n, "expected %s = %s %x%s, program gave %s; exit status %s" % (k, t, v, " (%r)" % val(v, t) if t in FT else "", ["%d bytes %x" % x for x in g], r["rc"]), src))
                break
        if sum(b[1] not in QUIRK for b in bad) > 20: break
    return bad
def text(c): return render(c["e"], {v["id"]: "%s<%s:%s>" % (v["p"], CN[v["t"]], ftyped_lit(v["v"], v["t"])) for v in c["vars"]}) + " -> " + c["sink"] + " " + c.get("st", "")

def make(r):
    cs = []
    F = 4 if THOROUGH else 1
    def leafvar(g, t):
        v = g.var(t); return {"k": "var", "id": v["id"], "t": t, "v": word(v["v"])}
    G = FGen(r).types; T = TYPES + FT
    for a in T:
        for b in T:
            if a not in FT and b not in FT: continue
            for _ in range(8 * F):                                 # conversions
                const = r.random() < .3; g = FGen(r, const)
                e = {"k": "cast", "t": b, "e": g.lit(a) if const else leafvar(g, a)}; c = ends(r, e, g, const)
                if c["sink"] in ("if", "nif", "while"): c["sink"] = "auto"
                if "st" in c and r.random() < .6: c["st"] = b
                cs.append(c)
            for op in list("+-*/") + REL:
                for _ in range(2 * F):
                    const = r.random() < .25; g = FGen(r, const)
                    mk = lambda t: g.lit(t) if const or r.random() < .15 else leafvar(g, t)
                    x, y = mk(a), mk(b)
                    if r.random() < .15 and a == b and not const: y = dict(x)
                    cs.append(ends(r, {"k": "bin", "op": op, "l": x, "r": y}, g, const))
            for op in "+-*/":
                g = FGen(r); v = g.lval(); v["t"] = a; v["v"] = finteresting(r, a) if a in FT else interesting(r, a)
                cs.append(ends(r, {"k": "cas", "op": op, "id": v["id"], "t": a, "v": word(v["v"]), "e": leafvar(g, b)}, g))
    for t in FT:
        for _ in range(120 * F):                                   # folded arithmetic rounds as the type does
            g = FGen(r, True); bits = lambda: f2w(r.uniform(-9, 9)) if t == "float" else d2w(r.uniform(-9, 9))
            cs.append(ends(r, {"k": "bin", "op": r.choice("+-*/"), "l": g.lit(t, bits()), "r": g.lit(t, bits())}, g, True))
        for _ in range(30 * F):
            g = FGen(r); v = g.lval(); v["t"] = t; v["v"] = finteresting(r, t)
            cs.append(ends(r, {"k": r.choice(["pre", "post"]), "op": r.choice("+-"), "id": v["id"], "t": t, "v": word(v["v"])}, g))
            g = FGen(r); cs.append(ends(r, {"k": "un", "op": r.choice("-!+"), "e": leafvar(g, t)}, g))
            g = FGen(r, True); cs.append(ends(r, {"k": "un", "op": r.choice("-!+"), "e": g.lit(t)}, g, True))
            g = FGen(r); x = leafvar(g, t); cs.append({"e": x, "vars": g.vars, "sink": r.choice(["if", "nif", "while"])})
    for _ in range(12000 if THOROUGH else 2000):
        const = r.random() < .25; g = FGen(r, const); e = g.expr(r.choice([1, 2, 2, 3, 3, 4])); cs.append(ends(r, e, g, const))
    # a value written twice in one expression would have two effects; every object occurs once by construction
    return cs

def go(rep):
    r = rng("C23"); cases = make(r)
    build_ucc(); rt_obj()
    res = tlc_cases("FEval", [spec_expr(c) for c in cases], inv=["TypeOK", "FltLaws"])
    res = {k: v[0] for k, v in res.items()}
    if len(res) != len(cases): raise CheckError("TLC evaluated %d of %d cases" % (len(res), len(cases)))
    ok = [(n, c) for n, c in enumerate(cases) if not res[n]["ub"] and sum(res[n]["q"]) <= 1]
    B, jobs = 50, []
    optsets = [(), (), ("-fno-const-fold",), ("-fpic",), ("-O2",)]
    st = [x for x in ok if x[1]["sink"] == "static"]; dy = [x for x in ok if x[1]["sink"] != "static"]
    for k in range(0, len(dy), B): jobs.append((dy[k:k + B], optsets[(k // B) % len(optsets)]))
    for k in range(0, len(st), B): jobs.append((st[k:k + B], ()))
    outs = pmap(lambda j: [(x, j[1]) for x in check_batch(j[0], res, j[1])], jobs)
    for l in outs:
        for (n, desc, src), o in l:
            if desc in QUIRK: rep.violation(desc, "options %s; expression %s" % (" ".join(o), text(cases[n])), {"program.c": src}); continue
            rep.violation(text(cases[n]), "options %s; expression %s\n%s" % (" ".join(o), text(cases[n]), desc), {"program.c": src})
    rep.cov.update(traces_validated_against_impl=len(ok), cases_generated=len(cases), undefined_or_undecided_dropped=len(cases) - len(ok), type_pairs=27)
    for n, c in ok[:2] + ok[-2:]: rep.sample({"expr": text(c), "type": res[n]["t"], "value": "%x" % unword(res[n]["v"])})
    rep.assumptions = ["results needing more than 64 exact bits before rounding are not judged", "the payload and sign of a NaN are not judged"]

if __name__ == "__main__": main(go, "C23", "model_checking")
