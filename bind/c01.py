"""C01: run-time integer expressions, decided by spec/CEval.tla."""
import sys, json
from vlib import *
from cexpr import *

def place(case, n):
    """C text of the case as a function; returns (toplevel decls, function text, names)."""
    top, params, args, loc = [], [], [], []
    names = {}
    for v in case["vars"]:
        t, p, i = CN[v["t"]], v["p"], v["id"]
        val = typed_lit(v["v"], v["t"])
        nm = "v%d_%d" % (n, i)
        if p == "g": top.append("%s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "v": top.append("volatile %s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "s": loc.append("static %s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "l": loc.append("%s %s = %s;" % (t, nm, val)); names[i] = nm
        elif p == "p": params.append("%s %s" % (t, nm)); args.append(val); names[i] = nm
        elif p == "a": top.append("%s %s[3] = {1,%s,1};" % (t, nm, val)); names[i] = "%s[1]" % nm
        elif p == "e": top.append("%s %s[4] = {1,1,1,%s}; int i%s = 3;" % (t, nm, val, nm)); names[i] = "%s[i%s]" % (nm, nm)
        elif p == "m": top.append("struct s%s { char c; %s m; char d; } %s = {1,%s,1}, *p%s = &%s;" % (nm, t, nm, val, nm, nm)); names[i] = "p%s->m" % nm
        elif p == "d": loc.append("%s o%s = %s; %s *%s = &o%s;" % (t, nm, val, t, nm, nm)); names[i] = "(*%s)" % nm
        elif p == "c": top.append("%s %s(int a, int b){ return a > b ? %s : 0; }" % (t, nm, val)); names[i] = "%s(2,1)" % nm
        elif p == "x": top.append("struct s%s { %s m; } %s(void){ struct s%s r = {%s}; return r; }" % (nm, t, nm, nm, val)); names[i] = "%s().m" % nm
    e = case["e"]
    txt = render(e, names)
    sink = case["sink"]
    T = CN.get(case.get("st", ""), "")
    ret = "void"
    if sink == "out": body = "out(%d, (unsigned long)(%s));" % (n, txt)
    elif sink == "var": body = "%s t = %s; out(%d, (unsigned long)t);" % (T, txt, n)
    elif sink == "store": top.append("%s st%d;" % (T, n)); body = "st%d = %s; out(%d, (unsigned long)st%d);" % (n, txt, n, n)
    elif sink == "ret": ret = T; body = "return %s;" % txt
    elif sink == "arg": top.append("void sk%d(int q, %s a){ out(%d, (unsigned long)a); }" % (n, T, n)); body = "sk%d(7, %s);" % (n, txt)
    elif sink == "if": body = "if(%s) out(%d, 1); else out(%d, 0);" % (txt, n, n)
    elif sink == "nif": body = "if(!(%s)) out(%d, 0); else out(%d, 1);" % (txt, n, n)
    elif sink == "while": body = "int k = 0; while(%s){ k = 1; break; } out(%d, k);" % (txt, n)
    elif sink == "init": body = "%s t[2] = { 0, %s }; out(%d, (unsigned long)t[1]);" % (T, txt, n)
    elif sink == "sw": body = "switch(%s){ case 0: out(%d,0); break; default: out(%d,1); }" % (txt, n, n)
    outs = []
    for i in sorted(assigned(e)): outs.append("out2(%d, %d, (unsigned long)%s);" % (n, i, names[i]))
    if sink == "ret":
        f = "%s f%d(%s){ %s %s }" % (ret, n, ", ".join(params) or "void", " ".join(loc), body)
        # effects of a 'ret' case are observed by a wrapper only for globals; keep those
        call = "out(%d, (unsigned long)f%d(%s));" % (n, n, ", ".join(args))
    else:
        f = "void f%d(%s){ %s %s %s }" % (n, ", ".join(params) or "void", " ".join(loc), body, " ".join(outs))
        call = "f%d(%s);" % (n, ", ".join(args))
    return "\n".join(top + [f]), call

def make(r, n):
    cases = []
    while len(cases) < n:
        depth = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
        g = Gen(r)
        e = g.expr(depth)
        sink = r.choice(["out", "out", "var", "store", "ret", "arg", "if", "nif", "while", "init", "sw"])
        if sink == "ret" and assigned(e): sink = "out"
        if len([v for v in g.vars if v["p"] == "p"]) > 14 : continue
        c = {"e": e, "vars": g.vars, "sink": sink}
        if sink in ("var", "store", "ret", "arg", "init"): c["st"] = r.choice(TYPES)
        cases.append(c)
    return cases

def exhaustive(r, frac):
    """every binary operator x operand type pair (and unary/cast/compound per type), boundary values"""
    cs = []
    for op in ARITH + REL + SH:
        for ta in TYPES:
            for tb in TYPES:
                for _ in range(frac):
                    g = Gen(r)
                    a = g.var(ta)
                    sv = None
                    if op in SH: sv = conv(r.choice([0, 1, 5, 7, 8, 15, 16, 31, 32, 63]), tb)
                    if r.random() < .3: rhs = g.lit(t=tb, val=sv)
                    else:
                        b = g.var(tb, val=sv); rhs = {"k": "var", "id": b["id"], "t": tb, "v": word(b["v"])}
                    lhs = {"k": "var", "id": a["id"], "t": ta, "v": word(a["v"])}
                    if op in SH and r.random() < .5 or op not in SH and r.random() < .12:
                        if op not in REL:
                            if a["p"] in "cx": a["p"] = "l"
                            cs.append({"e": {"k": "cas", "op": op, "id": a["id"], "t": ta, "v": word(a["v"]), "e": rhs}, "vars": g.vars, "sink": "out"}); continue
                    if r.random() < .1 and op not in SH: lhs = g.lit(t=ta)
                    cs.append({"e": {"k": "bin", "op": op, "l": lhs, "r": rhs}, "vars": g.vars, "sink": r.choice(["out", "out", "if", "nif", "var", "store"])})
                    if cs[-1]["sink"] in ("var", "store"): cs[-1]["st"] = r.choice(TYPES)
    for ta in TYPES:
        for tb in TYPES:
            for _ in range(2 * frac):
                g = Gen(r); a = g.var(ta)
                x = {"k": "var", "id": a["id"], "t": ta, "v": word(a["v"])}
                if r.random() < .5: x = {"k": "un", "op": r.choice("~-!+"), "e": x}
                cs.append({"e": {"k": "cast", "t": tb, "e": x}, "vars": g.vars, "sink": "out"})
        for k in ("pre", "post"):
            for op in "+-":
                for _ in range(2 * frac):
                    g = Gen(r); a = g.var(ta, place=r.choice("glpamsdev"))
                    cs.append({"e": {"k": k, "op": op, "id": a["id"], "t": ta, "v": word(a["v"])}, "vars": g.vars, "sink": "out"})
    return cs

def spec_expr(c):
    e = c["e"]
    if c["sink"] in ("if", "nif", "while", "sw"): return {"k": "truth", "e": e}
    if "st" in c: return {"k": "cast", "t": c["st"], "e": e}
    return e

def strip(e):
    return e

def expected(c, n, res):
    m = {}
    m["%d" % n] = unword(res["v"])
    if c["sink"] != "ret":
        for i in assigned(c["e"]): m["%d.%d" % (n, i)] = unword(word(next(v["v"] for v in c["vars"] if v["id"] == i)))
        for i, w in res["eff"]: m["%d.%d" % (n, i)] = unword(w)
    return m

PRE = "void out(int, unsigned long); void out2(int, int, unsigned long); void outmem(int, const void *, unsigned long); void flush_out(void);\n"
def program(batch):
    tops, calls = [], []
    for n, c in batch:
        t, call = place(c, n); tops.append(t); calls.append(call)
    return PRE + "\n".join(tops) + "\nint main(void){\n" + "\n".join("%s flush_out();" % c for c in calls) + "\nreturn 0; }\n"

def parse_out(txt):
    m = {}
    for l in txt.split("\n"):
        p = l.split()
        if len(p) == 2:
            m.setdefault(p[0], []).append(int(p[1], 16))
    return m

def check_batch(batch, results, opts=(), program=program, expected=expected):
    """-> list of (case index, description, program)"""
    src = program(batch)
    r = build_run(src, opts)
    bad, orphan = [], []
    if r["stage"] != "run":
        if len(batch) == 1:
            return [(batch[0][0], "well-formed program not accepted (%s, status %s): %s" % (r["stage"], r["rc"], r["out"][:600]), src)]
        h = len(batch) // 2
        return check_batch(batch[:h], results, opts, program, expected) + check_batch(batch[h:], results, opts, program, expected)
    got = parse_out(r["out"])
    for n, c in batch:
        exp = expected(c, n, results[n])
        for k, v in exp.items():
            if got.get(k) != [v]:
                if len(batch) > 1:
                    one = check_batch([(n, c)], results, opts, program, expected)
                    bad += one
                    if not one: orphan.append((n, "expected %s=%x, got %s (only in a batch; status %s)" % (k, v, got.get(k), r["rc"]), src))
                else:
                    bad.append((n, "expected %s=%x (spec), program gave %s; exit status %s" % (k, v, ["%x" % x for x in got.get(k, [])], r["rc"]), src))
                break
        if len(bad) > 20: break
    return bad or orphan[:1]

def go(rep):
    r = rng("C01")
    n = 60000 if THOROUGH else 7000
    cases = exhaustive(r, 6 if THOROUGH else 1) + make(r, n)
    build_ucc(); rt_obj()
    res = tlc_cases("RunEval", [spec_expr(c) for c in cases], inv=["TypeOK"])
    res = {k: v[0] for k, v in res.items()}
    if len(res) != len(cases): raise CheckError("TLC evaluated %d of %d cases" % (len(res), len(cases)))
    ok = [(n, c) for n, c in enumerate(cases) if not res[n]["ub"]]
    B = 60
    jobs = []
    optsets = [(), (), ("-fpic",), ("-O2",), ("-fno-const-fold",), ("-fno-pic",)]
    for k in range(0, len(ok), B): jobs.append((ok[k:k + B], optsets[(k // B) % len(optsets)]))
    outs = pmap(lambda j: [(x, j[1]) for x in check_batch(j[0], res, j[1])], jobs)
    for l in outs:
        for (n, desc, src), o in l:
            c = cases[n]
            rep.violation(sig(c), "options %s; expression %s\n%s" % (" ".join(o), text(c), desc), {"program.c": src, "case.json": json.dumps(c)})
    rep.cov.update(traces_validated_against_impl=len(ok), cases_generated=len(cases), undefined_dropped=len(cases) - len(ok),
                   operators=len(ARITH + REL + SH), type_pairs=len(TYPES) ** 2)
    for n, c in ok[:2] + ok[-2:]: rep.sample({"expr": text(c), "type": res[n]["t"], "value": "%x" % unword(res[n]["v"])})

def text(c):
    return render(c["e"], {v["id"]: "%s<%s:%d>" % (v["p"], CN[v["t"]], v["v"]) for v in c["vars"]}) + " -> " + c["sink"] + " " + c.get("st", "")
def sig(c): return text(c)

if __name__ == "__main__": main(go, "C01", "model_checking")
