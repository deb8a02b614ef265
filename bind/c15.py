"""C15: conditional inclusion, decided by spec/CppCond.tla."""
from vlib import *

BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
NAMES = ["A", "B", "CC", "DEF", "M_1"]
VALS = [0, 1, 2, 3, 4, 5, 7, 8, 10, 31, 32, 63, 64, 100, 127, 128, 255, 256, 32767, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62, 2**63 - 1]
def word(v): return list((v & (2**64 - 1)).to_bytes(8, "little"))
def op(s): return {"k": "op", "s": s}
def idt(s): return {"k": "id", "s": s}

def num(r):
    f = r.random()
    if f < .1:
        s, v = r.choice([("'a'", 97), ("'\\n'", 10), ("'\\0'", 0), ("'\\x41'", 65), ("'\\''", 39), ("'\\\\'", 92), ("'\"'", 34), ("L'a'", 97), ("'('", 40), ("'0'", 48)])
        return {"k": "num", "v": word(v), "u": False, "s": s}
    if f < .6: v = r.choice([0, 0, 1, 1, 2, 3, 4, 5, r.randrange(20)])
    else: v = r.choice(VALS + [2**63, 2**64 - 1, 2**64 - 2, r.randrange(2**64)])
    base = r.choice(["%d", "%d", "0x%x", "0X%X", "0%o"])
    u = r.random() < .25
    if v >= 2**63 and base == "%d": u = True
    suf = r.choice(["", "", "l", "L", "ll", "LL"])
    if u: us = r.choice("uU"); suf = us + suf if r.random() < .6 else suf + us
    return {"k": "num", "v": word(v), "u": u or v >= 2**63, "s": (base % v) + suf}

def atom(r):
    f = r.random()
    if f < .62: return [num(r)]
    if f < .82: return [idt(r.choice(NAMES))]
    if f < .9: return [idt("defined"), idt(r.choice(NAMES))]
    return [idt("defined"), op("("), idt(r.choice(NAMES)), op(")")]

def expr(r, d):
    if d <= 0 or r.random() < .15: return atom(r)
    f = r.random()
    if f < .16: return [op(r.choice("-+!~"))] + (expr(r, 0) if r.random() < .6 else [op("(")] + expr(r, d - 1) + [op(")")])
    if f < .3: return [op("(")] + expr(r, d - 1) + [op(")")]
    if f < .4: return expr(r, d - 2) + [op("?")] + expr(r, d - 1) + [op(":")] + expr(r, d - 1)
    if f < .5: return expr(r, d - 1) + [op(r.choice(["/", "%"]))] + [r.choice([num(r), {"k": "num", "v": word(0), "u": False, "s": "0"}])]
    b = r.choice(BIN + ["&&", "||"])
    return expr(r, d - 1) + [op(b)] + (expr(r, d - 1) if r.random() < .5 else atom(r))

def cexpr(r, d=None):
    e = expr(r, r.choice([0, 1, 1, 2, 2, 3, 4]) if d is None else d)
    if r.random() < .06:                       # damage it; the specification says whether it is still an expression
        k = r.randrange(len(e)); f = r.random()
        if f < .4: e = e[:k] + e[k + 1:]
        elif f < .7: e = e[:k] + [r.choice([op(")"), op("("), op("?"), op(":"), op("+"), num(r), idt("A")])] + e[k:]
        else: e = e[:k]
    # ill-formed uses of defined are not this property's subject
    for k, t in enumerate(e):
        if t["s"] == "defined" and not (k + 1 < len(e) and (e[k + 1]["k"] == "id" and e[k + 1]["s"] != "defined" or (e[k + 1]["s"] == "(" and k + 3 < len(e) and e[k + 2]["k"] == "id" and e[k + 3]["s"] == ")"))): return cexpr(r, d)
    return e

def body(r):
    f = r.random()
    if f < .15: return []
    if f < .6: return [num(r)]
    if f < .8: return [idt(r.choice(NAMES))]
    if f < .9: return [op("(")] + expr(r, 1) + [op(")")]
    return expr(r, 1)
def nodef(b): return [t for t in b if t["s"] != "defined"] if not any(t["s"] == "defined" for t in b) else [idt("A")]

FATAL = ["error oops", "error don't (stop", "bogus 1 2", "include \"no/such/file.h\"", "include <no/such.h>", "elseif 1", "undef", "define", "define 1 2", "unknown"]
NOISE = ["it's not \"quoted", "garbage # ## #@ $ `", "#define F( 1", "#if_", "'", "# 1 2 3 4", "#line x", "#line 0x", "#!/bin/sh", "#include", "#ifdefx A", "#define A(", "#undef 3", "#include <unterminated"]

def block(r, d, g):
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        f = r.random()
        if d > 0 and f < .5:
            k = r.random()
            if k < .6: out.append({"k": "if", "t": cexpr(r)})
            else: out.append({"k": r.choice(["ifdef", "ifndef"]), "n": r.choice(NAMES)})
            out += block(r, d - 1, g)
            for _ in range(r.choice([0, 0, 1, 2])):
                out.append({"k": "elif", "t": cexpr(r)}); out += block(r, d - 1, g)
            if r.random() < .6: out.append({"k": "else"}); out += block(r, d - 1, g)
            out.append({"k": "endif"})
        elif f < .68: out.append({"k": "define", "n": r.choice(NAMES), "b": nodef(body(r))})
        elif f < .75: out.append({"k": "undef", "n": r.choice(NAMES)})
        elif f < .78: out.append({"k": "null"})
        elif f < .81: out.append({"k": "fatal", "s": r.choice(FATAL)})
        elif f < .84: out.append({"k": "noise", "s": r.choice(NOISE)})
        else:
            g[0] += 1
            t = [idt("T%d" % g[0])]
            for n in r.sample(NAMES, r.choice([0, 1, 2])): t += [op(","), idt(n)]
            out.append({"k": "text", "t": t})
    return out

def case(r, k):
    g = [0]
    if k % 3 == 0:
        L = [{"k": "define", "n": n, "b": nodef(body(r))} for n in NAMES if r.random() < .4]
        for _ in range(r.choice([1, 1, 2, 4])):
            L += [{"k": "if", "t": cexpr(r, r.choice([1, 2, 3, 4]))}, {"k": "text", "t": [idt("T%d" % g[0])]}, {"k": "else"}, {"k": "text", "t": [idt("F%d" % g[0])]}, {"k": "endif"}]
            g[0] += 1
    else: L = block(r, r.choice([1, 2, 3, 4]), g)
    if k % 11 == 3:                             # wrap in a group that may be skipped: then nothing inside matters
        L = [{"k": "if", "t": [num(r)]}] + L + [{"k": "endif"}, {"k": "text", "t": [idt("END")]}]
    if k % 7 == 2 and L:                        # damage the nesting
        f = r.random(); p = r.randrange(len(L) + 1)
        if f < .5: L = L[:p] + [r.choice([{"k": "else"}, {"k": "endif"}, {"k": "elif", "t": cexpr(r)}, {"k": "if", "t": cexpr(r)}, {"k": "ifdef", "n": ""}, {"k": "if", "t": []}])] + L[p:]
        elif p < len(L): L = L[:p] + L[p + 1:]
    if k % 97 == 5: L = [{"k": r.choice(["ifdef", "ifndef"]), "n": "A"} for _ in range(r.choice([20, 40, 60]))] + L
    if k % 97 == 6:
        n = r.choice([20, 40, 60]); L = [{"k": "ifndef", "n": "ZZ"}] * n + [{"k": "text", "t": [idt("DEEP")]}] + [{"k": "endif"}] * n + L
    defs = []
    for n in NAMES:
        if r.random() < .15: defs.append({"n": n, "b": [num(r)] if r.random() < .7 else [{"k": "num", "v": word(1), "u": False, "s": "1"}], "c": True})
    for d in defs: d["bare"] = d["b"][0]["s"] == "1"
    return {"defs": defs, "lines": L}

def lit(v): return {"k": "num", "v": word(v), "u": False, "s": str(v)}
def pair_cases(r):
    """for every two operators, expressions that mean something else if they were grouped the other way"""
    def ev(o, a, b):
        try:
            return {"*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b, "+": lambda: a + b, "-": lambda: a - b, "<<": lambda: a << b, ">>": lambda: a >> b, "<": lambda: +(a < b),
                    "<=": lambda: +(a <= b), ">": lambda: +(a > b), ">=": lambda: +(a >= b), "==": lambda: +(a == b), "!=": lambda: +(a != b), "&": lambda: a & b, "^": lambda: a ^ b,
                    "|": lambda: a | b, "&&": lambda: +bool(a and b), "||": lambda: +bool(a or b)}[o]()
        except (ZeroDivisionError, ValueError): return None
    V = [0, 1, 2, 3, 5, 8, 9]; E = []
    for p in BIN:
        for q in BIN:
            T = []
            for a in V:
                for b in V:
                    for c in V:
                        x = ev(p, a, b); x = ev(q, x, c) if x is not None and x >= 0 else None
                        y = ev(q, b, c); y = ev(p, a, y) if y is not None and y >= 0 else None
                        if x is not None and y is not None and x != y: T.append((a, b, c, x, y))
            U = [t for t in T if bool(t[3]) != bool(t[4])] or T
            for t in r.sample(U, min(2, len(U))):
                e = [lit(t[0]), op(p), lit(t[1]), op(q), lit(t[2])]
                E.append(e if bool(t[3]) != bool(t[4]) else [op("(")] + e + [op(")"), op("=="), lit(r.choice([abs(t[3]), abs(t[4])]))])
    for q in BIN:
        for x in ("-", "!", "~", "+"):
            v = r.sample(V, 4)
            for a in v[:2]: E.append([op("("), op(x), lit(a), op(q), lit(max(v[2], 1)), op(")"), op(r.choice(["==", "<", ">"])), lit(v[3])])
        for _ in range(2):
            a, b, c, d = (r.choice(V) for _ in "abcd"); b = max(b, 1); d = max(d, 1)
            E.append([op("("), lit(a), op(q), lit(b), op("?"), lit(c), op(":"), lit(d), op(")"), op("=="), lit(r.choice([c, d]))])
            E.append([op("("), lit(a), op("?"), lit(b), op(":"), lit(c), op(q), lit(d), op(")"), op("=="), lit(b)])
    r.shuffle(E); out = []
    for k in range(0, len(E), 8):
        L = []
        for j, e in enumerate(E[k:k + 8]):
            L += [{"k": "if", "t": e}, {"k": "text", "t": [idt("T%d" % j)]}, {"k": "else"}, {"k": "text", "t": [idt("F%d" % j)]}, {"k": "endif"}]
        out.append({"defs": [], "lines": L})
    return out

def toks(r, ts):
    o = ""
    for k, t in enumerate(ts):
        s = t["s"]
        if o:
            f = r.random()
            alnum = (s[0].isalnum() or s[0] in "_'") , (o[-1].isalnum() or o[-1] in "_'")
            need = alnum[0] == alnum[1] and not (s in "()" and o[-1] in "()")
            if f < .04: o += " /* c */ "
            elif f < .08: o += " \\\n  "
            elif need or f < .7: o += r.choice([" ", " ", "  ", "\t"])
        o += s
    return o

def render(r, L, style):
    o = []
    for l in L:
        k = l["k"]
        if k == "text": o.append(toks(r, l["t"]) if r.random() < .9 else "  " + toks(r, l["t"]) + " // " + "x"); continue
        if k == "noise": o.append(l["s"]); continue
        p = r.choice(["#", "#", "#", "# ", "#\t", " #", "  # "])
        if style and r.random() < .05: p = "#/* x */ "
        if style and r.random() < .05: p = "/* y */ #"
        if style and r.random() < .05: p = "/* y\n z */ #"
        if k == "null": o.append(p.rstrip() if r.random() < .7 else p + " // nothing"); continue
        e = r.choice(["", "", "", "", " ", " /* e */", " // e"]) if k != "fatal" else ""
        if k in ("if", "elif"): b = k + (r.choice([" ", " ", "  ", "\t", " \\\n"]) + toks(r, l["t"]) if l["t"] else "")
        elif k in ("ifdef", "ifndef"): b = k + " " + l["n"]
        elif k in ("else", "endif"): b = k
        elif k == "define": b = "define " + l["n"] + " " + toks(r, l["b"])
        elif k == "undef": b = "undef " + l["n"]
        elif k == "fatal": b = l["s"]
        o.append(p + b + e)
    return "\n".join(o) + "\n"

TOK = re.compile(r"L?'(?:\\.|[^'\\])+'|[A-Za-z_]\w*|\d\w*|<<|>>|<=|>=|==|!=|&&|\|\||\S")
def go(rep):
    r = rng("C15")
    n = 40000 if THOROUGH else 6000
    cases = [case(r, k) for k in range(n)] + [c for _ in range(8 if THOROUGH else 1) for c in pair_cases(r)]; n = len(cases)
    texts = [render(r, c["lines"], r.random() < .5) for c in cases]
    spec = [{"defs": [{"n": d["n"], "b": d["b"]} for d in c["defs"]], "lines": [{x: y for x, y in l.items() if not (x == "s" and l["k"] in ("fatal", "noise"))} for l in c["lines"]]} for c in cases]
    u = ucc()
    res = {k: v[0] for k, v in tlc_cases("CppCond", spec, inv=["Depth", "OneGroup", "Nested"], props=["SkipInert"]).items()}
    ok = [k for k in range(n) if res[k]["st"] != "drop"]
    d = sub("c15")
    def check(k):
        f = os.path.join(d, "t%d.c" % k); open(f, "w").write(texts[k])
        opts = []
        for x in cases[k]["defs"]: opts.append("-D%s" % x["n"] if x["bare"] and k % 2 else "-D%s=%s" % (x["n"], x["b"][0]["s"]))
        rc, o, e = run([u, "-w", "-E", "-P", *opts, f], cwd=d)
        os.remove(f)
        want = res[k]
        if want["st"] == "reject":
            if rc == 0: return "accepted, but line %d must be rejected" % want["at"]
            return "ended with %s" % rc if not isinstance(rc, int) or rc < 0 or rc > 1 else None
        if rc != 0: return "rejected (%s): %s" % (rc, e.decode(errors="replace")[:300])
        got = TOK.findall(o.decode(errors="replace"))
        exp = TOK.findall(" ".join(want["out"]))
        return None if got == exp else "output %s\nexpected %s" % (" ".join(got)[:400], " ".join(exp)[:400])
    for k, x in zip(ok, pmap(check, ok)):
        if x: rep.violation(texts[k], "options %s\n%s" % (cases[k]["defs"], x), {"input.c": texts[k]})
    rep.cov.update(traces_validated_against_impl=len(ok), cases_generated=n, rejected=sum(res[k]["st"] == "reject" for k in ok), undefined_dropped=n - len(ok))
    for k in ok[:3]: rep.sample({"text": texts[k][:300], "result": res[k]["st"]})

if __name__ == "__main__": main(go, "C15", "model_checking")
