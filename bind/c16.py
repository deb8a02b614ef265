"""C16: macro expansion, decided by spec/Macro.tla."""
from vlib import *

NAMES = ["f", "g", "h", "o", "p", "fg", "o1", "L", "u"]
PLAIN = ["x", "y", "foo", "_z", "e"]
PUN = ["+", "-", "*", "/", "<", ">", "=", "&", "|", "!", "~", ".", ";", "[", "]", "<<", "==", "->", "++", "?", ":", "%", "^"]
STR = ['"s"', '"a,b"', '")"', '"\\""', '"\\\\"', '"f(x)"', '"a  b"', '"//"', '"/*"', '""', "'\"'", "'a'", "','", "')'", "'\\''", "'\\\\'", "'\\n'", '"\\n"', '"#x"']
def T(k, s, w=True): return {"k": k, "s": s, "w": w, "ws": 0}
def idt(s): return T("id", s)
def p(s): return T("p", s, False)
def num(r):
    s = r.choice(["0", "1", "2", "1", "42", "0x1F", "1.5", "10u", "1e"]); return T("num", s, "." not in s)
def num0(s): return T("num", s)
def lit(r):
    s = r.choice(STR); return T("str" if s[0] == '"' else "chr", s, False)

def leaf(r, ps, names=NAMES):
    f = r.random()
    if ps and f < .45: return idt(r.choice(ps))
    if f < .72: return idt(r.choice(names))
    if f < .82: return idt(r.choice(PLAIN))
    if f < .9: return num(r)
    if f < .95: return lit(r)
    return p(r.choice(PUN))

def seq(r, ps, n, d=2):
    o = []
    for _ in range(n):
        f = r.random()
        if f < .3 and d > 0:
            o.append(leaf(r, ps, NAMES[:4]) if r.random() < .5 else idt(r.choice(NAMES[:3])))
            o.append(p("("))
            k = r.choice([0, 1, 1, 1, 2, 2, 3])
            for j in range(k):
                if j: o.append(p(","))
                o += seq(r, ps, r.choice([0, 1, 1, 1, 2]), d - 1)
            o.append(p(")"))
        elif f < .34: o.append(p(r.choice("(),")))
        elif f < .5: o.append(p(r.choice(PUN)))
        else: o.append(leaf(r, ps))
    return o

def space(r, ts):
    """decide which tokens are preceded by white space; forced where they would run together"""
    for k, t in enumerate(ts):
        if k == 0: continue
        a, b = ts[k - 1], t
        need = (a["k"] in ("id", "num") and b["k"] != "p") or (a["k"] == "num" and b["s"][0] in ".+-") or (a["k"] == "p" and b["k"] == "p" and not (a["s"] in "()[],;~?" or b["s"] in "()[],;~?")) or (a["s"] == "." and b["k"] == "num")
        t["ws"] = 1 if need or r.random() < .4 else 0
    return ts

def body(r, ps, fn):
    b = []
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    for k in range(n):
        f = r.random()
        if ps and f < .12: b += [p("#"), idt(r.choice(ps))]
        elif f < .28:
            def operand():
                if ps and r.random() < .1: return [p("#"), idt(r.choice(ps))]
                if ps and r.random() < .6: return [idt(r.choice(ps))]
                return r.choice([[idt(r.choice(["f", "g", "o", "x", "fg"]))], [num(r)], [p(r.choice(["<", ">", "=", "+", "-", "&", "#"]) if not fn else r.choice(["<", "=", "+", "-"]))]])
            b += operand()
            for _ in range(r.choice([1, 1, 1, 2])): b += [p("##")] + operand()
        else: b += seq(r, ps, 1)
    return b

def define(r, names=NAMES):
    n = r.choice(names)
    fn = r.random() < (.3 if n in ("o", "p", "o1") else .75)
    ps, va = [], False
    if fn:
        ps = r.sample(["a", "b", "c", "x", "f"] if r.random() < .2 else ["a", "b", "c"], r.choice([0, 1, 1, 1, 2, 2, 3]))
        va = r.random() < .2
    return {"k": "define", "n": n, "fn": fn, "ps": ps, "va": va, "b": space(r, body(r, ps + (["__VA_ARGS__"] if va else []), fn))}

XSTR = [{"k": "define", "n": "str", "fn": True, "ps": ["s"], "va": False, "b": [p("#"), idt("s")]}, {"k": "define", "n": "xstr", "fn": True, "ps": ["s"], "va": False, "b": [idt("str"), p("("), idt("s"), p(")")]}]
def case(r, k):
    L, n = [], 0
    hist = r.random() < .3
    cmd = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        nm = r.choice(NAMES[:6])
        cmd.append({"k": "undef", "n": nm} if r.random() < .25 else {"k": "define", "n": nm, "fn": False, "ps": [], "va": False, "b": space(r, [t for t in body(r, [], False)][:3])})
    for c in cmd:                            # no dangling ## from the cut
        if c["k"] == "define" and any(t["s"] in ("##", "#") for t in c["b"]): c["b"] = [num(r)]
    L += cmd
    use = r.sample(NAMES, r.choice([2, 3, 4, 5]))
    for _ in range(r.choice([1, 2, 3, 4, 6])): L.append(define(r, use))
    if r.random() < .3: L += json.loads(json.dumps(XSTR))
    def text():
        nonlocal n
        n += 1
        t = seq(r, [], r.choice([1, 1, 2, 3]), 3)
        f = r.random()
        if f < .15 and len(L) and L[-1].get("n") == "xstr": t = [idt(r.choice(["xstr", "str"])), p("(")] + t + [p(")")]
        return {"k": "text", "t": [idt("T%d" % n), p(";")] + space(r, t)}
    for _ in range(r.choice([1, 2, 2, 3])):
        L.append(text())
        if hist: L.append({"k": "undef", "n": r.choice(use)} if r.random() < .4 else define(r, use))
    return {"cmd": len(cmd), "lines": L}

def gap(r, wild):
    if not wild: return " "
    return r.choice([" ", " ", " ", "  ", "\t", " /* c */ ", "/**/", " \\\n ", "/* ' */"])
def toks(r, ts, wild):
    o = ""
    for k, t in enumerate(ts):
        if t["ws"] and k: o += gap(r, wild and o[-1] != "/")
        elif k and wild and r.random() < .03 and o[-1] != "/": o += "\\\n"
        o += t["s"]
    return o
def render(r, c):
    o, opts = [], []
    wild = r.random() < .5
    for k, l in enumerate(c["lines"]):
        if l["k"] == "define":
            h = l["n"]
            if l["fn"]:
                ps = l["ps"] + (["..."] if l["va"] else [])
                h += "(" + r.choice([", ", ",", " , "] if wild else [", "]).join(ps) + ")"
            b = toks(r, l["b"], wild and k >= c["cmd"])
        if k < c["cmd"]:
            if l["k"] == "undef": opts.append("-U" + l["n"])
            elif b == "1" and r.random() < .5: opts.append("-D" + h)
            else: opts.append("-D" + h + "=" + b)
        elif l["k"] == "define": o.append("#define " + h + (" " if not l["fn"] or r.random() < .7 else "") + b + (gap(r, b[-1:] != "/") if wild and r.random() < .2 else ""))
        elif l["k"] == "undef": o.append("#undef " + l["n"])
        else: o.append(toks(r, l["t"], wild) + (" // z" if wild and r.random() < .1 else ""))
    return "\n".join(o) + "\n", opts

TOK = re.compile(r"""L?"(?:\\.|[^"\\\n])*"|L?'(?:\\.|[^'\\\n])+'|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|<<=|>>=|\.\.\.|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|->|[-+*/%&|^]=|\#\#|\S""")
def go(rep):
    r = rng("C16")
    n = 30000 if THOROUGH else 5000
    cases = [case(r, k) for k in range(n)]
    cases[0] = {"cmd": 0, "lines": [{"k": "define", "n": "v", "fn": True, "ps": [], "va": True, "b": [p("#"), idt("__VA_ARGS__")]},
                {"k": "text", "t": [idt("T1"), p(";"), idt("v"), p("("), num0("1"), dict(p(","), ws=1), dict(num0("2"), ws=1), p(")")]}]}
    rend = [render(r, c) for c in cases]
    u = ucc()
    res = tlc_cases("Macro", [{"lines": c["lines"]} for c in cases], inv=["HiddenStays", "HideKnown", "CallOk"], props=["Final", "Scoped"], timeout=3000)
    tlc_cases("Macro", [{"lines": c["lines"]} for c in cases[:1000 if THOROUGH else 60]], props=["Terminates"], timeout=3000)
    # behaviours on which the two readings of the standard agree
    known = {k: x["out"] for k in range(n) for x in res[k] if x["mode"] == "K" and x["st"] == "run"}
    for k in range(n): res[k] = [x for x in res[k] if x["mode"] != "K"]
    ok = [k for k in range(n) if len(res[k]) == 2 and res[k][0]["st"] != "drop" and {x: y for x, y in res[k][0].items() if x != "mode"} == {x: y for x, y in res[k][1].items() if x != "mode"}]
    d = sub("c16")
    def check(k):
        f = os.path.join(d, "t%d.c" % k); open(f, "w").write(rend[k][0])
        rc, o, e = run([u, "-w", "-E", "-P", *rend[k][1], f], cwd=d)
        os.remove(f)
        want = res[k][0]
        if want["st"] == "reject":
            if rc == 0: return "accepted, but a call has the wrong number of arguments; output %s" % o.decode(errors="replace")[:300]
            return None if rc == 1 else "ended with %s" % rc
        if rc != 0: return "rejected (%s): %s" % (rc, e.decode(errors="replace")[:300])
        got = TOK.findall(o.decode(errors="replace"))
        if got != want["out"] and got == known.get(k): return "va-args-spacing"
        return None if got == want["out"] else "output   %s\nexpected %s" % (" ".join(got)[:500], " ".join(want["out"])[:500])
    for k, x in zip(ok, pmap(check, ok)):
        if x == "va-args-spacing": rep.violation(x, rend[k][0], {"input.c": rend[k][0]})
        elif x: rep.violation(rend[k][0] + " ".join(rend[k][1]), "options %s\n%s" % (rend[k][1], x), {"input.c": rend[k][0]})
    rep.cov.update(traces_validated_against_impl=len(ok), cases_generated=n, rejected=sum(res[k][0]["st"] == "reject" for k in ok), open_or_undefined_dropped=n - len(ok))
    for k in ok[:3]: rep.sample({"text": rend[k][0][:300], "out": " ".join(res[k][0]["out"])[:200]})

if __name__ == "__main__": main(go, "C16", "model_checking")
