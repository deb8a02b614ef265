"""C17: line and file tracking, decided by spec/Lines.tla."""
from vlib import *

class G:
    def __init__(s, r): s.r, s.n, s.kind, s.col = r, 0, {}, {}
    def el(s, plain):
        """-> (id, text); kinds: T diagnosed by the compiler, L line, F file"""
        r = s.r; s.n += 1; i = s.n
        k = r.choice("TTLLF"); s.kind[i] = k
        if k == "T": t = 'extern int T%d;;' % i
        elif k == "L": t = '_Static_assert(%s, "T%d");' % (r.choice(["__LINE__", "__LINE__", "LN", "ID(__LINE__)", "ID( LN )", "__LINE__ + 0", "ID(ID(__LINE__))"]), i)
        else: t = '_Static_assert(sizeof(%s) > 0, "T%d");' % (r.choice(["__FILE__", "__FILE__", "FN", "ID(__FILE__)"]), i)
        return i, t
    def row(s, plain):
        ids, o = [], ""
        for _ in range(s.r.choice([0, 1, 1, 1, 2])):
            i, t = s.el(plain); ids.append(i)
            if s.r.random() < .15: o += s.r.choice(["/* c */", "  ", "/*\"*/", "/*//*/"])
            if s.kind[i] == "T" and all(s.kind[j] == "T" for j in ids): s.col[i] = len(o) + t.index(";;") + 2
            o += t + " "
        return ids, o
    def text(s, sub):
        r = s.r; rows = []; src = []
        n = r.choice([1, 1, 1, 2, 2, 3, 5])
        for k in range(n):
            ids, t = s.row(False)
            j = "" if k == n - 1 else r.choice(["", "splice", "comment", "comment"])
            if rows and rows[-1]["j"] == "comment":
                p = r.choice(["*/", "  c */", " x ' */", "// \" */", "/* */"])
                if r.random() < .3:                            # comment goes on for a line
                    src.append(r.choice(["", " # ", "#if 1", "\\"[:0] + "line"])); rows.append({"els": [], "j": "comment"})
                for i in ids:
                    if i in s.col: s.col[i] += len(p)
                t = p + t
            if j == "splice" or (rows and rows[-1]["j"] == "splice"):
                for i in ids: s.col.pop(i, None)
            if j == "": t += r.choice(["", "", "", " // x", " /* \" */"])
            if j == "comment": t += r.choice(["/*", "/* x", "/**", "/* //", "/*/"])
            if j == "splice": t += "\\"
            rows.append({"els": ids, "j": j}); src.append(t)
        return {"k": "text", "h": len(src), "rows": rows}, src
    def directive(s, body):
        """a directive's text, possibly over several physical lines"""
        r = s.r; f = r.random()
        h = r.choice(["#", "#", "# ", "  #", "/* */ #"])
        w = body.split(" ")
        if f < .12 and len(w) > 1: k = r.randrange(1, len(w)); return [h + " ".join(w[:k]) + " \\", " ".join(w[k:])]
        if f < .2: return [h + body + " \\", ""]
        if f < .3: return [h + body + " /* a", "b */ "]
        if f < .36: return [h + body + " /* a", "", " b */ // c"]
        if f < .40: return [h + "\\", body]
        return [h + body + r.choice(["", "", " ", " /* x */", " // x"])]
    def items(s, d, names):
        r = s.r; out = []
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            f = r.random()
            if f < .4: out.append(s.text(d))
            elif f < .5: t = s.directive(r.choice(["define X%d 1" % r.randrange(9), "undef ZZ", "define FUN(a) a", "pragma STDC FENV_ACCESS OFF"])); out.append(({"k": "noop", "h": len(t)}, t))
            elif f < .55: t = r.choice([["#"], ["#\\", ""], [""], ["\\", ""], ["/* a", "*/"], ["// a \\", " b"], ["/*", "#line 7", "*/"], ["# /*", "*/"]]); out.append(({"k": "noop", "h": len(t)}, t))
            elif f < .68:
                n = r.choice([1, 2, 10, 77, 1000, 32767, 100000, r.randrange(1, 5000)]); nm = r.choice(["", "", "foo.c", "d/e.h", "a b.c"] + names)
                t = s.directive(r.choice(["line %d", "line %d", "line %d", "line 0%d", "line NUM%d" if n in (77, 1000) else "line %d", "%d"]) % n + (' "%s"' % nm if nm else ""))
                out.append(({"k": "line", "h": len(t), "n": n, "name": nm}, t))
            elif f < .76: t = s.directive(r.choice(["include \"%s\"", "include\"%s\"", "include <%s>"]) % "@@"); out.append(({"k": "include", "h": len(t), "f": 0}, t))
            elif f < .84: s.n += 1; t = s.directive(r.choice(["warning W%d", "undef W%d"]) % s.n); s.kind[s.n] = "W"; out.append(({"k": "warn", "h": len(t), "id": s.n}, t))
            elif d > 0:
                k = r.choice(["skip", "open"]); t = s.directive({"skip": r.choice(["if 0", "ifdef NOPE", "ifndef LN"]), "open": r.choice(["if 1", "ifndef NOPE", "ifdef LN"])}[k])
                out.append(({"k": k, "h": len(t)}, t)); out += s.items(d - 1, names)
                t = s.directive("endif"); out.append(({"k": "close", "h": len(t)}, t))
        return out

def unbalanced(it):
    d = 0
    for x, _ in it:
        d += x["k"] in ("skip", "open"); d -= x["k"] == "close"
        if d < 0: return True
    return d != 0
PRE = ["#define LN __LINE__", "#define ID(a) a", "#define FN __FILE__", "#define NUM77 77", "#define NUM1000 1000"]
def case(r, k):
    g = G(r); chain = k % 6 == 0; nf = r.choice([4, 5, 7]) if chain else r.choice([1, 1, 2, 3, 4])
    names = ["m%d.c" % k] + ["h%d_%d.h" % (k, j) for j in range(1, nf)]
    files, text = [], []
    for j in range(nf):
        it = g.items(2, names)
        if chain and j + 1 < nf:                               # deep nesting, with something after each include
            h = r.choice([1, 1, 2, 4]); t = ['#include "%s"' % names[j + 1]]
            it = it[:2] + [({"k": "noop", "h": h}, [""] * h), ({"k": "include", "h": 1, "f": j + 2}, t)] + [g.text(0)] + it[2:4]
            while sum(x["k"] in ("skip", "open") for x, _ in it) > sum(x["k"] == "close" for x, _ in it): it.append(({"k": "close", "h": 1}, ["#endif"]))
            while it and unbalanced(it): it = [y for y in it if y[0]["k"] not in ("skip", "open", "close")]
        if j == 0: it = [({"k": "noop", "h": 1}, [l]) for l in PRE] + it
        for x, t in it:
            if x["k"] == "include":
                # includes go downwards only, so they end
                if x["f"]: pass
                elif j + 1 < nf: x["f"] = r.randrange(j + 1, nf) + 1; t[:] = [l.replace("@@", names[x["f"] - 1]) for l in t]
                else: x["k"] = "noop"; t[:] = ["#" if len(t) == 1 else "#\\"] + [""] * (len(t) - 1)
        src = [l for x, t in it for l in t]
        end = "\n" if r.random() < .8 or not src or any(l.endswith("\\") for l in src[-2:]) else ""
        files.append({"name": names[j], "items": [x for x, t in it]}); text.append("\n".join(src) + end)
    for x in files: 
        for y in x["items"]:
            for z in ("rows",):
                if z in y: pass
    return {"files": files, "names": names, "text": text, "kind": g.kind, "col": g.col}

def markers(o, top):
    """token positions in preprocessed output -> {id: [(file, line)]}, texts"""
    pos, f, l = [], top, 1
    for ln in o.split("\n"):
        m = re.match(r'# (\d+) "((?:[^"\\]|\\.)*)"', ln)
        if m: l, f = int(m[1]), m[2]; continue
        for t in re.finditer(r'\bT(\d+);;|_Static_assert\(([^,]*?), "T(\d+)"\)', ln): pos.append((int(t[1] or t[3]), f, l, re.sub(r"^sizeof\((.*)\) > 0$", r"\1", t[2] or "")))
        l += 1
    return pos

def go(rep):
    r = rng("C17"); n = 12000 if THOROUGH else 1500
    cases = [case(r, k) for k in range(n)]
    u = ucc()
    res = tlc_cases("Lines", [{"files": c["files"]} for c in cases], inv=["Physical", "NoLine"], props=["Restored", "SkipInert"], timeout=3000)
    d = sub("c17")
    def where(o, f, l): return o["file"] == f and o["lo"] <= l <= o["hi"]
    def check(k):
        c, want = cases[k], res[k][0]["out"]
        cd = os.path.join(d, str(k)); os.mkdir(cd)
        for nm, t in zip(c["names"], c["text"]): open(os.path.join(cd, nm), "w").write(t)
        try:
            kind = lambda o: c["kind"][o["id"]]
            txt = [o for o in want if kind(o) != "W"]
            for mode in ("-E", "-EP"):
                rc, o, e = run([u, "-w", *(["-E"] if mode == "-E" else ["-E", "-P"]), "-I.", c["names"][0]], cwd=cd)
                if rc != 0: return "%s: rejected: %s" % (mode, e.decode(errors="replace")[:300])
                pos = markers(o.decode(errors="replace"), c["names"][0])
                if [p[0] for p in pos] != [o["id"] for o in txt]: return "%s: elements %s, expected %s" % (mode, [p[0] for p in pos], [o["id"] for o in txt])
                for p, o in zip(pos, txt):
                    if mode == "-E" and not where(o, p[1], p[2]): return "line markers place T%d at %s:%d, it is at %s:%d-%d" % (p[0], p[1], p[2], o["file"], o["lo"], o["hi"])
                    if kind(o) == "L":
                        v = int(p[3].replace("+ 0", "").strip("() "))
                        if not o["lo"] <= v <= o["hi"]: return "%s: __LINE__ at T%d is %d, expected %d-%d" % (mode, p[0], v, o["lo"], o["hi"])
                    if kind(o) == "F" and p[3] != '"%s"' % o["file"]: return "%s: __FILE__ at T%d is %s, expected %s" % (mode, p[0], p[3], o["file"])
            rc, o, e = run([u, "-S", "-o", "out.s", "-Wundef", "-I.", c["names"][0]], cwd=cd)
            e = e.decode(errors="replace")
            if rc != 0: return "compiling: " + e[:300]
            got = re.findall(r'(?m)^(.*?):(\d+):(\d+): warning: (extra .;. at global scope|#warning: W\d+|macro "W\d+" not defined)', e)
            exp = [o for o in want if kind(o) == "W"] + [o for o in want if kind(o) == "T"]
            if len(got) != len(exp): return "%d diagnostics, expected %d\n%s" % (len(got), len(exp), e[:600])
            for x, o in zip(got, exp):
                if not where(o, x[0], int(x[1])): return "diagnostic for T%d at %s:%s, it is at %s:%d-%d" % (o["id"], x[0], x[1], o["file"], o["lo"], o["hi"])
                if kind(o) == "T" and o["id"] in c["col"] and int(x[2]) != c["col"][o["id"]]: return "diagnostic for T%d in column %s, it is in column %d" % (o["id"], x[2], c["col"][o["id"]])
        finally: shutil.rmtree(cd, ignore_errors=True)
    # the position of an unused macro's definition
    one = {"files": [{"name": "u.c", "items": [{"k": "noop", "h": 2}, {"k": "warn", "h": 1, "id": 1}, {"k": "noop", "h": 1}]}]}
    o = tlc_cases("Lines", [one])[0][0]["out"][0]
    open(os.path.join(d, "u.c"), "w").write("\n\n#define U1\nint x;\n")
    rc, _, e = run([u, "-S", "-o", "out.s", "-Wunused-macros", "u.c"], cwd=d)
    m = re.search(rb'u.c:(\d+):\d+: warning: unused macro "U1"', e)
    if not m: rep.violation("unused-macro", "no warning for an unused macro: %s" % e.decode())
    elif int(m[1]) == o["hi"] + 1: rep.violation("unused-macro-line", "unused macro reported on line %d, defined on line %d" % (int(m[1]), o["hi"]))
    elif int(m[1]) != o["hi"]: rep.violation("unused-macro-elsewhere", "unused macro reported on line %d, defined on line %d" % (int(m[1]), o["hi"]))
    ok = [k for k in range(n) if res[k][0]["st"] == "run" and len(res[k][0]["out"]) < 300]
    for k, x in zip(ok, pmap(check, ok)):
        if x: rep.violation("\n====\n".join(cases[k]["text"]), x, dict(zip([c.replace(".h", ".h.txt") if 0 else c for c in cases[k]["names"]], cases[k]["text"])))
    rep.cov.update(traces_validated_against_impl=len(ok), positions_checked=sum(len(res[k][0]["out"]) for k in ok), cases_generated=n)
    for k in ok[:3]: rep.sample({"text": cases[k]["text"], "out": res[k][0]["out"][:4]})

if __name__ == "__main__": main(go, "C17", "model_checking")
