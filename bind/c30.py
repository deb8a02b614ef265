"""C30: printf formats, decided by spec/Format.tla."""
from vlib import *

TY = {"int": "int", "uint": "unsigned", "char": "char", "schar": "signed char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short", "bool": "_Bool", "long": "long", "ulong": "unsigned long",
      "llong": "long long", "ullong": "unsigned long long", "float": "float", "double": "double", "enum": "enum E", "char*": "char *", "cchar*": "const char *", "schar*": "signed char *", "uchar*": "unsigned char *",
      "void*": "void *", "cvoid*": "const void *", "int*": "int *", "cint*": "const int *", "uint*": "unsigned *", "short*": "short *", "long*": "long *", "llong*": "long long *", "double*": "double *"}
LEN = ["", "", "", "hh", "h", "l", "ll", "L", "j", "z", "t"]
NICE = {("", "d"): "int char schar short bool ushort", ("", "u"): "uint", ("hh", "d"): "schar", ("h", "d"): "short", ("hh", "u"): "uchar", ("h", "u"): "ushort", ("l", "d"): "long", ("l", "u"): "ulong", ("ll", "d"): "llong", ("ll", "u"): "ullong",
        ("j", "d"): "long", ("z", "d"): "long", ("t", "d"): "long", ("j", "u"): "ulong", ("z", "u"): "ulong", ("t", "u"): "ulong", ("", "f"): "double float", ("l", "f"): "double float", ("", "c"): "int char uchar short", ("l", "c"): "int",
        ("", "s"): "char* cchar*", ("l", "s"): "int* cint*", ("", "p"): "void* int* double*", ("", "n"): "int*", ("hh", "n"): "schar*", ("h", "n"): "short*", ("l", "n"): "long*", ("ll", "n"): "llong*", ("z", "n"): "long*"}

def gen(r, strict=False):
    """-> a format (list of characters) and arguments, which mostly fit"""
    f, a = [], []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4, 6])):
        f += r.choice(["", "", "a", "hi ", "\n", ",", "d", "x=", "%%"])
        if r.random() < .06: f += r.choice(["%", "%5", "%l", "%.", "%-", "%k", "%ly", "%hhs", "%Ld", "%lp", "%l%", "%.*", "%*", "%h", "%%d", "%m", "%lm", "%!", "%Z"]); continue
        f += "%" + "".join(r.choice("#0- +'") for _ in range(r.choice([0, 0, 0, 1, 2])))
        w = r.choice(["", "", "", "5", "12", "*"]); p = r.choice(["", "", "", ".3", ".", ".*", ".10"])
        if "*" in w: a.append("int" if r.random() < .9 else r.choice(sorted(TY)))
        if "*" in p: a.append("int" if r.random() < .9 else r.choice(sorted(TY)))
        l, ch = r.choice(sorted(NICE)) if r.random() < .9 else (r.choice(LEN), r.choice("diouxXneEfFgGaAcsp%m"))
        ty = r.choice(NICE[l, ch].split()) if (l, ch) in NICE else r.choice(sorted(TY))
        if strict and ch == "p" and r.random() < .6: ty = "void*"
        if ch == "d" and r.random() < .5: ch = "i"
        if ch == "u": ch = r.choice("uoxX")
        if ch == "f": ch = r.choice("eEfFgGaA")
        f += w + p + l + ch
        if ch not in "%m": a.append(r.choice(sorted(TY)) if r.random() < .12 else ty)
    if r.random() < .1: f += r.choice(["", " end", "%%"])
    if a and r.random() < .08: a.pop(r.randrange(len(a)))
    if r.random() < .08: a.insert(r.randint(0, len(a)), r.choice(sorted(TY)))
    return f, a

def q(f): return '"%s"' % "".join({"\n": "\\n", '"': '\\"'}.get(x, x) for x in f)

def case(r, k):
    strict = r.random() < .15; f, a = gen(r, strict); fm = [f]; v = r.random()
    c = {"args": a, "strict": strict, "check": True, "pre": r.choice([0, 0, 0, 1, 2]), "mid": r.choice([0, 0, 0, 1])}
    if v < .12: off = r.randint(0, 4); junk = "".join(r.choice("ab%d ") for _ in range(off)); c["spell"] = q(list(junk) + f) + " + %d" % off
    elif v < .22: m = r.randint(0, len(f)); c["spell"] = q(f[:m]) + " " + q(f[m:])
    elif v < .32: g, _ = gen(r, strict); fm = [f, g]; c["spell"] = "i ? %s : %s" % (q(f), q(g))
    else: c["spell"] = q(f)
    if v > .92: c["check"] = False; c["args"] = a
    c["fmts"] = fm
    return c

def exhaustive():
    for l in sorted(set(LEN)):
        for ch in "diouxXneEfFgGaAcspm%ky":
            for t in TY:
                for st in (False, True) if ch == "p" else (False,):
                    f = list("%" + l + ch); yield {"args": [t], "strict": st, "check": True, "pre": 0, "mid": 0, "spell": q(f), "fmts": [f]}
                if l == "" and ch == "d":
                    for w in ("%*d", "%.*d"): yield {"args": [t, "int"], "strict": False, "check": True, "pre": 0, "mid": 0, "spell": q(list(w)), "fmts": [list(w)]}

def call(c): return "pf%d%d%d(%s%s%s%s);" % (c["pre"], c["mid"], c["check"], "1, " * c["pre"], c["spell"], ", 2" * c["mid"], "".join(", v_%s" % re.sub(r"\*", "P", a) for a in c["args"]))
HEAD = ["enum E { E0 };"] + ["extern %s v_%s;" % (t, n.replace("*", "P")) for n, t in TY.items()]
for _p in range(3):
    for _m in range(2):
        for _c in range(2): HEAD.append("int pf%d%d%d(%sconst char *%s, ...) __attribute__((format(printf, %d, %d)));" % (_p, _m, _c, "int, " * _p, ", int" * _m, _p + 1, _p + _m + 2 if _c else 0))

def kind(t):
    return "mismatch" if re.match(r".* expects a '", t) else "missing" if t.startswith("too few arguments") else "toomany" if t.startswith("too many arguments") else "malformed" if t.startswith(("invalid", "incomplete")) else t

def go(rep):
    r = rng("C30"); cases = list(exhaustive()); ex = len(cases); cases += [case(r, k) for k in range(60000 if THOROUGH else 6000)]
    res = {k: v[0]["ev"] for k, v in tlc_cases("Format", [{x: c[x] for x in ("args", "strict", "check", "fmts")} for c in cases], inv=["TypeOK", "OneWay", "Unchecked"], props=["Forward", "Growing"], timeout=3000).items()}
    u = ucc(); d = sub("c30"); groups = []
    for st in (False, True):
        ks = [k for k in range(len(cases)) if cases[k]["strict"] == st]; groups += [ks[j:j + 400] for j in range(0, len(ks), 400)]
    def check(ks):
        p = os.path.join(d, "g%d.c" % ks[0]); src = HEAD + ["void f(int i){"] + [call(cases[k]) for k in ks] + ["}"]
        open(p, "w").write("\n".join(src) + "\n")
        rc, o, e = run([u, "-Wno-everything", "-Wattr-printf-bad", "-Wattr-printf-toomany", "-Wattr-printf-unknown"] + ["-Wattr-printf-voidptr"] * cases[ks[0]]["strict"] + ["-S", "-o", p[:-2] + ".s", p])
        got, out = {}, []
        if rc: return [(ks[0], "rejected: " + e.decode(errors="replace")[:400])]
        for l in e.decode(errors="replace").split("\n"):
            m = re.match(r".*?:(\d+):(?:\d+:)? (warning|error): (.*)", l)
            if m: got.setdefault(int(m[1]) - len(HEAD) - 2, []).append(m[3])
        for j, k in enumerate(ks):
            G = [kind(x) for x in got.pop(j, [])]
            at = {0}
            for x in res[k]: at = {i + 1 for i in at if G[i:i + 1] == [x["k"]]} | (set() if x["must"] else at)
            if len(G) not in at: out.append((k, "diagnosed %s, expected %s" % (G, [x["k"] + ("" if x["must"] else "?") for x in res[k]])))
        if got: out.append((ks[0], "diagnostics elsewhere: %s" % got))
        return out
    for k, what in [x for l in pmap(check, groups) for x in l][:60]:
        rep.violation(call(cases[k]), "%s%s\n%s" % (call(cases[k]), " with -Wattr-printf-voidptr" * cases[k]["strict"], what), {"f.c": "\n".join(HEAD + ["void f(int i){", call(cases[k]), "}"]) + "\n"})
    n = lambda x: sum(any(e["k"] == x for e in v) for v in res.values())
    rep.cov.update(traces_validated_against_impl=len(cases), conversions_enumerated=ex, clean=sum(not v for v in res.values()), mismatching=n("mismatch"), missing=n("missing"), superfluous=n("toomany"), malformed=n("malformed"), cases_generated=len(cases))
    for k in range(ex, ex + 3): rep.sample({"call": call(cases[k]), "expected": res[k]})

if __name__ == "__main__": main(go, "C30", "model_checking")
