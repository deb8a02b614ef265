"""Expressions over operands of every kind of type, for C03 and C25 (spec/Types.tla)."""
from vlib import *

def I(n, q=""): return {"k": "i", "q": q, "n": n}
def F(n, q=""): return {"k": "f", "q": q, "n": n}
def P(t, q=""): return {"k": "p", "q": q, "t": t}
def A(t, l): return {"k": "a", "q": "", "t": t, "l": l}
def R(n, q=""): return {"k": "r", "q": q, "n": n}
def FN(t, a, va=False): return {"k": "fn", "q": "", "t": t, "a": a, "va": va}
EN = {"k": "e", "q": "", "n": "enum E"}
V = {"k": "v", "q": ""}
def vq(q): return {"k": "v", "q": q}
QN = {"": "", "c": "const ", "v": "volatile ", "cv": "const volatile "}
def decl(t, d=""):
    k = t["k"]
    if k == "p":
        d = "*" + QN[t["q"]] + d
        return decl(t["t"], "(%s)" % d if t["t"]["k"] in ("a", "fn") else d)
    if k == "a": return decl(t["t"], "%s[%s]" % (d, t["l"] or ""))
    if k == "fn": return decl(t["t"], "%s(%s)" % (d, ", ".join([decl(a) for a in t["a"]] + ["..."] * t["va"]) or "void"))
    return (QN[t["q"]] + {"v": "void"}.get(k, t.get("n")) + " " + d).strip()
def has_enum(t): return t["k"] == "e" or t["k"] in "paf" and "t" in t and has_enum(t["t"]) or t["k"] == "fn" and (has_enum(t["t"]))

INT, CH, DB = I("int"), I("char"), F("double")
RECS = {"struct S": [("i", INT, 0), ("c", CH, 0), ("d", DB, 0), ("a", A(INT, 3), 0), ("p", P(INT), 0), ("sh", I("short"), 0), ("b3", I("unsigned"), 3), ("b5", INT, 5), ("pc", P(I("char", "c")), 0), ("m", A(A(CH, 4), 2), 0)],
        "struct C": [("ci", I("int", "c"), 0), ("l", I("long"), 0), ("vp", P(V), 0)],
        "union U": [("i", INT, 0), ("f", F("float"), 0), ("s", R("struct C"), 0), ("bb", I("_Bool"), 1)],
        "struct D": [("x", A(R("struct C"), 2), 0), ("y", INT, 0)], "struct K": [("ca", A(I("int", "c"), 2), 0)], "struct N": [("z", I("int", "c"), 0), ("y", INT, 0)], "struct M": [("y", INT, 0), ("k", R("struct N"), 0), ("pci", P(I("int", "c")), 0)], "struct O": [("pci", P(I("int", "c")), 0), ("y", INT, 0)]}
MS = {k: [{"n": n, "t": t, "bf": b} for n, t, b in v] for k, v in RECS.items()}
PRE = ["struct I; enum E { E0, E1 };"] + ["%s { %s };" % (k, " ".join(decl(t, n) + (" : %d" % b if b else "") + ";" for n, t, b in v)) for k, v in RECS.items()]
PRE = [x.replace("{ const int z;", "{ struct { const int z; };") for x in PRE]
VARS = [(n, I(t)) for n, t in zip("b c sc uc s us i u l ul ll ull".split(), ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"])] + [
    ("f", F("float")), ("d", DB), ("e", EN), ("ic", I("int", "c")), ("iv", I("int", "v")), ("sc_c", I("short", "c")), ("pi", P(INT)), ("pci", P(I("int", "c"))), ("pvi", P(I("int", "v"))), ("cpi", P(INT, "c")), ("ppi", P(P(INT))), ("ppci", P(P(I("int", "c")))), ("pui", P(I("unsigned"))),
    ("pc", P(CH)), ("pcc", P(I("char", "c"))), ("puc", P(I("unsigned char"))), ("pd", P(DB)), ("pl", P(I("long"))), ("pv", P(V)), ("pcv", P(vq("c"))), ("pvv", P(vq("v"))), ("ppv", P(P(V))), ("S", R("struct S")), ("cS", R("struct S", "c")), ("C", R("struct C")), ("U", R("union U")), ("vU", R("union U", "v")),
    ("pS", P(R("struct S"))), ("pcS", P(R("struct S", "c"))), ("pC", P(R("struct C"))), ("pU", P(R("union U"))), ("pI", P(R("struct I"))), ("ai", A(INT, 3)), ("aci", A(I("int", "c"), 3)), ("aai", A(A(INT, 3), 2)), ("aS", A(R("struct S"), 2)), ("api", A(P(INT), 2)),
    ("pai", P(A(INT, 3))), ("pai0", P(A(INT, 0))), ("pai4", P(A(INT, 4))), ("paci", P(A(I("int", "c"), 3))), ("ac", A(CH, 6)),
    ("fi", FN(INT, [INT])), ("fv", FN(V, [])), ("fp", FN(P(I("char", "c")), [P(INT), DB])), ("fs", FN(R("struct C"), [])), ("fva", FN(INT, [P(I("char", "c"))], True)), ("fpc", FN(V, [P(vq("c")), CH])),
    ("pfi", P(FN(INT, [INT]))), ("pfi2", P(FN(INT, [I("long")]))), ("pfv", P(FN(V, []))), ("apf", A(P(FN(INT, [INT])), 2)), ("D", R("struct D")), ("K", R("struct K")), ("N", R("struct N")), ("M", R("struct M")), ("O", R("struct O")), ("aK", A(R("struct K"), 2)), ("pM", P(R("struct M"))), ("pO", P(R("struct O"))), ("pppi", P(P(P(INT)))), ("pppci", P(P(P(I("int", "c"))))), ("pE", P(EN)), ("pb", P(I("_Bool")))]
PRE += ["extern " + decl(t, n) + ";" for n, t in VARS]
TYPES = [t for _, t in VARS if t["k"] != "fn"] + [V]
def leaf(text, t, lv=True, z="no", bf=0): return {"s": text, "p": 8 if text[0] in "*(" else 9, "e": [{"k": "leaf", "n": 0, "t": t, "lv": lv, "bf": bf, "z": z}]}
LEAVES = [leaf(n, t, t["k"] != "fn") for n, t in VARS] + [
    leaf("0", INT, False, "yes"), leaf("1", INT, False, "one"), leaf("0L", I("long"), False, "yes"), leaf("2U", I("unsigned"), False, "one"), leaf("3ULL", I("unsigned long long"), False, "one"), leaf("'a'", INT, False, "one"), leaf("E1", INT, False, "one"),
    leaf("1.5", DB, False), leaf("2.5f", F("float"), False), leaf('"abc"', A(CH, 4)), leaf('L"ab"', A(INT, 3)), leaf("(void *)0", P(V), False, "yes"), leaf("(int){ 3 }", INT), leaf("(int[]){ 1, 2 }", A(INT, 2)), leaf("(const char){ 1 }", I("char", "c")), leaf("(struct C){ 1, 2 }", R("struct C")),
    leaf("(void)0", V, False), leaf("S.b3", I("unsigned"), True, "no", 3), leaf("S.b5", INT, True, "no", 5), leaf("U.bb", I("_Bool"), True, "no", 1), leaf("S.sh", I("short")), leaf("cS.a", A(I("int", "c"), 3)), leaf("pS->m", A(A(CH, 4), 2)), leaf("*pI", R("struct I")), leaf("*pcS", R("struct S", "c"))]
BIN = {o: p for o, p in zip("* / % + - << >> < <= > >= == != & ^ | && || ,".split(), [7] * 3 + [6] * 2 + [5] * 2 + [4] * 4 + [3] * 2 + [2.8, 2.6, 2.4, 2.2, 2, 0])}
UN = ["-", "+", "~", "!", "*", "&", "++", "--", "p++", "p--", "sizeof", "({", "("]
AS = ["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]
def par(x, p=9): return x["s"] if x["p"] >= p else "(%s)" % x["s"]
def mk(s, p, node, *xs): return {"s": s, "p": p, "e": [n for x in xs for n in x["e"]] + [dict(node, n=len(xs))]}
def binop(o, x, y): return mk("%s %s %s" % (par(x, 8), o, par(y, 8)), -1 if o == "," else 1, {"k": "bin", "op": o}, x, y)
def asop(o, x, y): return mk("%s %s %s" % (par(x, 8), o, par(y, 1)), 0.5, {"k": "as", "op": o}, x, y)
def unop(o, x):
    n = {"k": "un", "op": o}
    if o in ("p++", "p--"): return mk(par(x) + o[1:], 9, n, x)
    if o == "({": return mk("({ %s; })" % x["s"], 9, n, x)
    if o == "(": return mk("(%s)" % x["s"], 9, n, x)
    if o == "sizeof": return mk("sizeof(%s)" % x["s"], 8, n, x)
    return mk(o + " " * (x["s"][:1] == o[0]) + par(x, 8), 8, n, x)
def cond(x, y, z): return mk("%s ? %s : %s" % (par(x, 1), par(y, 1), par(z, 1)), .8, {"k": "cond"}, x, y, z)
def elvis(x, y): return mk("%s ?: %s" % (par(x, 1), par(y, 1)), .8, {"k": "cond"}, x, y)
def cast(t, x): return mk("(%s)%s" % (decl(t), par(x, 8)), 8, {"k": "cast", "t": t}, x)
def idx(x, y): return mk("%s[%s]" % (par(x), y["s"]), 9, {"k": "idx"}, x, y)
def mem(x, m): return mk("%s.%s" % (par(x), m), 9, {"k": "mem", "m": m}, x)
def arrow(x, m): return mk("%s->%s" % (par(x), m), 9, {"k": "arrow", "m": m}, x)
def call(*xs): return mk("%s(%s)" % (par(xs[0]), ", ".join(par(x, .2) for x in xs[1:])), 9, {"k": "call"}, *xs)
def choose(i, x, y): return mk("__builtin_choose_expr(%d, %s, %s)" % (2 - i, par(x, .2), par(y, .2)), 9, {"k": "choose", "i": i}, x, y)
def generic(r, x, y): return mk("_Generic(%s, int: %s, default: %s)" % ("0" if r == 1 else "0L", par(x, .2), par(y, .2)), 9, {"k": "choose", "i": r}, x, y)
def ctx(k, x, t=None): return mk(x["s"], x["p"], dict({"k": k}, **({"t": t} if t else {})), x)
MEMS = sorted({m for v in RECS.values() for m, _, _ in v}) + ["nosuch"]

def every():
    for x in LEAVES:
        yield x
        for o in UN: yield unop(o, x)
        for t in TYPES: yield cast(t, x); yield ctx("init", x, t)
        for m in MEMS: yield mem(x, m); yield arrow(x, m)
        for y in LEAVES:
            for o in BIN: yield binop(o, x, y)
            for o in AS: yield asop(o, x, y)
            yield idx(x, y); yield elvis(x, y); yield call(x, y)
        yield call(x); yield ctx("test", x); yield ctx("switch", x)

def rand(r, pool):
    """a random expression over the pool, whose operands are mostly of matching kinds"""
    pick = lambda: r.choice(pool) if r.random() < .7 else r.choice(LEAVES)
    v = r.random()
    if v < .3: return binop(r.choice(list(BIN)), pick(), pick())
    if v < .45: return unop(r.choice(UN), pick())
    if v < .58: return cond(pick(), pick(), pick())
    if v < .62: return elvis(pick(), pick())
    if v < .7: return cast(r.choice(TYPES), pick())
    if v < .78: return asop(r.choice(AS), pick(), pick())
    if v < .83: return idx(pick(), pick())
    if v < .88: return (mem if r.random() < .5 else arrow)(pick(), r.choice(MEMS))
    if v < .92: return call(r.choice(LEAVES), *[pick() for _ in range(r.choice([0, 1, 1, 2]))])
    if v < .95: return choose(r.choice([1, 2]), pick(), pick())
    if v < .97: return generic(r.choice([1, 2]), pick(), pick())
    return ctx(*r.choice([("init", pick(), r.choice(TYPES)), ("test", pick()), ("switch", pick())]))

def judge(cases):
    d = sub("types"); p = d + "/recs.json"; json.dump(MS, open(p, "w"))
    return {k: v[0] for k, v in tlc_cases("Types", [{"e": c["e"]} for c in cases], env={"RECORDS": p}, inv=["OneResult", "Values", "Symmetric", "Error"], timeout=3000).items()}

def generate(r, n1, n2):
    """-> [(expression, verdict)]: the leaves' combinations (all, or n1 of them), and two further levels of n2"""
    one = list(every()); total = len(one)
    if n1 and n1 < total: one = one[:len(LEAVES)] + r.sample(one, n1)
    out = list(zip(one, [judged for _, judged in sorted(judge(one).items())])); lvl = out
    for _ in range(2):
        ok = [x for x, v in lvl if v["st"] == "ok" and x["e"][-1]["k"] not in ("init", "test", "switch") and len(x["s"]) < 90]
        kinds = {}
        for x, v in lvl:
            if x in ok[:0]: pass
        for x, v in lvl:
            if v["st"] == "ok" and x["e"][-1]["k"] not in ("init", "test", "switch", "leaf") and len(x["s"]) < 90: kinds.setdefault(v["t"]["k"] + ("l" if v["lv"] else ""), []).append(x)
        ks = sorted(kinds); pool = []
        for k in ks: pool += r.sample(kinds[k], min(len(kinds[k]), 150))
        new = [rand(r, pool) for _ in range(n2)]; lvl = list(zip(new, [j for _, j in sorted(judge(new).items())])); out += lvl
    return out, total
