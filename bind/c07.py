"""C07: record layout and object alignment, decided by spec/Layout.tla."""
import json, re
from vlib import *
from ctype import *
import c01

PRE = c01.PRE + "enum en { EN0 }; void *memset(void *, int, unsigned long); void use(void *p){ (void)p; }\nstruct __attribute__((packed)) pkq { int x; }; struct __attribute__((aligned(32))) alq { int x; }; typedef int __attribute__((aligned(64))) alt;\n"
PTRS = ["void *", "struct pkq *", "struct alq *", "struct alq *(*const *", "alt *", "struct pkq (*"]   # what's pointed to has no bearing on the pointer
def mk(n, c):
    ty = c["ty"]; T = "%s %s" % ("union" if ty["u"] else "struct", ty["tag"])
    def pt(m): p = PTRS[(n + m.start()) % len(PTRS)]; return p + m.group(1) + ("" if "(" not in p else ")(void)" if "const" in p else ")[2]") + ";"
    top = re.sub(r"void \*(m\d+);", pt, sudef(ty)) + ";"
    res = c["res"]
    b = ["out2(%d,0,sizeof(%s)); out2(%d,1,_Alignof(%s));" % (n, T, n, T)]
    al = "_Alignas(%d) " % c["oal"] if c["oal"] else ""
    top += "\nstatic char q%d; %s%s o%d; %sstatic %s a%d[3];" % (n, al, T, n, al, T, n)
    k = 2
    for s in res["subs"]:
        if not named(ty, s["path"]): continue
        p = path_text(ty, s["path"])
        b.append("out2(%d,%d,__builtin_offsetof(%s,%s)); out2(%d,%d,(char *)&o%d%s - (char *)&o%d);" % (n, k, T, p[1:], n, k + 1, n, p, n)); k += 2
    for l in res["leaves"]:
        if not l["bf"]: continue
        b.append("memset(&o%d,0,sizeof o%d); o%d%s = -1; outmem(%d,&o%d,sizeof o%d);" % (n, n, n, path_text(ty, l["path"]), n, n, n))
    A = "(_Alignof(%s)%s)" % (T, " > %d ? _Alignof(%s) : %d" % (c["oal"], T, c["oal"]) if c["oal"] else "")
    b.append("out2(%d,900,(unsigned long)&o%d %% %s); out2(%d,901,(unsigned long)&a%d[0] %% %s);" % (n, n, A, n, n, A))
    big = res["align"] > 16 or c["oal"] > 16     # automatic objects aligned beyond the stack: see probe()
    if big: loc = "static %s%s l, sl;" % (al, T)
    else: loc = "char x1; %s%s l; char x2[3]; static char x3; static %s%s sl; use(&x1); use(x2); use(&x3);" % (al, T, al, T)
    b.append("out2(%d,902,(unsigned long)&l %% %s); out2(%d,903,(unsigned long)&sl %% %s); out2(%d,904,(unsigned long)((char *)&a%d[2] - (char *)&a%d[1]));" % (n, A, n, A, n, n, n))
    return top, "void f%d(void){ %s %s }" % (n, loc, " ".join(b)), "f%d();" % n

def expected(c):
    ty, res = c["ty"], c["res"]
    e = [("0", res["size"]), ("1", res["align"])]; k = 2
    for s in res["subs"]:
        if not named(ty, s["path"]): continue
        e += [(str(k), s["off"]), (str(k + 1), s["off"])]; k += 2
    mem = []
    for l in res["leaves"]:
        if not l["bf"]: continue
        m = bytearray(res["size"])
        for b in range(l["bit"], l["bit"] + l["w"]): m[b // 8] |= 1 << (b % 8)
        mem.append(bytes(m).hex())
    e += [("900", 0), ("901", 0), ("902", 0), ("903", 0), ("904", res["size"])]
    return dict(e), mem

def program(batch):
    p = [mk(n, c) for n, c in batch]
    return PRE + "\n".join(a + "\n" + b for a, b, _ in p) + "\nint main(void){\n" + "\n".join(x + " flush_out();" for _, _, x in p) + "\nreturn 0; }\n"

def check(batch, opts):
    src = program(batch); r = build_run(src, opts)
    if r["stage"] != "run" or r["rc"] != 0:
        if len(batch) == 1: return [(batch[0][0], "%s failed with status %s: %s" % (r["stage"], r["rc"], r["out"][-500:]), src)]
        h = len(batch) // 2
        return check(batch[:h], opts) + check(batch[h:], opts)
    vals, mems = {}, {}
    for l in r["out"].split("\n"):
        p = l.split()
        if len(p) != 2: continue
        if "." in p[0]: vals[p[0]] = int(p[1], 16)
        else: mems.setdefault(p[0], []).append(p[1])
    bad = []
    for n, c in batch:
        e, mem = expected(c)
        for k, v in e.items():
            if vals.get("%d.%s" % (n, k)) != v:
                bad.append((n, "observation %s: expected %s, got %s" % (k, v, vals.get("%d.%s" % (n, k))), program([(n, c)]))); break
        else:
            if mems.get(str(n), []) != mem:
                bad.append((n, "bit image: expected %s, got %s" % (mem, mems.get(str(n))), program([(n, c)])))
    return bad

def go(rep):
    r = rng("C07")
    cases = []
    # every base type x width of bit-field after every start position class
    for t in TYPES:
        if t in ("llong", "ullong"): continue
        W = 1 if t == "bool" else 8 * size(t)
        for w in range(1, W + 1) if THOROUGH else sorted({1, min(2, W), W // 2 or 1, max(W - 1, 1), W}):
            for pre in ["char", "short", "int", "long", None]:
                pw = r.randint(1, 8 * size(pre)) if pre else 0
                ms = ([{"n": "m1", "w": pw, "al": 0, "pk": 0, "ty": {"k": "p", "t": pre}}] if pre else [{"n": "m1", "w": -1, "al": 0, "pk": 0, "ty": {"k": "p", "t": r.choice(["char", "short", "int"])}}]) + \
                     [{"n": "m2", "w": w, "al": 0, "pk": 0, "ty": {"k": "p", "t": t}}, {"n": "m3", "w": -1, "al": 0, "pk": 0, "ty": {"k": "p", "t": r.choice(["char", "short", "int", "long"])}}]
                cases.append({"ty": {"k": "su", "u": 0, "pk": 0, "al": 0, "ms": ms, "tag": "t%d" % len(cases)}, "oal": 0})
    for k in range(12000 if THOROUGH else 1500):
        g = TGen(r, prefix="u%d_" % k)
        cases.append({"ty": g.su(r.choice([0, 1, 2, 2, 3]), top=True), "oal": r.choice([0, 0, 0, 0, 16, 32, 64])})
    for c in cases:
        if c["oal"] and c["oal"] < align_lb(c["ty"]): c["oal"] = 0
    build_ucc(); rt_obj()
    res = tlc_cases("RunLayout", [strip(c["ty"]) for c in cases], inv=["LayoutSane", "FieldsIndependent"])
    for n, c in enumerate(cases): c["res"] = res[n][0]
    ok = list(enumerate(cases))
    B = 40
    opts = [(), ("-fno-pic",), ("-O2",), ("-fomit-frame-pointer",)]
    jobs = [(ok[k:k + B], opts[(k // B) % 3]) for k in range(0, len(ok), B)]
    for l, j in zip(pmap(lambda j: check(*j), jobs), jobs):
        for n, d, src in l:
            rep.violation(sudef(cases[n]["ty"]), "options %s: %s" % (" ".join(j[1]), d), {"program.c": src})
    rep.cov.update(traces_validated_against_impl=len(ok), members_checked=sum(len(c["res"]["subs"]) + len(c["res"]["leaves"]) for c in cases),
                   bitfields=sum(l["bf"] for c in cases for l in c["res"]["leaves"]))
    # automatic objects aligned to more than the stack's 16 bytes
    for k in (32, 64):
        src = PRE + "int main(void){ _Alignas(%d) char a; char x; _Alignas(%d) char b; out(1, ((unsigned long)&a | (unsigned long)&b) %% %d); return 0; }" % (k, k, k)
        r_ = build_run(src)
        if r_["out"].split() != ["1", "0"]: rep.violation("overaligned-auto-%d" % k, "automatic object not aligned to %d: %s" % (k, r_), {"program.c": src})
    # an explicit alignment inside a packed struct
    src = PRE + "struct __attribute__((packed)) P { char a; _Alignas(4) char b; }; int main(void){ out(1, __builtin_offsetof(struct P, b)); return 0; }"
    r_ = build_run(src)
    if r_["out"].split() != ["1", "4"]: rep.violation("packed-alignas", "explicit alignment of a member of a packed struct: %s" % r_, {"program.c": src})
    for n, c in ok[:1] + ok[-2:]: rep.sample({"type": sudef(c["ty"]), "size": c["res"]["size"], "align": c["res"]["align"]})

if __name__ == "__main__": main(go, "C07", "model_checking")
