"""C22: the meaning of a program does not depend on code-generation options: traces of
spec/StmtMachine.tla and values of spec/CEval.tla are required under many combinations of options."""
from vlib import *
import cstmt, c01

OPTS = [["-O0", "-O1", "-O2", "-O3", "-Os"], ["-fno-pic", "-fpic", "-fpie", "-fPIC"], ["-fno-plt", "-fplt"], ["-fno-const-fold"],
        ["-fdata-sections"], ["-ffunction-sections"], ["-finline-functions", "-fno-inline-functions"], ["-fno-common", "-fcommon"],
        ["-fomit-frame-pointer"], ["-fstack-protector", "-fstack-protector-all", "-fno-stack-protector"], ["-fno-thread-jumps", "-fthread-jumps"],
        ["-ftrapv"], ["-fverbose-asm"], ["-fno-semantic-interposition"], ["-g", "-g1", "-g2", "-g3", "-gline-tables-only"],
        ["-mpreferred-stack-boundary=4", "-mpreferred-stack-boundary=5", "-mpreferred-stack-boundary=3"], ["-fsanitize=undefined"],
        ["-fno-symbol-arith"], ["-fno-fold-const-vlas"], ["-fno-integral-float-load"], ["-fpcc-struct-return"], ["-fstrict-aliasing"],
        ["-fvisibility=hidden"], ["-mred-zone", "-mno-red-zone"], ["-frounding-math"], ["-ffinite-math-only"], ["-fno-leading-underscore"]]
def subset(r, k):
    p = r.choice([.08, .2, .4]); o = []
    for g in OPTS:
        if r.random() < p: o.append(r.choice(g))
    if k % 6 == 0: o = [r.choice(r.choice(OPTS))]
    return tuple(o)

QUALS = ["static ", "static ", "static inline ", "static inline __attribute__((always_inline)) ", "static __attribute__((noinline)) ", ""]
def quals(f, main):
    k = f.setdefault("q", 0)
    if "always" in QUALS[k] and has(f, "cgoto"): k = 0      # documented: not inlinable
    return QUALS[k]

def has(x, k): return x["k"] == k or any(isinstance(y, cstmt.Node) and has(y, k) for y in x["a"])

def go(rep):
    r = rng("C22")
    n = 4000 if THOROUGH else 600
    gs = []
    for k in range(n):
        g = cstmt.SGen(r, k, cleanup=r.choice([0, 0, .15]), vla=r.choice([0, 0, .1]), size=r.choice([8, 16, 24])).program()
        for f in g.funcs: f["q"] = r.randrange(len(QUALS)) if f is not g.main else r.choice([0, 5])
        gs.append(g)
    build_ucc(); rt_obj()
    ok = cstmt.execute(gs)
    for k in range(6 if THOROUGH else 3):
        sets = [subset(r, j + k) for j in range(len(ok))]
        cstmt.replay(ok, lambda j: sets[j], rep, B=12, quals=quals, addrs=False)   # each inlined copy of a function has its own storage
    cases = c01.make(r, 12000 if THOROUGH else 2500)
    res = {k: v[0] for k, v in tlc_cases("RunEval", [c01.spec_expr(c) for c in cases], inv=["TypeOK"]).items()}
    good = [(k, c) for k, c in enumerate(cases) if not res[k]["ub"]]
    jobs = []
    for k in range(0, len(good), 30):
        for _ in range(3): 
            o = tuple(x for x in subset(r, k) if x != "-ftrapv" or 1)
            jobs.append((good[k:k + 30], o))
    for l in pmap(lambda j: [(x, j[1]) for x in c01.check_batch(j[0], res, j[1])], jobs):
        for (n, desc, src), o in l:
            rep.violation("%s %s" % (" ".join(o), c01.sig(cases[n])), "options %s; expression %s\n%s" % (" ".join(o), c01.text(cases[n]), desc), {"program.c": src})
    rep.cov["traces_validated_against_impl"] += 3 * len(good)
    rep.cov.update(options=sum(map(len, OPTS)), expressions=len(good))

if __name__ == "__main__": main(go, "C22", "model_checking")
