"""C03: the types of expressions, decided by spec/Types.tla; what typeof, _Generic and sizeof observe is compared with them."""
from vlib import *
import cexp

def checks(x, v):
    """static assertions which hold iff the expression has the type"""
    t, s = v["t"], x["s"]; q = "(%s)" % s
    if v["bf"]: return []
    if t["k"] == "e": return [" || ".join("_Generic(%s, %s: 1, default: 0)" % (q, n) for n in ("int", "unsigned", "enum E"))]
    if cexp.has_enum(t): return []
    out = ["_Generic((__typeof(%s) *)0, %s: 1, default: 0)" % (s, cexp.decl(cexp.P(t)))]
    if t["k"] == "v": return out
    u = t
    u = dict(t, q="")
    # ucc selects on the undecayed type of an array or a function (as its tests require; C11 before DR 481 left it open)
    if t["k"] not in ("a", "fn") and not (u["k"] == "r" and u["n"] == "struct I"): out.append("_Generic(%s, %s: 1, default: 0)" % (q, cexp.decl(u)))
    if t["k"] in "ifp": out.append("sizeof(%s) == sizeof(%s)" % (s, cexp.decl(t)))
    return out

def go(rep):
    build_ucc(); r = rng("C03"); allof, total = cexp.generate(r, 0 if THOROUGH else 9000, 20000 if THOROUGH else 3000)
    good = [(x, v) for x, v in allof if v["st"] == "ok" and x["e"][-1]["k"] not in ("init", "test", "switch")]
    u = ucc(); d = sub("c03"); lines = [(x, v, "_Static_assert(%s, \"\");" % c) for x, v in good for c in checks(x, v)]
    groups = [lines[k:k + 150] for k in range(0, len(lines), 150)]
    def check(k):
        live, out = list(groups[k]), []
        for _ in range(40):
            p = "%s/g%d.c" % (d, k); src = cexp.PRE + ["void test_fn(void){"] + [l for _, _, l in live] + ["}"]; open(p, "w").write("\n".join(src) + "\n")
            rc, o, e = run([u, "-w", "-S", "-o", p[:-2] + ".s", p]); e = e.decode(errors="replace")
            if rc == 0: return out
            bad = {}
            for m in re.finditer(r"(?m)^[^\n:]*:(\d+):(?:\d+:)? error: (.*)$", e): bad.setdefault(int(m[1]) - len(cexp.PRE) - 2, m[2])
            bad = {j: w for j, w in bad.items() if 0 <= j < len(live)}
            if not bad: out.append((live[0], "ends with %d: %s" % (rc, e[-400:]))); return out
            out += [(live[j], w) for j, w in bad.items()]; live = [x for j, x in enumerate(live) if j not in bad]
        return out
    for (x, v, l), w in [y for g in pmap(check, range(len(groups))) for y in g][:400]:
        rep.violation(x["s"], "%s\nhas type %s\n%s: %s" % (x["s"], cexp.decl(v["t"]), l, "isn't so" if "assert" in w else "rejected: " + w), {"t.c": "\n".join(cexp.PRE + ["void test_fn(void){", l, "}"]) + "\n"})
    rep.cov.update(traces_validated_against_impl=len(good), assertions=len(lines), expressions_judged=len(allof), enumerated_of=total, cases_generated=len(allof))
    for x, v in r.sample(good, 3): rep.sample({"expr": x["s"], "type": cexp.decl(v["t"])})

if __name__ == "__main__": main(go, "C03", "model_checking")
