"""C25: what is accepted, diagnosed and rejected, decided by spec/Types.tla's verdict on each construct; compared with what the compiler does with it."""
from vlib import *
import cexp, bodies

def contexts(x, r):
    """the definitions in which the construct stands (@ is the function's name), or None; structure arguments are not supported (and rejected)"""
    n = x["e"][-1]; s = x["s"]; t = n.get("t"); e = s if x["p"] > 0 else "(%s)" % s
    if n["k"] == "init":
        if t["k"] in "av": return None
        how = r.choice(["init", "return", "pass", "assign", "member", "static"]); rec = t["k"] == "r" and t["n"] in ("struct C", "union U", "struct D", "struct K", "struct N", "struct M")
        if how == "return": return "%s { return %s; }" % (cexp.decl(t, "@(void)"), s)
        if how == "pass" and t["k"] != "r": return "void @(void){ extern void takes@(%s); takes@(%s); }" % (cexp.decl(t), e)
        if how == "assign" and not rec: return "void @(void){ %s; x = %s; }" % (cexp.decl(dict(t, q=""), "x"), s)
        if how == "member": return "void @(void){ struct { int a; %s; } x = { .x = %s }; }" % (cexp.decl(t, "x"), e)
        return "void @(void){ %s = %s; }" % (cexp.decl(t, "x"), e)
    if n["k"] == "test": return "void @(void){ %s }" % r.choice(["if(E) ;", "while(E) ;", "for(; E; ) ;", "do ; while(E);", "if(E) ; else ;"]).replace("E", s)
    if n["k"] == "switch": return "void @(void){ switch(%s){ case 1: ; default: ; } }" % s
    return "void @(void){ %s; }" % s

def go(rep):
    build_ucc(); r = rng("C25"); allof, total = cexp.generate(r, 60000 if THOROUGH else 9000, 12000 if THOROUGH else 3000)
    by = {"ok": [], "diag": [], "error": []}
    for x, v in allof:
        c = contexts(x, r) if v["st"] in by else None
        if c: by[v["st"]].append((x, c))
    for text, st in bodies.generate(r, 20000 if THOROUGH else 2500):
        if st in by: by[st].append(({"s": "body"}, text))
    u = ucc(); d = sub("c25"); pre = "\n".join(cexp.PRE) + "\n"
    def compile_(name, text, w="-w"):
        p = "%s/%s.c" % (d, name); o = p[:-2] + ".s"; open(p, "w").write(pre + text)
        rc, _, e = run([u, "-S", "-o", o, p] + [w] * bool(w)); there = os.path.exists(o); there and os.unlink(o); os.unlink(p)
        return rc, there, e.decode(errors="replace")
    crashed = lambda rc, e: rc < 0 or rc >= 126 or re.search(r"signal|\bICE\b|ssertion", e)
    def accept(k):
        def bad(cs):
            rc, there, e = compile_("a%d" % k, "\n".join(c.replace("@", "f%d" % j) for j, (_, c) in enumerate(cs)) + "\n")
            if rc == 0 and there and not crashed(rc, e): return []
            if len(cs) == 1: return [(cs[0], "is rejected (exit status %d): %s" % (rc, e.strip()[-300:]))]
            h = len(cs) // 2; return bad(cs[:h]) + bad(cs[h:])
        return bad(by["ok"][k:k + 60])
    def reject(a):
        kind, j = a; x, c = by[kind][j]
        rc, there, e = compile_("r%s%d" % (kind, j), c.replace("@", "f") + "\n", "")
        if crashed(rc, e): return [((x, c), "the compiler crashes (%d): %s" % (rc, e[-300:]))]
        if rc and there: return [((x, c), "leaves an output file though it is rejected")]
        if rc and not re.search("error", e): return [((x, c), "is rejected without a message: " + e[-200:])]
        if kind == "error" and rc == 0: return [((x, c), "is accepted" + (", with only a warning: " + e.strip()[:200] if e.strip() else ""))]
        if kind == "diag" and not re.search("warning|error", e): return [((x, c), "is accepted without a diagnostic")]
        return []
    def pick(cs):
        exprs = [j for j, (x, _) in enumerate(cs) if x["s"] != "body"]; return [j for j, (x, _) in enumerate(cs) if x["s"] == "body"] + r.sample(exprs, min(len(exprs), 40000 if THOROUGH else 2500))
    todo = [(k, j) for k in ("diag", "error") for j in pick(by[k])]
    out = [y for g in pmap(accept, range(0, len(by["ok"]), 60)) for y in g] + [y for g in pmap(reject, todo) for y in g]
    for (x, c), w in out[:400]: rep.violation(c, "%s\n%s" % (c, w), {"t.c": pre + c.replace("@", "f") + "\n"})
    rep.cov.update(accepted_expected=len(by["ok"]), diagnosed_expected=sum(k == "diag" for k, _ in todo), rejected_expected=sum(k == "error" for k, _ in todo), traces_validated_against_impl=len(by["ok"]) + len(todo), constructs_judged=len(allof), enumerated_of=total, cases_generated=len(allof))
    for k in by: rep.sample({"verdict": k, "construct": r.choice(by[k])[1]})

if __name__ == "__main__": main(go, "C25", "model_checking")
