"""Function bodies for C25 (spec/Body.tla): random statements, mostly well-formed, whose constraints are judged."""
from vlib import *

def gen(r):
    items, out = [], []; slip = r.random() < .6; rate = r.choice([.03, .06, .1]) if slip else 0
    ret = r.choice(["int", "void"]); labels, cnt = ["L%d" % k for k in range(3)], [0]; defined = []
    def bad(): return r.random() < rate
    def emit(item, text): items.append(item); out.append(text)
    def val(v): return ["top", 2**32 - v] if v > 2**31 else ["n", v]
    def spell(v): return "%dU" % v if v > 2**31 else str(v) if v >= 0 else "(%d)" % v
    def block(depth, ctx, used, scope):
        scope = scope + [[]]
        for _ in range(r.choice([1, 2, 3, 4]) if depth else r.choice([3, 5, 7])):
            v = r.random()
            if v < .22 and depth < 4:
                w = r.choice(["loop", "loop", "switch", "switch", "block", "block"])
                t = r.choice(["int", "unsigned", "long", "char"]) if w == "switch" else ""
                kw = {"loop": r.choice(["while(z){", "for(;;){", "do{"]), "switch": "switch(%s){" % {"int": "i", "unsigned": "u", "long": "l", "char": "c"}.get(t), "block": r.choice(["{", "if(z){"])}[w]
                emit({"k": "open", "w": w, "t": "int" if t == "char" else t}, kw)
                block(depth + 1, ctx + [w], {} if w == "switch" else used, scope)
                emit({"k": "close"}, "}while(z);" if kw == "do{" else "}")
            elif v < .42:
                if "switch" not in ctx and not bad(): continue
                vals = [x for x in [-1, 0, 1, 2, 3, 4, 5, 2**32 - 1, 2**32 - 2] if (x & (2**32 - 1)) not in used or bad()] or [9]
                lo = r.choice(vals); used[lo & (2**32 - 1)] = 1
                if r.random() < .25 and 0 <= lo < 6:
                    hi = lo + r.choice([0, 1, 2]); 
                    if all(x not in used or x == lo for x in range(lo, hi + 1)) or bad():
                        for x in range(lo, hi + 1): used[x] = 1
                        emit({"k": "case", "lo": val(lo), "hi": val(hi), "range": True}, "case %d ... %d: ;" % (lo, hi)); continue
                emit({"k": "case", "lo": val(lo), "hi": val(lo), "range": False}, "case %s: ;" % spell(lo))
            elif v < .48:
                if ("switch" not in ctx or "def" in used) and not bad(): continue
                used["def"] = 1; emit({"k": "default"}, "default: ;")
            elif v < .56:
                if "loop" in ctx or "switch" in ctx or bad(): emit({"k": "break"}, "break;")
            elif v < .62:
                if "loop" in ctx or bad(): emit({"k": "continue"}, "continue;")
            elif v < .7:
                n = r.choice(labels)
                if n not in defined or bad(): defined.append(n); emit({"k": "label", "n": n}, "%s: ;" % n)
            elif v < .78: goto(emit)
            elif v < .9:
                n = r.choice("xyw")
                if n in scope[-1] and not bad(): continue
                vm = r.random() < .3; scope[-1].append(n)
                emit({"k": "decl", "n": n, "vm": vm}, r.choice(["int %s[z];", "int (*%s)[z];", "char %s[z + 1][3];"]) % n if vm else r.choice(["int %s;", "int %s[3];", "struct { int q; } %s;", "static long %s;", "enum { E%d } %%s;" % len(out)]) % n)
            elif v < .96:
                n = r.choice("xyw")
                if any(n in s for s in scope) or bad(): emit({"k": "use", "n": n}, "(void)&%s;" % n)
            else:
                v = (ret == "int") != bad(); emit({"k": "return", "v": v}, "return i;" if v else "return;")
    def goto(emit):
        n = r.choice(labels); emit({"k": "goto", "n": n}, "goto %s;" % n)
    block(0, [], {}, [])
    for n in labels:
        if n not in defined and not bad() and any(i["k"] == "goto" and i["n"] == n for i in items): emit({"k": "label", "n": n}, "%s: ;" % n)
    if ret == "int": emit({"k": "return", "v": True}, "return 0;")
    return {"items": items, "ret": ret, "text": "%s @(int z, int i, unsigned u, long l, char c){\n%s\n}" % (ret, "\n".join(out))}

def generate(r, n):
    cs = [gen(r) for _ in range(n)]; res = tlc_cases("Body", [{"items": c["items"], "ret": c["ret"]} for c in cs], inv=["Nested", "Distinct", "Balanced"], props=["Monotone"])
    return [(c["text"], res[k][0]) for k, c in enumerate(cs)]

if __name__ == "__main__":
    import collections; r = rng("bodies"); g = generate(r, 300); print(collections.Counter(s for _, s in g)); print(*[x for x in g if x[1] == "error"][:2], sep="\n")
