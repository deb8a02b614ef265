"""C08: bit-field accesses, decided by spec/StructMachine.tla."""
import json
from vlib import *
from ctype import *
from cexpr import ARITH, REL, SH
import c01, c07

PRE = c01.PRE + "enum en { EN0 }; void *memcpy(void *, const void *, unsigned long);\n"
FORMS = ["g", "p", "l", "a", "r", "pp"]

def pyleaves(ty, path=()):
    """paths of the scalar leaves in declaration order (which leaf is meant; their place is the specification's business)"""
    if ty["k"] == "p": return [(list(path), ty["t"], -1)]
    if ty["k"] == "arr": return [x for j in range(ty["n"]) for x in pyleaves(ty["of"], (*path, j + 1))]
    out = []
    for k, m in enumerate(ty["ms"]):
        if m["w"] >= 0:
            if m["n"]: out.append(([*path, k + 1], m["ty"]["t"], m["w"]))
        else: out += pyleaves(m["ty"], (*path, k + 1))
    return out

def mkcase(r, k, cap=60):
    while True:
        g = TGen(r, prefix="u%d_" % k, floats=False, packed=False, aligned=False, flex=False, maxm=6)
        ty = g.su(r.choice([0, 0, 1, 1, 2]), top=True)
        lv = pyleaves(ty)
        bfl = [n for n, l in enumerate(lv) if l[2] >= 0]
        if bfl and len(lv) <= cap: return ty, lv, bfl

def ops_for(r, lv, bfl, size, n):
    ops = []
    for _ in range(n):
        li = r.choice(bfl) if r.random() < .85 else r.randrange(len(lv))
        _, t, w = lv[li]
        k = r.choice(["read", "read", "store", "store", "store", "cas", "cas", "cas", "pre", "post", "expr", "expr", "un"])
        o = {"k": k, "leaf": li + 1, "base": size * r.choice([1, 1, 1, 0, 2]), "op": "", "t": "int", "v": word(0)}
        if k in ("store", "cas", "expr"):
            o["t"] = r.choice(TYPES); v = interesting(r, o["t"])
            if k == "cas": o["op"] = r.choice(ARITH + SH)
            if k == "expr": o["op"] = r.choice(ARITH + SH + REL)
            if o["op"] in SH: v = conv(r.choice([0, 1, 2, 3, 7, 15, 31]), o["t"])
            if o["op"] in ("+", "-", "*") and r.random() < .6: v = conv(r.choice([1, 2, 3, -1, 5]), o["t"])
            o["v"] = word(v); o["src"] = r.choice(["lit", "lit", "var", "loc"]); o["iv"] = v
        elif k in ("pre", "post"): o["op"] = r.choice("+-")
        elif k == "un": o["op"] = r.choice("!~-+")
        o["use"] = r.choice(["out", "out", "out", "discard", "cond"]) if k not in ("read", "expr", "un") else r.choice(["out", "out", "cond"])
        ops.append(o)
    return ops

def mk(n, c):
    ty, form = c["ty"], c["form"]
    T = "%s %s" % ("union" if ty["u"] else "struct", ty["tag"])
    top = [sudef(ty) + ";", "static union { %s a[3]; unsigned char b[3*sizeof(%s)]; } o%d = { .b = {%s} };" % (T, T, n, ",".join(map(str, c["mem"])))]
    b, loc = [], ""
    S = c["size"]
    params, args = "", ""
    if form == "l": loc = "char g0[16]; %s l[3]; memcpy(l, &o%d, sizeof l);" % (T, n)
    elif form == "p": params, args = "%s *p" % T, "o%d.a" % n
    elif form == "pp": loc = "%s *q = o%d.a, **pp = &q;" % (T, n)
    elif form == "r": top.append("%s *fr%d(int k){ return &o%d.a[k]; }" % (T, n, n))
    if c["idx"]: loc += " volatile int ix[3] = {0,1,2};"
    def base(e):
        i = "ix[%d]" % e if c["idx"] else str(e)
        return {"g": "o%d.a[%s]" % (n, i), "a": "(*(o%d.a + %s))" % (n, i), "l": "l[%s]" % i, "p": "p[%s]" % i, "pp": "(*pp)[%s]" % i, "r": "fr%d(%s)[0]" % (n, i)}[form]
    for k, o in enumerate(c["ops"]):
        L = base(o["base"] // S) + path_text(ty, c["lv"][o["leaf"] - 1][0])
        v = None
        if "iv" in o:
            v = typed_lit(o["iv"], o["t"])
            if o["src"] == "var": top.append("%s v%d_%d = %s;" % (CN[o["t"]], n, k, v)); v = "v%d_%d" % (n, k)
            elif o["src"] == "loc": loc += " %s w%d = %s;" % (CN[o["t"]], k, v); v = "w%d" % k
        E = {"read": L, "store": "%s = %s" % (L, v), "cas": "%s %s= %s" % (L, o["op"], v), "pre": "%s%s%s" % (o["op"] * 2, L, ""), "post": "%s%s" % (L, o["op"] * 2),
             "expr": "%s %s %s" % (L, o["op"], v), "un": "%s %s" % (o["op"], L)}[o["k"]]
        if o["use"] == "out": b.append("out2(%d,%d,(unsigned long)(%s));" % (n, k, E))
        elif o["use"] == "cond": b.append("if(%s) out2(%d,%d,1); else out2(%d,%d,0);" % (E, n, k, n, k))
        else: b.append(E + ";")
    if form == "l": b.append("memcpy(&o%d, l, sizeof l);" % n)
    b.append("outmem(%d, &o%d, sizeof o%d);" % (n, n, n))
    return "\n".join(top), "void f%d(%s){ %s %s }" % (n, params, loc, "\n ".join(b)), "f%d(%s);" % (n, args)

def program(batch, pre=PRE):
    p = [mk(n, c) for n, c in batch]
    return pre + "\n".join(a + "\n" + b for a, b, _ in p) + "\nint main(void){\n" + "\n".join(x + " flush_out();" for _, _, x in p) + "\nreturn 0; }\n"

def mask(res, copies=3):
    """bytes of defined (non-padding) bits"""
    m = bytearray(res["size"])
    for l in res["leaves"]:
        for b in range(l["bit"], l["bit"] + l["w"]): m[b // 8] |= 1 << (b % 8)
    return bytes(m) * copies

def check(batch, opts, program=program):
    src = program(batch); r = build_run(src, opts)
    if r["stage"] != "run" or r["rc"] != 0:
        if len(batch) == 1: return [(batch[0][0], "%s failed with status %s: %s" % (r["stage"], r["rc"], r["out"][-500:]), src)]
        h = len(batch) // 2
        return check(batch[:h], opts, program) + check(batch[h:], opts, program)
    vals, mems = {}, {}
    for l in r["out"].split("\n"):
        p = l.split()
        if len(p) != 2: continue
        if "." in p[0]: vals[p[0]] = int(p[1], 16)
        else: mems[p[0]] = p[1]
    bad = []
    for n, c in batch:
        res = c["res"]; d = None
        for k, o in enumerate(c["ops"]):
            e = unword(res["out"][k])
            if o["use"] == "discard": continue
            if o["use"] == "cond": e = int(e != 0)
            g = vals.get("%d.%d" % (n, k))
            if g != e: d = "operation %d (%s %s): expected %x, got %s" % (k, o["k"], o["op"], e, g if g is None else "%x" % g); break
        if not d:
            M = mask(res); want = bytes(res["mem"]); got = bytes.fromhex(mems.get(str(n), ""))
            if len(got) != len(want) or any((x ^ y) & z for x, y, z in zip(want, got, M)): d = "memory after the operations: expected %s, got %s (defined bits %s)" % (want.hex(), got.hex(), M.hex())
        if d: bad.append((n, d, program([(n, c)])))
    return bad

def go(rep):
    r = rng("C08")
    cases = []
    def add(ty, lv, bfl, nops):
        cases.append({"ty": ty, "lv": lv, "bfl": bfl, "nops": nops, "form": r.choice(FORMS), "idx": r.random() < .4})
    # every type x width x start position (sampled in the quick tier)
    for t in TYPES:
        if t in ("llong", "ullong"): continue
        W = 1 if t == "bool" else 8 * size(t)
        for w in range(1, W + 1):
            if not THOROUGH and w not in (1, 2, W // 2, W - 1, W) and r.random() < .75: continue
            for pre in (range(0, W - w + 1) if THOROUGH else sorted({0, W - w, r.randint(0, W - w)})):
                ms = [{"n": "m2", "w": w, "al": 0, "pk": 0, "ty": {"k": "p", "t": t}}]
                if pre: ms.insert(0, {"n": "m1", "w": pre, "al": 0, "pk": 0, "ty": {"k": "p", "t": t}}) if t != "bool" else None
                if r.random() < .7: ms.append({"n": "m3", "w": r.randint(1, W), "al": 0, "pk": 0, "ty": {"k": "p", "t": t}})
                if r.random() < .3: ms.insert(0, {"n": "m0", "w": -1, "al": 0, "pk": 0, "ty": {"k": "p", "t": r.choice(["char", "short", "int"])}})
                ty = {"k": "su", "u": 0, "pk": 0, "al": 0, "ms": ms, "tag": "t%d" % len(cases)}
                lv = pyleaves(ty); add(ty, lv, [n for n, l in enumerate(lv) if l[2] >= 0], 6)
    for k in range(10000 if THOROUGH else 900):
        add(*mkcase(r, k), r.randint(3, 14))
    build_ucc(); rt_obj()
    lay = tlc_cases("RunLayout", [strip(c["ty"]) for c in cases])
    for n, c in enumerate(cases):
        S = c["size"] = lay[n][0]["size"]
        c["mem"] = bytearray(r.choice([0, 255, None]) if 0 else (r.choice([0, 255]) if r.random() < .3 else r.getrandbits(8)) for _ in range(3 * S))
        for l in lay[n][0]["leaves"]:       # a _Bool holds 0 or 1
            if l["t"] == "bool" and not l["bf"]:
                for q in range(3): c["mem"][q * S + l["bit"] // 8] &= 1
        c["mem"] = list(c["mem"])
        c["ops"] = ops_for(r, c["lv"], c["bfl"], S, c["nops"])
    res = tlc_cases("StructMachine", [{"ty": strip(c["ty"]), "mem": c["mem"], "ops": [{x: o[x] for x in ("k", "leaf", "base", "op", "t", "v")} for o in c["ops"]]} for c in cases],
        cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Bytes\nPROPERTY Frame ReadBack\n")
    for n, c in enumerate(cases): c["res"] = res[n][0]
    ok = []
    for n, c in enumerate(cases):
        if c["res"]["ub"]:      # keep the defined prefix
            continue
        ok.append((n, c))
    B = 30
    opts = [(), ("-fno-pic",), ("-O2",), ()]
    jobs = [(ok[k:k + B], opts[(k // B) % 4]) for k in range(0, len(ok), B)]
    for l, j in zip(pmap(lambda j: check(*j), jobs), jobs):
        for n, d, src in l:
            rep.violation(sudef(cases[n]["ty"]) + " / " + cases[n]["form"], "options %s: %s" % (" ".join(j[1]), d), {"program.c": src})
    rep.cov.update(traces_validated_against_impl=len(ok), operations=sum(len(c["ops"]) for _, c in ok), undefined_dropped=len(cases) - len(ok))
    for n, c in ok[:1] + ok[-1:]: rep.sample({"type": sudef(c["ty"]), "ops": len(c["ops"]), "final": bytes(c["res"]["mem"]).hex()})

if __name__ == "__main__": main(go, "C08", "model_checking")
