"""C12: symbols, decided by spec/Linkage.tla."""
import itertools
from vlib import *

def decl(st, d=False, inl=False, val=0, whole=True, weak=False, vis="-", used=False): return {"k": "decl", "st": st, "def": d, "inl": inl, "val": val, "whole": whole, "weak": weak, "vis": vis, "used": used}
def use(k, val=0): return {"k": k, "val": val}
OBJ = [decl(s, d) for s in ("none", "ext", "sta") for d in (False, True)] + [use(k) for k in ("use", "block", "hide", "mute", "local")]
FUN = [decl(s, d, n) for s in ("none", "ext", "sta") for d in (False, True) for n in (False, True)] + [use(k) for k in ("use", "call", "block", "hide", "mute")]

def spell(c, n):
    """-> the translation unit's lines for case c, the entity called n"""
    out, arr, g = [], c["arr"], 0
    for t, x in enumerate(c["items"]):
        if x["k"] == "decl":
            at = "".join([" __attribute__((weak))"] * x["weak"] + [' __attribute__((visibility("%s")))' % x["vis"]] * (x["vis"] != "-") + [" __attribute__((used))"] * x["used"])
            s = {"none": "", "ext": "extern ", "sta": "static "}[x["st"]] + ("inline " if x["inl"] else "")
            if c["fn"]: out.append("%s%sint %s(void)%s" % (at[1:] + " " if at and x["def"] else "", s, n, " { return %d; }" % x["val"] if x["def"] else (at + ";")))
            else: out.append("%sint %s%s%s%s;" % (s, n, ("[%s]" % ("3" if x["whole"] else "") if arr else ""), at, (" = { %d, 1, 2 }" if arr else " = %d") % x["val"] if x["def"] else ""))
            continue
        k = x["k"]; name = "%s_%d" % (n, g); g += 1
        ret = "return (void *)%s%s;" % ("" if arr or c["fn"] else "&", n); d = "%s(void)" % n if c["fn"] else n + "[3]" * arr
        st = "" if c["fn"] and (t % 2) else "extern "
        body = {"use": ret, "block": "%sint %s; %s" % (st, d, ret), "hide": "int %s = 3; if(%s){ %sint %s; %s } return 0;" % (n, n, st, d, ret), "mute": "%sint %s; return 0;" % (st, d),
                "local": "static int %s = %d; return &%s;" % (n, x["val"], n), "call": "static long r; r = %s(); return &r;" % n,
                "badinit": "extern int %s = 3; return 0;" % n, "badstatic": "static int %s(void); return 0;" % n}[k]
        out.append("void *%s(void){ %s }" % (name, body))
    return "\n".join(out) + "\n"

def rand(r):
    fn = r.random() < .5; arr = not fn and r.random() < .35
    base = FUN if fn else OBJ
    # mostly sensible histories
    link = r.choice(["none", "none", "ext", "sta"]); items, d, vis = [], False, r.random() < .3
    for t in range(r.randint(1, 9)):
        if r.random() < (.9 if not any(x["k"] == "decl" for x in items) else .5):
            st = r.choice(["none", "ext"] if link != "sta" else ["sta", "ext"]) if r.random() < .96 else r.choice(["none", "ext", "sta"])
            if link == "sta" and not any(x["k"] == "decl" for x in items): st = "sta"
            if link == "sta" and fn and items and r.random() < .3: st = "none"
            df = (not d and r.random() < .35) or r.random() < .02; d |= df
            whole = st == "sta" or r.random() < .5
            x = decl(st, df, fn and r.random() < .4, whole=whole)
            first = not any(y["k"] == "decl" for y in items)
            if first and not items and link != "sta" and r.random() < .3: x["weak"] = True
            if vis and link != "sta" and st != "sta" and not any(y["k"] == "decl" and (y["vis"] != "-" or y["def"] or (not fn and y["st"] == "none")) for y in items) and r.random() < .6: x["vis"] = r.choice(["hidden", "protected", "default"])
            if (df or (not fn and st == "sta")) and r.random() < .2: x["used"] = True
        else: x = dict(r.choice([y for y in base if y["k"] != "decl"]))
        items.append(x)
    if r.random() < .02: items.append(use("badinit" if not fn else "badstatic"))
    return {"fn": fn, "arr": arr, "items": items}

def fix(c, r):
    for t, x in enumerate(c["items"]):
        x = c["items"][t] = dict(x)
        if x["k"] == "call" and any(y.get("weak") for y in c["items"]): x["k"] = "use" # may be null
        if x.get("st") == "sta": x["weak"] = False
        if x["k"] == "decl" and x["def"] or x["k"] == "local": x["val"] = r.randint(1, 900)
    if not c["arr"]: return c
    for x in c["items"]:
        if x["k"] == "decl" and x["def"]: x["whole"] = True
    return c

def syms(o):
    """-> {name: (bind, vis, where, size, type)}"""
    rc, e, _ = run(["readelf", "-SsW", o]); sec, out = {}, {}
    for l in e.decode().split("\n"):
        m = re.match(r"\s*\[\s*(\d+)\] (\S+)", l)
        if m: sec[m[1]] = m[2]
        m = re.match(r"\s*\d+: [0-9a-f]+\s+(\S+) (\w+)\s+(\w+)\s+(\w+)\s+(\w+) (\S+)$", l)
        if m:
            s = {"UND": "und", "COM": "common"}.get(m[5]) or re.sub(r"^\.(text|data|bss|rodata).*", r"\1", sec.get(m[5], m[5]))
            out.setdefault(m[6], []).append((m[3], m[4].lower(), s, int(m[1], 0), m[2]))
    return out

OPTS = [([], {}), (["-fno-common"], {"common": False}), (["-fvisibility=hidden"], {"visopt": "hidden"}), (["-fpic"], {}), (["-fvisibility=protected", "-fno-common"], {"visopt": "protected", "common": False}), (["-g"], {}), (["-O2"], {})]

def go(rep):
    r = rng("C12"); cases = []
    for base, fn, mx in ((OBJ, False, 4 if THOROUGH else 3), (FUN, True, 3)):
        for n in range(1, mx + 1):
            for t in itertools.product(base, repeat=n):
                if not THOROUGH and n == mx and fn and r.random() < .5: continue
                cases.append({"fn": fn, "arr": False, "items": list(t)})
    exh = len(cases)
    cases += [rand(r) for _ in range(30000 if THOROUGH else 3000)]
    for k, c in enumerate(cases):
        fix(c, r); o = 0 if k < exh and r.random() < .6 else r.randrange(len(OPTS))
        c["o"] = o; c.update({"common": True, "visopt": "default", **OPTS[o][1]})
    res = {k: v[0] for k, v in tlc_cases("Linkage", cases, inv=["TypeOK", "NoDangling", "CommonTent"], props=["Stable", "OneDef"], timeout=3000).items()}
    u = ucc(); d = sub("c12")
    ok = [k for k in range(len(cases)) if res[k]["v"] == "ok"]; bad = [k for k in range(len(cases)) if res[k]["v"] == "reject"]
    r.shuffle(bad); bad = bad[:6000 if THOROUGH else 500]
    def nm(k): return "n%d" % k
    def main_c(ks):
        """the other translation units: main, and what the names need from elsewhere"""
        m, lib = ["int printf(const char *, ...);"], []
        for k in ks:
            c, w, n = cases[k], res[k], nm(k); g = 0
            ext = w["link"] == "ext"
            if ext: m.append("extern int %s%s%s;" % (n, "(void)" if c["fn"] else "", " __attribute__((weak))" if w["sym"]["bind"] == "WEAK" and not w["defd"] else ""))
            if ext and not w["defd"] and w["sym"]["bind"] == "GLOBAL": lib.append("int %s%s" % (n, "(void){ return %d; }" % (1000 + k % 50) if c["fn"] else " = %d;" % (1000 + k % 50)) if not c["arr"] else "int %s[3] = { %d, 1, 2 };" % (n, 1000 + k % 50))
            for g in range(len(w["uses"])): m.append("extern void *%s_%d(void);" % (n, g))
        m.append("static void at(int k, int g, void *p, void *x, int fn){ printf(\"%d %d %s %ld\\n\", k, g, !p ? \"null\" : p == x ? \"X\" : \"other\", !p ? 0L : fn ? (long)((int (*)(void))p)() : (long)*(int *)p); }\nint main(void){")
        for k in ks:
            c, w, n = cases[k], res[k], nm(k)
            first = next((g for g, x in enumerate(w["uses"]) if x == "entity"), None)
            x = "(void *)&" + n if w["link"] == "ext" else "%s_%d()" % (n, first) if first is not None else "(void *)0"
            for g, what in enumerate(w["uses"]): m.append("at(%d, %d, %s_%d(), %s, %d);" % (k, g, n, g, x, c["fn"] and what == "entity"))
        return "\n".join(m) + "\nreturn 0; }\n", "\n".join(lib) + "\n"
    def expect(k):
        c, w = cases[k], res[k]; out = []
        und = w["link"] == "ext" and not w["defd"]
        v = 1000 + k % 50 if und else w["val"]; null = und and w["sym"]["bind"] == "WEAK"
        vis = [x for x in c["items"] if x["k"] != "decl"]
        for g, what in enumerate(w["uses"]):
            out.append((g, "null", {0}) if what == "none" or what == "entity" and null else (g, "X", {v}) if what == "entity" else (g, "other", {vis[g]["val"]}) if what == "own" else (g, "other", {v, w["val"]} if w["body"] else {v}))
        return out
    def symbad(k, S):
        c, w = cases[k], res[k]; s = w["sym"]; got = S.get(nm(k), [])
        if not got: return "%s isn't in the symbol table, expected %s" % (nm(k), s) if s["must"] else None
        if len(got) > 1: return "%d symbols %s" % (len(got), got)
        b, vis, where, size, ty = got[0]
        if s["where"] == "no": return "internal, undefined and unused, but in the symbol table: %s" % (got,)
        if where != s["where"] and not (where == "data" and w["val"] == 0 and s["where"] == "bss"): return "%s is in %s, expected %s" % (nm(k), where, s["where"])
        if b != s["bind"]: return "%s is %s, expected %s" % (nm(k), b, s["bind"])
        if where == "und":
            if not s["must"] and not any(x["k"] in ("decl",) and x.get("weak") for x in c["items"]) and not any(x in ("value", "entity") for x in w["uses"]) and not (c["o"] == 5): return "%s is referenced, but not used" % nm(k)
            return
        if vis != w["vis"] and w["vis"] != "-": return "%s has %s visibility, expected %s" % (nm(k), vis, w["vis"])
        if w["size"] and size != w["size"]: return "%s has size %d, expected %d" % (nm(k), size, w["size"])
        if ty != ("FUNC" if c["fn"] else "OBJECT"): return "%s is a %s" % (nm(k), ty)
    def batch(ks):
        """-> [(case, what is wrong)]"""
        n = "b%d" % ks[0] + "_%d" % len(ks); src = "".join(spell(cases[k], nm(k)) for k in ks); opts = OPTS[cases[ks[0]]["o"]][0]
        p = os.path.join(d, n); open(p + ".c", "w").write(src)
        rc, o, e = run([u, "-w", *opts, "-c", "-o", p + ".o", p + ".c"])
        if rc:
            if len(ks) == 1: return [(ks[0], "rejected: " + e.decode(errors="replace")[:300])]
            return [x for k in ks for x in batch([k])]
        S = syms(p + ".o"); out = [(k, x) for k in ks for x in [symbad(k, S)] if x]
        m, lib = main_c(ks); open(p + "_m.c", "w").write(m); open(p + "_l.c", "w").write(lib)
        rc, o, e = run(["gcc", "-w", "-no-pie", "-fno-builtin", "-o", p, p + "_m.c", p + "_l.c", p + ".o", "-z", "noexecstack"])
        if rc:
            if len(ks) == 1: return out or [(ks[0], "doesn't link: " + e.decode(errors="replace")[:400])]
            return [x for k in ks for x in batch([k])]
        rc, o, e = run([p]); got = {}
        for l in o.decode().split("\n"):
            if l: a, b, x, y = l.split(); got.setdefault(int(a), []).append((int(b), x, int(y)))
        if rc and len(ks) > 1: return [x for k in ks for x in batch([k])]
        if rc: return out + [(ks[0], "ends with %s" % rc)]
        for k in ks:
            E, G = expect(k), got.get(k, [])
            if len(E) != len(G) or any(a[0] != b[0] or a[1] != b[1] or b[2] not in a[2] for a, b in zip(E, G)): out.append((k, "uses designate %s, expected %s" % (G, E)))
        for f in (".c", ".o", "_m.c", "_l.c", ""):
            if not out: os.unlink(p + f)
        return out
    def reject(k):
        p = os.path.join(d, "r%d" % k); open(p + ".c", "w").write(spell(cases[k], nm(k)))
        rc, o, e = run([u, "-w", "-S", "-o", p + ".s", p + ".c"])
        os.unlink(p + ".c")
        if rc == 0: return [(k, "accepted, but ill-formed")]
        if rc != 1: return [(k, "ended with %s" % rc)]
        return []
    groups = []
    for o in range(len(OPTS)):
        ks = [k for k in ok if cases[k]["o"] == o]; groups += [ks[j:j + 40] for j in range(0, len(ks), 40)]
    wrong = [x for l in pmap(batch, groups) for x in l] + [x for l in pmap(reject, bad) for x in l]
    for k, what in wrong[:40]:
        src = spell(cases[k], "x"); rep.violation(src + " ".join(OPTS[cases[k]["o"]][0]), "%s\n%s%s" % (" ".join(OPTS[cases[k]["o"]][0]), src, what), {"x.c": src})
    rep.cov.update(traces_validated_against_impl=len(ok) + len(bad), histories_enumerated=exh, well_formed=len(ok), ill_formed=len(bad), undefined=sum(res[k]["v"] == "any" for k in range(len(cases))), cases_generated=len(cases))
    for k in ok[-3:]: rep.sample({"source": spell(cases[k], "x"), "symbol": res[k]["sym"], "visibility": res[k]["vis"]})

if __name__ == "__main__": main(go, "C12", "model_checking")
