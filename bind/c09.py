"""C09: initialisers, decided by spec/InitMachine.tla."""
import json
from vlib import *
from ctype import *
import c01

PRE = c01.PRE + "enum en { EN0 }; void *memcpy(void *, const void *, unsigned long); void *memset(void *, int, unsigned long);\nvoid dirty(void){ char b[3000]; memset(b, 0xa5, sizeof b); }\n"

def members(ty):
    return [(k, m) for k, m in enumerate(ty["ms"]) if not (m["w"] >= 0 and m["n"] == "")]
class IGen:
    def __init__(self, r, objs=None): self.r, self.objs = r, objs or []
    def scalar(self, t):
        r = self.r; u = r.choice([t, t, "int"]) if t in TYPES else "int"
        return {"k": "e", "t": u, "v": word(interesting(r, u))}
    def string(self, ty):
        r = self.r; el = 1 if ty["of"]["t"] != "int" else 4
        n = r.choice([0, 1, 2, max(ty["n"] - 1, 0), ty["n"]]); n = min(n, ty["n"])
        b = [r.choice([65, 66, 97, 122, 48, 0, 10, 34, 92, 127, 255 if el == 1 else 300]) for _ in range(n)]
        return {"k": "s", "el": el, "b": b + [0]}
    def is_str(self, ty): return ty["k"] == "arr" and ty["of"]["k"] == "p" and ty["of"]["t"] in ("char", "uchar", "schar", "int")
    def init(self, ty, top=False):
        r = self.r
        if ty["k"] == "p":
            x = self.scalar(ty["t"])
            return {"k": "b", "items": [{"d": [], "x": x}]} if r.random() < .08 else x
        if self.is_str(ty) and r.random() < .4:
            s = self.string(ty)
            return {"k": "b", "items": [{"d": [], "x": s}]} if r.random() < .3 else s
        return {"k": "b", "items": self.items(ty)}
    def desig(self, ty):
        """a random designator list into ty -> (designators, type)"""
        r = self.r; d = []
        while True:
            if ty["k"] == "arr":
                k = r.randrange(ty["n"])
                if ty["n"] - k > 1 and r.random() < .15:
                    hi = r.randrange(k + 1, ty["n"]); d.append({"k": "r", "lo": k, "hi": hi})
                else: d.append({"k": "i", "i": k})
                ty = ty["of"]
            else:
                c = []
                def names(t):
                    for k, m in members(t):
                        if m["n"]: c.append(m)
                        else: names(m["ty"])
                names(ty)
                if not c: return None
                m = r.choice(c); d.append({"k": "f", "n": m["n"]}); ty = m["ty"]
            if ty["k"] == "p" or r.random() < .6: return d, ty
    def flat(self, ty, out):
        """brace-elided initialisers of all of ty"""
        r = self.r
        if ty["k"] == "p": out.append({"d": [], "x": self.scalar(ty["t"])})
        elif self.is_str(ty) and r.random() < .3: out.append({"d": [], "x": self.string(ty)})
        elif r.random() < .15: out.append({"d": [], "x": self.init(ty)})
        elif ty["k"] == "arr":
            for _ in range(ty["n"]): self.flat(ty["of"], out)
        else:
            ms = members(ty)
            for _, m in (ms[:1] if ty["u"] else ms): self.flat(m["ty"], out)
    def items(self, ty):
        r = self.r; out = []
        if ty["k"] == "p": return [{"d": [], "x": self.scalar(ty["t"])}]
        subs = [ty["of"]] * ty["n"] if ty["k"] == "arr" else [m["ty"] for _, m in members(ty)][:1 if ty["u"] else None]
        k = 0
        stop = r.randint(0, len(subs)) if r.random() < .4 else len(subs)
        if stop == 0 and r.random() < .8: stop = 1
        while k < stop:
            if r.random() < .22 and not (ty["k"] == "su" and ty["u"]):
                g = self.desig(ty)
                if g:
                    d, t = g; out.append({"d": d, "x": self.init(t) if r.random() < .8 or t["k"] == "p" else {"k": "b", "items": self.items(t)}})
                    # follow on from the designator for a while
                    if len(d) == 1 and d[0]["k"] in ("i", "r") and ty["k"] == "arr":
                        k = (d[0]["i"] if d[0]["k"] == "i" else d[0]["hi"]) + 1
                        continue
                    if r.random() < .5: break
                    if len(d) == 1 and d[0]["k"] == "f":
                        ns = [m["n"] for _, m in members(ty)]
                        if d[0]["n"] in ns: k = ns.index(d[0]["n"]) + 1; continue
                    break
            t = subs[k]
            if t["k"] == "su" and r.random() < .2 and any(o["tag"] == t["tag"] for o in self.objs):
                o = r.choice([o for o in self.objs if o["tag"] == t["tag"]])
                out.append({"d": [], "x": dict(k="o", tag=o["tag"], mem=o["mem"], nm=o["nm"])})
            elif t["k"] != "p" and r.random() < .35: self.flat(t, out)
            else: out.append({"d": [], "x": self.init(t)})
            k += 1
        if ty["k"] == "su" and ty["u"] and r.random() < .4:
            g = self.desig(ty)
            if g: out = [{"d": g[0], "x": self.init(g[1])}]
        elif r.random() < .2:       # override something
            g = self.desig(ty)
            if g: out.append({"d": g[0], "x": self.init(g[1])})
        if not out: return [{"d": [], "x": self.init(subs[0])}]
        return out

def ch(c, el):
    if 32 <= c < 127 and c not in (34, 92, 63): return chr(c)
    if el == 4 and c > 255: return "\\x%x" % c
    return "\\%03o" % c
def text(x, var=None):
    if x["k"] == "e":
        if var is not None:
            v = var(x)
            if v: return v
        return typed_lit(conv(unword(x["v"]), x["t"]), x["t"])
    if x["k"] == "s":
        s = x["b"][:-1]; out = ""
        for k, c in enumerate(s):
            e = ch(c, x["el"]); out += e
            if e.startswith("\\x"): out += '" L"'
        return ("L" if x["el"] == 4 else "") + '"%s"' % out
    if x["k"] == "o": return x["nm"]
    return "{" + ",".join((" ".join("") + "".join(".%s" % d["n"] if d["k"] == "f" else "[%d]" % d["i"] if d["k"] == "i" else "[%d ... %d]" % (d["lo"], d["hi"]) for d in it["d"]) + (" = " if it["d"] else "") + text(it["x"], var)) for it in x["items"]) + "}"

# rejections the compiler documents as unimplemented (recorded as known findings)
LIMIT = re.compile(r"can't replace _part_ of array-range subobject without braces|can't replace with a range currently")
FORMS = ["global", "global", "static", "auto", "auto", "autovar", "clit", "cstatic", "cassign", "ret", "nest"]
def mk(n, c):
    ty, x, form, r = c["ty"], c["x"], c["form"], random.Random(n)
    base = ty
    while base["k"] == "arr": base = base["of"]
    top = [sudef(base) + ";"] if base["k"] == "su" else []
    unk = c["unk"]
    T = declare(dict(ty, n="") if unk else ty, "")
    D = lambda nm: declare(dict(ty, n="") if unk else ty, nm)
    for o in c["objs"]:
        top.append("static union { unsigned char b[sizeof(%s %s)]; %s %s o; } u%s = {{%s}};\n#define %s u%s.o" % ("union" if o["u"] else "struct", o["tag"], "union" if o["u"] else "struct", o["tag"], o["nm"], ",".join(map(str, o["mem"])), o["nm"], o["nm"]))
    vn = [0]
    def var(e):
        if r.random() < .5: return None
        vn[0] += 1; nm = "v%d_%d" % (n, vn[0])
        top.append("%s %s = %s;" % (CN[e["t"]], nm, typed_lit(conv(unword(e["v"]), e["t"]), e["t"]))); return nm
    X = text(x, var if form in ("autovar", "nest") else None)
    O = "out2(%d,0,sizeof o); outmem(%d,&o,sizeof o);" % (n, n)
    if form == "global":
        top.append("%s = %s;" % (D("g%d" % n), X)); body = O.replace("&o", "&g%d" % n).replace("sizeof o", "sizeof g%d" % n)
    elif form == "static": body = "static %s = %s; %s" % (D("o"), X, O)
    elif form in ("auto", "autovar"): body = "char c1 = 3; %s = %s; char c2 = 4; %s if(c1 != 3 || c2 != 4) out2(%d,1,1);" % (D("o"), X, O, n)
    elif form == "nest": body = "for(int k = 0; k < 2; k++){ if(k){ %s = %s; %s } else { volatile char z[sizeof(%s)]; for(unsigned long q = 0; q < sizeof z; q++) z[q] = 0x5a; } }" % (D("o"), X, O, declare(dict(ty, n=c["res"]["len"]) if unk else ty, ""))
    elif form == "clit": body = "%s = &(%s)%s; out2(%d,0,sizeof *p); outmem(%d,p,sizeof *p);" % (declare(dict(ty, n=c["res"]["len"]) if unk else ty, "(*p)"), T, X, n, n)
    elif form == "cstatic":
        top.append("%s = &(%s)%s;" % (declare(dict(ty, n=c["res"]["len"]) if unk else ty, "(*p%d)" % n), T, X)); body = "out2(%d,0,sizeof *p%d); outmem(%d,p%d,sizeof *p%d);" % (n, n, n, n, n)
    elif form == "cassign": body = "%s; memset(&o,0x77,sizeof o); o = (%s)%s; %s" % (D("o"), T, X, O)
    elif form == "ret":
        top.append("%s{ dirty(); return (%s)%s; }" % (D("fr%d(void)" % n), T, X)); body = "%s = fr%d(); %s" % (D("o"), n, O)
    return "\n".join(top), "void f%d(void){ dirty(); %s }\nvoid h%d(void){ dirty(); f%d(); }" % (n, body, n, n), "h%d();" % n

def program(batch):
    p = [mk(n, c) for n, c in batch]
    return PRE + "\n".join(a + "\n" + b for a, b, _ in p) + "\nint main(void){\n" + "\n".join(x + " flush_out();" for _, _, x in p) + "\nreturn 0; }\n"

def check(batch, opts):
    src = program(batch); r = build_run(src, opts)
    if r["stage"] != "run" or r["rc"] != 0:
        if len(batch) == 1 and r["stage"] == "compile" and r["rc"] == 1 and LIMIT.search(r["out"]): return [(batch[0][0], None, src)]
        if len(batch) == 1: return [(batch[0][0], "%s failed with status %s: %s" % (r["stage"], r["rc"], r["out"][-600:]), src)]
        h = len(batch) // 2
        return check(batch[:h], opts) + check(batch[h:], opts)
    vals, mems = {}, {}
    for l in r["out"].split("\n"):
        p = l.split()
        if len(p) != 2: continue
        if "." in p[0]: vals.setdefault(p[0], []).append(int(p[1], 16))
        else: mems.setdefault(p[0], []).append(p[1])
    bad = []
    for n, c in batch:
        res = c["res"]; d = None
        sz = res["len"] * res["esize"] if c["unk"] else res["size"]
        if vals.get("%d.0" % n) != [sz]: d = "sizeof: expected %d, got %s" % (sz, vals.get("%d.0" % n))
        elif vals.get("%d.1" % n): d = "neighbouring variables overwritten"
        else:
            want, M = bytes(res["mem"])[:sz], bytes(res["msk"])[:sz]
            g = mems.get(str(n), [])
            got = bytes.fromhex(g[0]) if len(g) == 1 else b""
            if len(got) != len(want) or any((a ^ b) & m for a, b, m in zip(want, got, M)): d = "object: expected %s, got %s (defined bits %s)" % (want.hex(), got.hex(), M.hex())
        if d: bad.append((n, d, program([(n, c)])))
    return bad

def overrides(c):
    def f(x): return x["k"] == "b" and (any(it["d"] for it in x["items"]) or any(f(it["x"]) for it in x["items"]))
    return f(c["x"])

def go(rep):
    r = rng("C09")
    cases = []
    n = 16000 if THOROUGH else 2600
    for k in range(n):
        g = TGen(r, prefix="u%d_" % k, floats=False, packed=False, aligned=False, flex=False, maxm=r.choice([2, 3, 5]), bf=r.random() < .4, prims=TYPES + ["enum"] if r.random() < .3 else ["char", "int", "short", "uchar", "long", "bool"])
        c = r.random()
        if c < .55: ty = g.su(r.choice([1, 1, 2, 2, 3]), top=True)
        elif c < .9: ty = {"k": "arr", "n": r.choice([1, 2, 3, 4, 5]), "of": g.ty(r.choice([0, 1, 1, 2]))}
        else: ty = {"k": "arr", "n": r.choice([1, 2, 4, 7]), "of": {"k": "p", "t": r.choice(["char", "uchar", "int", "schar"])}}
        form = r.choice(FORMS)
        if ty["k"] != "su" and form in ("cassign", "ret"): form = "auto"
        objs = []
        if form in ("auto", "autovar", "nest", "clit", "ret", "cassign") and r.random() < .5:
            subs = []
            def collect(t, depth=0):
                if t["k"] == "arr": collect(t["of"], depth + 1)
                elif t["k"] == "su":
                    if depth and t.get("tag"): subs.append(t)
                    for m in t["ms"]:
                        if m["w"] < 0 and (m["n"] or m["ty"]["k"] != "su"): collect(m["ty"], depth + 1)
                        elif m["w"] < 0:
                            for q in m["ty"]["ms"]:
                                if q["w"] < 0 and q["n"]: collect(q["ty"], depth + 2)
            collect(ty)
            if subs:
                t = r.choice(subs); objs = [{"tag": t["tag"], "u": t["u"], "ty": t, "nm": "obj%d" % k}]
        unk = 1 if ty["k"] == "arr" and r.random() < .35 else 0
        cases.append({"ty": ty, "form": form, "unk": unk, "objs": objs})
    build_ucc(); rt_obj()
    # bytes of the struct-typed operands: any bytes (their own padding included)
    ot = [(c, o) for c in cases for o in c["objs"]]
    lay = tlc_cases("RunLayout", [strip(o["ty"]) for _, o in ot])
    for k, (c, o) in enumerate(ot):
        m = bytearray(r.getrandbits(8) for _ in range(lay[k][0]["size"]))
        for l in lay[k][0]["leaves"]:
            if l["t"] == "bool" and not l["bf"]: m[l["bit"] // 8] &= 1
        o["mem"] = list(m)
    for c in cases:
        g = IGen(r, [dict(o) for o in c["objs"]])
        x = g.init(c["ty"], True)
        if x["k"] == "s" and c["form"] in ("cassign", "ret"): x = {"k": "b", "items": [{"d": [], "x": x}]}
        if x["k"] == "s" and c["form"] in ("clit", "cstatic"): x = {"k": "b", "items": [{"d": [], "x": x}]}
        c["x"] = x
    def st2(t):
        if t["k"] == "p": return t
        if t["k"] == "arr": return {"k": "arr", "n": t["n"], "of": st2(t["of"])}
        return {"k": "su", "u": t["u"], "pk": t["pk"], "al": t["al"], "tag": t["tag"], "ms": [dict(m, ty=st2(m["ty"])) for m in t["ms"]]}
    def sp(x):
        if x["k"] == "o": return {k: x[k] for k in ("k", "tag", "mem")}
        if x["k"] == "b": return {"k": "b", "items": [{"d": it["d"], "x": sp(it["x"])} for it in x["items"]]}
        return x
    res = tlc_cases("InitMachine", [{"ty": st2(dict(c["ty"], n=c["ty"]["n"] + 4) if c["unk"] else c["ty"]), "x": sp(c["x"]), "unk": c["unk"]} for c in cases], inv=["TypeOK", "OneMember", "CursorInside"])
    for n, c in enumerate(cases): c["res"] = res[n][0]
    ok = [(n, c) for n, c in enumerate(cases) if not c["res"]["bad"] and not (c["unk"] and c["res"]["len"] == 0)]
    B = 30
    lim = 0
    opts = [(), ("-fno-pic",), (), ("-O2",)]
    jobs = [(ok[k:k + B], opts[(k // B) % 4]) for k in range(0, len(ok), B)]
    for l, j in zip(pmap(lambda j: check(*j), jobs), jobs):
        for n, d, src in l:
            c = cases[n]; base = base_of(c["ty"])
            if d is None:
                lim += 1
                rep.violation("unimplemented-array-override" if overrides(c) else "override diagnosed without one: " + text(c["x"]), "rejected", {"program.c": src}); continue
            rep.violation("%s %s = %s (%s)" % (sudef(base) if base["k"] == "su" else "", declare(dict(c["ty"], n="") if c["unk"] else c["ty"], "o"), text(c["x"]), c["form"]), "options %s: %s" % (" ".join(j[1]), d), {"program.c": src})
    rep.cov.update(traces_validated_against_impl=len(ok) - lim, unimplemented=lim, cases_generated=len(cases), ill_formed_dropped=len(cases) - len(ok))
    for n, c in ok[:1] + ok[-1:]: rep.sample({"init": text(c["x"]), "type": declare(c["ty"], "o"), "bytes": bytes(c["res"]["mem"]).hex()})

if __name__ == "__main__": main(go, "C09", "model_checking")
