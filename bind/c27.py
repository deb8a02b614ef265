"""C27: what -g says about a program, decided by spec/Dwarf.tla (types laid out by spec/Layout.tla).
A random program records, at its observation points, the address of the code and of the objects named there.
The DWARF of the executable is looked up at those addresses, as a debugger would, and compared with what the
specification gives.  The same programs, and the repository's test programs, are compiled with and without -g:
the sections of the program itself have to be the same."""
import re, glob, hashlib
from vlib import *
from ctype import *
import ctype as ct

RT = r'''
#include <stdio.h>
int rec(long k){ printf("%ld %p\n", k, (char *)__builtin_return_address(0) - 1); return 1; }
int recv(long k, void *p, char *fp){ int i; printf("%ld %p %p %ld", k, (char *)__builtin_return_address(0) - 1, p, (char *)p - fp);
  for(i = -4096; i < 0; i += 8) if(*(void **)(fp + i) == p) printf(" %d", i); printf("\n"); return 1; }
'''
PRE = "int rec(long); int recv(long, void *, char *); extern volatile int vz, vo; volatile long vs;\n"
NM = ["a", "b", "c", "d"]
P = lambda t: {"k": "p", "t": t}

def decl(ty, s):
    k = ty["k"]
    if k == "p": return "%s %s" % (ct.NAMES[ty["t"]], s)
    if k == "void": return "void " + s
    if k == "arr": return decl(ty["of"], "%s[%s]" % (s, ty.get("vla") or ty["n"]))
    if k == "ptr": return decl(ty["of"], "(*%s)" % s if ty["of"]["k"] in ("arr", "fn") else "*" + s)
    if k == "fn": return decl(ty["ret"], "%s(%s)" % (s, ", ".join(decl(p, "") for p in ty["ps"]) or "void"))
    if k == "td": return "%s %s" % (ty["name"], s)
    if k == "enum": return "enum %s %s" % (ty["tag"], s)
    if k == "sref": return "%s %s %s" % ("union" if ty["u"] else "struct", ty["tag"], s)
    if k == "q":
        q = " ".join(["const"] * ty["c"] + ["volatile"] * ty["v"])
        return decl(ty["of"], "%s %s" % (q, s)) if ty["of"]["k"] == "ptr" and s[:1] != "*" else "%s %s" % (q, decl(ty["of"], s)) if ty["of"]["k"] != "ptr" else decl(ty["of"], q + " " + s)
    if k == "su":
        if ty["tag"] and ty.get("done"): return "%s %s %s" % ("union" if ty["u"] else "struct", ty["tag"], s)
        return "%s %s%s { %s } %s" % ("union" if ty["u"] else "struct", ("__attribute__((packed)) " if ty["pk"] else "") + ("__attribute__((aligned(%d))) " % ty["al"] if ty["al"] else ""), ty["tag"],
            " ".join(("_Alignas(%d) " % m["al"] if m["al"] else "") + decl(m["ty"], m["n"]) + (" : %d" % m["w"] if m["w"] >= 0 else "") + ";" for m in ty["ms"]), s)
    raise KeyError(k)

class Gen:
    def __init__(self, r):
        self.r = r; self.n = 0; self.ids = 0; self.obs = 0; self.items = []; self.out = []; self.cur = ["a.c"]; self.files = {}; self.text = {"a.c": []}
        self.tds = []; self.sus = []; self.ens = []; self.vis = [[]]; self.fns = []; self.inc = 0
    # ---- types
    def fresh(self, p): self.n += 1; return "%s%d" % (p, self.n)
    def prim(self): return P(self.r.choice(ct.TYPES + ["float", "double"]))
    def scalar(self, d):
        r = self.r; c = r.random()
        if c < .45 or d <= 0: t = self.prim()
        elif c < .7: t = {"k": "ptr", "of": self.pointee(d - 1)}
        elif c < .8 and self.ens: t = r.choice(self.ens)
        elif c < .92:
            g = [x for x in self.tds if x["of"]["k"] in ("p", "ptr", "enum", "q", "td") and x["s"]]
            t = r.choice(g) if g else self.prim()
        else: t = self.prim()
        if t["k"] in ("p", "ptr", "enum") and r.random() < .15: t = {"k": "q", "c": 0, "v": 1, "of": t}
        return t
    def pointee(self, d):
        r = self.r; c = r.random()
        if c < .15: return {"k": "void"}
        if c < .35 and self.sus: s = r.choice(self.sus); return {"k": "sref", "u": s["u"], "tag": s["tag"]}
        if c < .5: return {"k": "fn", "ret": self.scalar(d - 1) if r.random() < .7 else {"k": "void"}, "ps": [self.unq(self.scalar(d - 1)) for _ in range(r.randint(0, 3))]}
        if c < .6: return {"k": "arr", "n": r.randint(1, 5), "of": self.scalar(d - 1)}
        if c < .7: return {"k": "q", "c": 1, "v": 0, "of": self.prim()}
        return self.scalar(d)
    def unq(self, t): return t["of"] if t["k"] == "q" else t
    def obj(self, d):
        r = self.r; c = r.random()
        if c < .5: return self.scalar(d)
        if c < .65: return {"k": "arr", "n": r.randint(1, 7), "of": self.obj(d - 1) if d > 0 else self.prim()}
        if c < .75:
            g = [x for x in self.tds if not x["s"]]
            return r.choice(g) if g else self.scalar(d)
        if c < .9 and self.sus: return r.choice(self.sus)
        return self.scalar(d)
    def su(self, d, tag):
        r = self.r; u = int(r.random() < .2); pk = int(r.random() < .1); ms = []; bfs = r.random() < .5 and not pk
        for _ in range(r.randint(1, 7)):
            m = {"n": self.fresh("m"), "w": -1, "al": 0, "pk": 0}
            if bfs and r.random() < .6:
                t = r.choice([x for x in ct.TYPES if x not in ("llong", "ullong")]); b = 1 if t == "bool" else 8 * ct.size(t)
                m["ty"] = P(t); m["w"] = min(b, r.choice([1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 31, 32, 33, 47, 64]))
                if r.random() < .08: m["n"] = ""; m["w"] = r.choice([0, m["w"]])
            elif d > 0 and r.random() < .25:
                anon = r.random() < .5; m["ty"] = self.su(d - 1, ""); m["n"] = "" if anon else m["n"]
            elif tag and r.random() < .15: m["ty"] = {"k": "ptr", "of": {"k": "sref", "u": u, "tag": tag}}
            else: m["ty"] = self.obj(1)
            if r.random() < .05 and not pk and m["w"] < 0 and m["n"]: m["al"] = 16
            ms.append(m)
        if not any(m["n"] for m in ms): ms.append({"n": self.fresh("m"), "w": -1, "al": 0, "pk": 0, "ty": self.prim()})
        if pk and any(overal(m["ty"]) for m in ms): pk = 0   # (a known finding of C07)
        return {"k": "su", "u": u, "pk": pk, "al": r.choice([0] * 9 + [16]), "tag": tag, "ms": ms}
    # ---- text
    def put(self, item, text):
        self.items.append(item); self.text[self.cur[-1]].append(text)
    def id(self): self.ids += 1; return self.ids
    def ob(self, name="", lo=0, hi=None): self.obs += 1; return {"id": self.obs, "name": name, "straight": int(self.straight), "lo": lo, "hi": lo if hi is None else hi}
    def types(self):
        r = self.r
        for _ in range(r.randint(2, 6)):
            c = r.random()
            if c < .2:
                v = -1; es = []
                for _ in range(r.randint(1, 4)): v = r.choice([v + 1, r.randint(-2**31, 2**31 - 1), r.randint(0, 9)]); v = min(v, 2**31 - 1); es.append([self.fresh("E"), v])
                e = {"k": "enum", "tag": self.fresh("e"), "es": es}
                t = "enum %s { %s };" % (e["tag"], ", ".join("%s = %s" % (n, v if v > -2**31 else "-2147483647 - 1") for n, v in es)); self.ens.append(e)
            elif c < .65:
                s = self.su(2, self.fresh("s")); t = decl(s, "").strip() + ";"; s = dict(s, done=1); self.sus.append(s)
            else:
                of = self.obj(2); n = self.fresh("t"); td = {"k": "td", "name": n, "of": of}
                td["s"] = self.isscal(of); t = "typedef " + decl(of, n) + ";"; self.tds.append(td)
            self.put({"k": "blank", "h": 1}, t)
    def isscal(self, t): return t["k"] in ("p", "ptr", "enum") or (t["k"] in ("td", "q") and self.isscal(t["of"]))
    def layout(self):
        r = self.r; c = r.random()
        if c < .12: h = r.randint(1, 3); self.put({"k": "blank", "h": h}, r.choice(["\n" * (h - 1), "/* " + "\n" * (h - 1) + "*/"]))
        elif c < .2:
            n = r.choice([r.randint(1, 300), r.randint(1, 70000)]); f = r.choice(["", "", "x.c", "y.h"])
            self.put({"k": "line", "n": n, "f": f}, ("#line %d" if r.random() < .5 else "# %d" if f else "#line %d") % n + (' "%s"' % f if f else ""))
    def var(self, name, ty, st, row=0): return {"name": name, "id": self.id(), "ty": ty, "st": st, "row": row}
    def declare(self, local):
        """declarations, on one or several lines"""
        r = self.r; ds = []; rows = []; here = self.vis[-1]
        for j in range(r.choice([1, 1, 1, 2, 3])):
            free = [n for n in NM if n not in here]
            if not free: break
            n = r.choice(free); here.append(n); vla = local and r.random() < .12
            if vla: ty = {"k": "arr", "n": 0, "vla": "vo + %d" % r.randint(0, 5), "of": self.prim()}; st = "none"
            else: ty = self.obj(2); st = "static" if r.random() < .2 else "none"
            if local and big(ty): ty = self.scalar(1)
            ds.append(self.var(n, ty, "vla" if vla else st, len(rows))); rows.append(("static " if st == "static" else "") + decl(ty, n) + ";")
            if r.random() < .3: rows.append("")
        if not ds: return
        self.put({"k": "decl", "h": len(rows), "ds": ds}, "\n".join(rows))
        return ds
    def stmt(self, d):
        r = self.r; self.layout(); c = r.random()
        vis = sorted({n for s in self.vis for n in s})
        if c < .35 and vis:
            n = r.choice(vis); o = self.ob(n)
            self.put({"k": "text", "h": 1, "es": [o]}, "recv(%d, (void *)&%s, __builtin_frame_address(0));" % (o["id"], n))
        elif c < .62: self.plain()
        elif c < .7 and self.declare(True): pass
        elif d > 0: self.block(d - 1)
        else: self.plain()
    def plain(self):
        r = self.r; es = []; rows = [[]]
        def e():
            o = self.ob("", len(rows) - 1); es.append(o); return o
        forms = ["rec(@);", "rec(@),~ rec(@);", "vs = vs~ + rec(@)~ - rec(@);", "if(~rec(@)~ && rec(@))~ rec(@); else~ vs++;", "if(rec(@) &~ vz) vs++;~ else~ rec(@);", "while(rec(@) &~ vz) ;",
                 "do~ rec(@);~ while(rec(@)~ & vz);", "for(vs = rec(@);~ vs < 3;~ vs += rec(@) + 1)~ rec(@);", "switch(rec(@))~ { case 1:~ rec(@); break;~ default: vs++; }", "({ rec(@);~ rec(@); });",
                 "vs = rec(@) ?~ rec(@)~ : 3;", "vs = (long[2]){ rec(@),~ rec(@) }[1];", "{ long z = rec(@),~ y =~ rec(@);~ z = y; }", "if(!vz) goto l#; vs++; l#:~ rec(@);", "vs = #;", "vs +=~ #~;", "M(rec(@))"]
        if self.straight: forms = [f for f in forms if not re.search(r"if|while|for|switch|&&|[?]", f)]
        f = r.choice(forms); lab = self.fresh("")
        t = ""; mark = "vs = #" in f or "vs +=" in f
        for ch in f:
            if ch == "~":
                x = r.choice(["", "", "\n", "\n\n", "\n/* */ ", "\\\n"])
                t += x; rows += [[]] * x.count("\n")
            elif ch == "@":
                o = e(); o["lo"] = o["hi"] = t.count("\n"); t += str(o["id"])
            elif ch == "#":
                if mark:
                    o = e(); o["lo"] = 0; o["hi"] = 99; o["mark"] = 1; t += str(0x5a000000 + o["id"])
                else: t += lab
            else: t += ch
        h = t.count("\n") + 1; ls = t.split("\n")
        for o in es:
            if "mark" in o: o["lo"], o["hi"] = 0, h - 1
            elif f[0] == "M": o["lo"], o["hi"] = 0, h - 1
            else:   # any line of a splice
                while o["lo"] > 0 and ls[o["lo"] - 1].endswith("\\"): o["lo"] -= 1
                while ls[o["hi"]].endswith("\\"): o["hi"] += 1
        self.put({"k": "text", "h": h, "es": es}, t)
    def block(self, d):
        r = self.r; form = "{" if self.straight else r.choice(["{", "{", "for", "if"]); ds = []; es = []; self.vis.append([])
        if form == "for":
            n = r.choice(NM); ty = P("int"); ds = [self.var(n, ty, "none")]; self.vis[-1].append(n); o = self.ob(); es = [o]
            t = "for(int %s = rec(%d); %s < 2; %s++) {" % (n, o["id"], n, n)
        elif form == "if": o = self.ob(); es = [o]; t = "if(rec(%d)) {" % o["id"]
        else: t = "{"
        self.put({"k": "open", "h": 1, "ds": ds, "es": es}, t)
        if form == "for": self.vis.append([]); self.put({"k": "open", "h": 0, "ds": [], "es": []}, None)
        if r.random() < .7: self.declare(True)
        for _ in range(r.randint(1, 4)): self.stmt(d)
        if form == "for": self.vis.pop(); self.put({"k": "close", "h": 0}, None)
        self.vis.pop(); self.put({"k": "close", "h": 1}, "}")
    def func(self):
        r = self.r; self.straight = r.random() < .4; self.layout(); name = self.fresh("f"); ps = []; self.vis.append([])
        for n in r.sample(NM, r.randint(0, 3)):
            ps.append(self.var(n, self.unq(self.scalar(2)), "param")); self.vis[-1].append(n)
        ret = self.unq(self.scalar(1)) if r.random() < .5 else {"k": "void"}; st = "static" if r.random() < .3 else "none"
        d = self.var(name, {"k": "fn", "ret": ret, "ps": [p["ty"] for p in ps]}, st); self.fns.append((name, ps))
        sp = r.random() < .3   # the body's brace on its own line
        self.put({"k": "func", "h": 1 + sp, "d": d, "ps": ps}, ("static " if st == "static" else "") + decl(ret, "%s(%s)" % (name, ", ".join(decl(p["ty"], p["name"]) for p in ps) or "void")) + ("\n{" if sp else " {"))
        for _ in range(r.randint(2, 7)): self.stmt(2)
        self.vis.pop(); self.put({"k": "close", "h": 1}, "}")
    def make(self):
        r = self.r; self.put({"k": "blank", "h": 2}, PRE + "#define M(x) x;")
        self.types()
        if r.random() < .5:
            self.inc += 1; f = "h.h"; self.put({"k": "enter", "f": f}, '#include "%s"' % f); self.cur.append(f); self.text[f] = []
            self.types(); self.declare(False)
            if r.random() < .5: self.func()
            self.cur.pop(); self.put({"k": "leave"}, None)
        for _ in range(r.randint(1, 3)):
            self.layout(); self.declare(False)
            if r.random() < .3: self.types()
        for _ in range(r.randint(1, 3)): self.func()
        # everything global is used, so that it's emitted
        main = "int main(void){ " + " ".join("rec(0);" for _ in range(0)) + " ".join("vs += (long)&%s;" % n for n in self.vis[0]) + " " + " ".join("%s(%s);" % (n, ", ".join("0" for _ in ps)) for n, ps in self.fns) + " return 0; }"
        d = self.var("main", {"k": "fn", "ret": P("int"), "ps": []}, "none")
        self.put({"k": "func", "h": 1, "d": d, "ps": []}, main); self.put({"k": "close", "h": 0}, None)
        return {"file": "a.c", "items": self.items}, {f: "\n".join(x for x in t if x is not None) + "\n" for f, t in self.text.items()}

def overal(ty):
    return ty["k"] in ("arr", "td", "q") and overal(ty["of"]) or ty["k"] == "su" and (ty["al"] > 0 or any(m["al"] or overal(m["ty"]) for m in ty["ms"]))
def big(ty):
    return ty["k"] == "arr" and ty["n"] > 1 and ty["of"]["k"] == "arr"

# ------------------------------------------------------------------ DWARF, as llvm-dwarfdump prints it
def dwarf(path):
    rc, out, err = run(["llvm-dwarfdump", "--debug-info", path], timeout=60)
    dies = {}; stack = []; cur = None
    for l in out.decode(errors="replace").split("\n"):
        m = re.match(r"0x([0-9a-f]+):( +)(DW_TAG_\w+|NULL)", l)
        if m:
            if m.group(3) == "NULL": cur = None; continue
            ind = len(m.group(2)); cur = {"off": int(m.group(1), 16), "tag": m.group(3)[7:], "a": {}, "ch": [], "up": None}
            while stack and stack[-1][0] >= ind: stack.pop()
            if stack: stack[-1][1]["ch"].append(cur); cur["up"] = stack[-1][1]
            stack.append((ind, cur)); dies[cur["off"]] = cur; continue
        m = re.match(r"\s+(DW_AT_\w+)\s+\((.*)\)$", l)
        if m and cur: cur["a"][m.group(1)[6:]] = m.group(2)
    return dies
def num(s): return int(s.split()[0], 0) if s else None
def st(s): return s.strip('"') if s is not None else None

class D:
    def __init__(self, path): self.dies = dwarf(path); self.cu = [d for d in self.dies.values() if d["tag"] == "compile_unit"]; self.inner = {d["a"].get("location") for d in self.dies.values() if d["tag"] == "variable" and d["up"] and d["up"]["tag"] != "compile_unit" and d["a"].get("external") == "(0x00)"[1:-1]}
    def type(self, die): return self.dies.get(num(die["a"]["type"])) if "type" in die["a"] else None
    def match(self, e, t, deep=0):
        """is the DIE t what e describes? -> "" or what differs"""
        k = e[0]
        if k == "void": return "" if t is None else "a type where there's none (void)"
        if t is None: return "no type for %s" % k
        a = t["a"]; tag = t["tag"]
        if k == "q":
            c = v = 0
            while t is not None and t["tag"] in ("const_type", "volatile_type"):
                c |= t["tag"] == "const_type"; v |= t["tag"] == "volatile_type"; t = self.type(t)
            if (int(c), int(v)) != (e[1], e[2]): return "const/volatile %s for %s" % ((c, v), e[1:3])
            return self.match(e[3], t, deep)
        want = {"base": "base_type", "ptr": "pointer_type", "arr": "array_type", "enum": "enumeration_type", "td": "typedef", "fn": "subroutine_type"}.get(k) or ("union_type" if e[1] else "structure_type")
        if tag != want: return "%s for %s" % (tag, want)
        if k == "base":
            got = [sorted((st(a.get("name")) or "").replace(" int", "").split()), a.get("encoding"), num(a.get("byte_size"))]
            exp = [sorted(e[1].replace(" int", "").split()), e[2], e[3]]
            return "" if got == exp else "base type %s for %s" % (got, exp)
        if k == "ptr": return ("pointer's size %s" % a.get("byte_size") if num(a.get("byte_size")) != 8 else "") or self.match(e[2], self.type(t), deep)
        if k == "arr":
            sub = [x for x in t["ch"] if x["tag"] == "subrange_type"]; n = e[1]
            if len(sub) != 1: return "%d subranges" % len(sub)
            sa = sub[0]["a"]; got = num(sa["count"]) if "count" in sa else num(sa["upper_bound"]) + 1 if "upper_bound" in sa and re.match(r"0x|\d", sa["upper_bound"]) else 0
            return "array of %s for %s" % (got, n) if got != n else self.match(e[2], self.type(t), deep)
        if k == "td": return "typedef %s for %s" % (a.get("name"), e[1]) if st(a.get("name")) != e[1] else self.match(e[2], self.type(t), deep)
        if k == "sref": return "" if st(a.get("name")) == e[2] else "tag %s for %s" % (a.get("name"), e[2])
        if k == "fn":
            w = e[1][3] if e[1][0] == "q" else e[1]   # a returned value has no qualifiers
            r = self.match(w, self.type(t), deep)
            if r: return "return type: " + r
            ps = [x for x in t["ch"] if x["tag"] == "formal_parameter"]
            if len(ps) != len(e[2]): return "%d parameters for %d" % (len(ps), len(e[2]))
            for j, (x, y) in enumerate(zip(e[2], ps)):
                r = self.match(x, self.type(y), deep)
                if r: return "parameter %d: %s" % (j, r)
            return ""
        if (st(a.get("name")) or "") != e[1 if k == "enum" else 2]: return "tag %s for %s" % (a.get("name"), e[1 if k == "enum" else 2])
        if num(a.get("byte_size")) != e[2 if k == "enum" else 3]: return "size %s for %s" % (a.get("byte_size"), e[2 if k == "enum" else 3])
        if k == "enum":
            got = [[st(x["a"]["name"]), num(x["a"]["const_value"]) % 2**32] for x in t["ch"]]
            return "" if got == [[n, v % 2**32] for n, v in e[3]] else "enumerators %s" % got
        ms = [m for m in e[4] if m["n"] or m["w"] < 0]; gm = [x for x in t["ch"] if x["tag"] == "member"]
        gm = [x for x in gm if "name" in x["a"] or "bit_size" not in x["a"]]
        if len(ms) != len(gm): return "members %s for %s" % ([x["a"].get("name") for x in gm], [m["n"] for m in ms])
        for m, x in zip(ms, gm):
            xa = x["a"]; loc = re.search(r"0x[0-9a-f]+|\d+", xa.get("data_member_location", "0x0")); off = int(loc.group(), 0)
            if (st(xa.get("name")) or "") != m["n"]: return "member %s for %s" % (xa.get("name"), m["n"])
            if m["w"] < 0: bit, w = 8 * off, -1
            else:
                w = num(xa.get("bit_size")); s = num(xa.get("byte_size")) or m["sz"]
                bit = num(xa["data_bit_offset"]) if "data_bit_offset" in xa else 8 * off + 8 * s - num(xa.get("bit_offset", "0")) - (w or 0)
            if (bit, w) != (m["bit"], m["w"]): return "member %s at bit %s, width %s, for bit %s, width %s" % (m["n"], bit, w, m["bit"], m["w"])
            r = self.match(m["die"], self.type(x), deep + 1)
            if r: return "member %s: %s" % (m["n"], r)
        return ""
    def ranges(self, d):
        a = d["a"]
        if "low_pc" not in a: return None
        lo, hi = num(a["low_pc"]), num(a["high_pc"])
        return (lo, hi)
    def lookup(self, pc, name):
        """the innermost variable of the name at the address"""
        best = None; todo = list(self.cu)
        def walk(d):
            nonlocal best
            for x in d["ch"]:
                if x["tag"] in ("variable", "formal_parameter") and st(x["a"].get("name")) == name and "location" in x["a"]:
                    if best is None or best["up"] is not d: best = x
            for x in d["ch"]:
                if x["tag"] in ("subprogram", "lexical_block"):
                    r = self.ranges(x)
                    if r is None or r[0] <= pc < r[1]: walk(x)
        for c in self.cu:
            for x in c["ch"]:   # a block's static is also described at file scope (a known finding): not that one
                if x["tag"] == "variable" and st(x["a"].get("name")) == name and "decl_line" in x["a"] and x["a"].get("location") not in self.inner: best = best or x
        for c in self.cu:
            for x in c["ch"]:
                if x["tag"] == "subprogram":
                    r = self.ranges(x)
                    if r and r[0] <= pc < r[1]: walk(x)
        return best
    def func(self, pc):
        for c in self.cu:
            for x in c["ch"]:
                if x["tag"] == "subprogram":
                    r = self.ranges(x)
                    if r and r[0] <= pc < r[1]: return x
    def declared(self, pc, name, file, line):
        """the variables of the name declared at the line, in the function of the address or outside functions"""
        r = []
        def walk(d):
            for x in d["ch"]:
                if x["tag"] in ("variable", "formal_parameter") and st(x["a"].get("name")) == name and "location" in x["a"] and (x["tag"] == "formal_parameter" or (os.path.basename(st(x["a"].get("decl_file")) or ""), num(x["a"].get("decl_line"))) == (file, line)): r.append(x)
                if x["tag"] == "lexical_block": walk(x)
        f = self.func(pc)
        if f: walk(f)
        for c in self.cu: walk(c)
        return r
    def up(self, x):
        r = []
        while x: r.append(x["off"]); x = x["up"]
        return r

def sections(o):
    """what's in an object file besides the debugging sections: contents and relocations"""
    rc, out, _ = run(["readelf", "-SW", o]); names = [m.group(1) for m in re.finditer(r"\]\s+(\.\S+)\s+(?:PROGBITS|NOBITS|RELA|INIT_ARRAY|FINI_ARRAY)", out.decode())]
    names = [n for n in names if "debug" not in n]; r = []
    rc, out, _ = run(["objdump", "-srw", *["-j" + n for n in names if not n.startswith(".rela")], o]); t = out.decode(errors="replace")
    t = re.sub(r"(?m)^RELOCATION RECORDS FOR \[\.debug.*?(?=^RELOC|\Z)", "", t[t.index("\n\n"):] if "\n\n" in t else t, flags=re.S | re.M)
    return t

def same(c, opts, d):
    """compile with and without -g"""
    o1, o2 = os.path.join(d, "n.o"), os.path.join(d, "g.o")
    r1 = run([ucc(), "-w", *opts, "-c", "-o", o1, c], cwd=d, merge=True, timeout=30); r2 = run([ucc(), "-w", "-g", *opts, "-c", "-o", o2, c], cwd=d, merge=True, timeout=30)
    if (r1[0] == 0) != (r2[0] == 0): return "compiling gives status %d without -g, %d with it: %s" % (r1[0], r2[0], (r1[1] + r2[1]).decode(errors="replace")[-300:])
    if r1[0]: return None
    a, b = sections(o1), sections(o2); os.unlink(o1); os.unlink(o2)
    if a == b: return ""
    i = next((i for i, (x, y) in enumerate(zip(a.split("\n"), b.split("\n"))) if x != y), -1)
    return "with -g: %s\nwithout: %s" % (b.split("\n")[i], a.split("\n")[i])

def check(job):
    k, case, files, res, opts, gids = job
    d = tempfile.mkdtemp(prefix="r", dir=scratch()); bad = []; n = 0
    try:
        for f, t in files.items(): open(os.path.join(d, f), "w").write(t)
        e = same("a.c", opts, d)
        if e is None: return [("compile", "the compiler rejects it: " + run([ucc(), "-w", *opts, "-c", "-o", "x.o", "a.c"], cwd=d, merge=True)[1].decode(errors="replace")[-400:])], 0
        if e: bad.append(("text", e))
        rc, o, _ = run([ucc(), "-w", "-g", *opts, "-fno-pic", "-c", "-o", "a.o", "a.c"], cwd=d, merge=True)
        if rc: return [("compile", o.decode(errors="replace")[-400:])], 0
        rc, o, _ = run(["gcc", "-no-pie", "-o", "a.out", "a.o", os.path.join(scratch(), "rt27.o")], cwd=d, merge=True)
        if rc: return [("link", o.decode(errors="replace")[-400:])], 0
        rc, o, e = run(["./a.out"], cwd=d)
        if rc: return bad + [("run", "status %d" % rc)], 0
        D_ = D(os.path.join(d, "a.out")); decls = {x["id"]: x for x in res["decls"]}; obs = {x["id"]: x for x in res["obs"]}
        info = {x["id"]: x for it in case["items"] for x in it.get("ds", []) + it.get("ps", []) + ([it["d"]] if "d" in it else [])}
        found = {}; straight = {o["id"] for it in case["items"] for o in it.get("es", []) if o["straight"]}
        # addresses of the observations, and of the marked constants
        seen = {}
        for l in o.decode().split("\n"):
            p = l.split()
            if p: seen.setdefault((int(p[0]), int(p[1], 16)), p)
        rc, o, _ = run(["objdump", "-d", "--no-show-raw-insn", "a.out"], cwd=d, timeout=60)
        for m in re.finditer(r"(?m)^[ \t]*([0-9a-f]+):\t.*\$0x5a([0-9a-f]{6})\b", o.decode()): seen.setdefault((int(m.group(2), 16), int(m.group(1), 16)), None)
        keys = sorted(seen)
        rc, o, _ = run(["addr2line", "-e", "a.out"], cwd=d, input="".join("%x\n" % a for _, a in keys).encode())
        pos = o.decode().split("\n")
        for key, l in zip(keys, pos):
            i, pc = key; x = obs.get(i); p = seen[key]
            if x is None: continue
            n += 1
            m = re.match(r"(.*?):(\d+|\?)", l); f, ln = os.path.basename(m.group(1)), m.group(2)
            if f != x["file"] or not ln.isdigit() or not x["lo"] <= int(ln) <= x["hi"]: bad.append(("line", "the code of observation %d is said to come from %s:%s, it's at %s:%d%s" % (i, f, ln, x["file"], x["lo"], "-%d" % x["hi"] if x["hi"] != x["lo"] else "")))
            if x["den"]:
                w = decls[x["den"]]; nm = info[x["den"]]; param = nm["st"] == "param"
                if x["id"] in straight:
                    v = D_.lookup(pc, nm["name"])
                    if v is None: bad.append(("scope", "nothing describes %s at observation %d" % (nm["name"], i))); continue
                    a = v["a"]; df = os.path.basename(st(a.get("decl_file")) or ""); dl = num(a.get("decl_line"))
                    if (v["tag"] == "formal_parameter") != param or not param and (df, dl) != (w["file"], w["line"]): bad.append(("scope", "%s at observation %d is said to be the one of %s:%s, it's that of %s:%d" % (nm["name"], i, df, dl, w["file"], w["line"]))); continue
                else:
                    vs = [y for y in D_.declared(pc, nm["name"], w["file"], w["line"]) if (y["tag"] == "formal_parameter") == param]
                    if not vs: bad.append(("scope", "nothing describes %s, declared at %s:%d" % (nm["name"], w["file"], w["line"]))); continue
                    if len(vs) > 1: continue    # two declarations at the same presumed line
                    v = vs[0]; a = v["a"]
                found[x["den"]] = v
                t = D_.type(v); die = w["die"]
                r = D_.match(die, t)
                if r: bad.append(("type", "%s, declared at %s:%d: %s" % (nm["name"], w["file"], w["line"], r)))
                addr, fpo = int(p[2], 16) if p[2] != "(nil)" else 0, int(p[3]); loc = a["location"]; y = re.fullmatch(r"DW_OP_breg6 RBP([+-]\d+)(, DW_OP_deref)?|DW_OP_addr (0x[0-9a-f]+)", loc)
                ok = y and (addr == int(y.group(3), 16) if y.group(3) else (y.group(1)[1:] and (int(y.group(1)) in map(int, p[4:]) if y.group(2) else int(y.group(1)) == fpo)))
                if not ok: bad.append(("location", "%s, declared at %s:%d: %s, its address is %#x, the frame's plus %d" % (nm["name"], w["file"], w["line"], loc, addr, fpo)))
        # blocks nest as they do in the program
        for i1, v1 in found.items():
            for i2, v2 in found.items():
                p1, p2 = decls[i1]["path"], decls[i2]["path"]; n += 1
                if p1 and p1[:1] == p2[:1] and "static" not in (info[i1]["st"], info[i2]["st"]) and (i1 < i2 or p1 != p2[:len(p1)]) and (p1 == p2[:len(p1)]) != (v1["up"]["off"] in D_.up(v2["up"])): bad.append(("nesting", "the block of %s, declared at %s:%d, is %ssaid to be around %s, declared at %s:%d" % (info[i1]["name"], decls[i1]["file"], decls[i1]["line"], "not " if p1 == p2[:len(p1)] else "", info[i2]["name"], decls[i2]["file"], decls[i2]["line"])))
        # functions and file-scope variables
        rc, o, _ = run(["nm", "-S", "a.out"], cwd=d); syms = {l.split()[-1]: l.split() for l in o.decode().split("\n") if l}
        for i in gids:
            w, nm = decls[i], info[i]; n += 1
            c = [x for u in D_.cu for x in u["ch"] if x["tag"] in ("variable", "subprogram") and st(x["a"].get("name")) == nm["name"] and (os.path.basename(st(x["a"].get("decl_file")) or ""), num(x["a"].get("decl_line"))) == (w["file"], w["line"])]
            c = [x for x in c if "location" in x["a"] or "low_pc" in x["a"]]
            if not c: bad.append(("missing", "%s of %s:%d isn't described" % (nm["name"], w["file"], w["line"]))); continue
            x = c[0]; a = x["a"]
            ext = num(a.get("external", "0"))
            if bool(ext) != w["ext"]: bad.append(("external", "%s of %s:%d is said to be %sexternal" % (nm["name"], w["file"], w["line"], "" if ext else "not ")))
            s = syms.get(nm["name"])
            if x["tag"] == "subprogram":
                e = w["die"][1]
                while e[0] in ("td", "q") and (D_.type(x) or {"tag": ""})["tag"] != "typedef": e = e[-1]
                r = D_.match(e, D_.type(x)); ps = [y for y in x["ch"] if y["tag"] == "formal_parameter"]
                if r: bad.append(("type", "%s returns: %s" % (nm["name"], r)))
                if len(ps) != len(w["die"][2]): bad.append(("type", "%s has %d parameters" % (nm["name"], len(ps))))
                if s and len(s) == 4 and D_.ranges(x) != (int(s[0], 16), int(s[0], 16) + int(s[1], 16)): bad.append(("range", "%s is said to be at %s, it's at %s" % (nm["name"], D_.ranges(x), s)))
            else:
                r = D_.match(w["die"], D_.type(x))
                if r: bad.append(("type", "%s of %s:%d: %s" % (nm["name"], w["file"], w["line"], r)))
                if s and a.get("location") != "DW_OP_addr %#x" % int(s[0], 16): bad.append(("location", "%s is said to be at %s, it's at %s" % (nm["name"], a.get("location"), s[0])))
        return bad, n
    finally: shutil.rmtree(d, ignore_errors=True)

def go(rep):
    n = 3000 if THOROUGH else 330
    build_ucc(); r = rng("c27"); ps = []
    c = os.path.join(scratch(), "rt27.c"); open(c, "w").write(RT + "volatile int vz, vo = 1;\n"); subprocess.run(["gcc", "-O1", "-w", "-fno-pie", "-c", "-o", c[:-1] + "o", c], check=True)
    for _ in range(n): ps.append(Gen(r).make())
    res = tlc_cases("Dwarf", [p[0] for p in ps], inv=("Balanced", "Denotes", "Distinct"), props=("Restores", "Terminates"))
    res = {k - 1 if min(res) == 1 else k: v for k, v in res.items()}
    jobs = []
    for k, (case, files) in enumerate(ps):
        gids = []; depth = 0
        for it in case["items"]:
            if it["k"] == "decl" and depth == 0: gids += [x["id"] for x in it["ds"]]
            if it["k"] == "func": gids.append(it["d"]["id"])
            depth += it["k"] in ("open", "func"); depth -= it["k"] == "close"
        jobs.append((k, case, files, res[k][0], r.choice([[], [], ["-fomit-frame-pointer"][:0], ["-O1"][:0]]), gids))
    total = 0
    for job, (bad, m) in zip(jobs, pmap(check, jobs)):
        total += m
        src = "\n".join("==> %s\n%s" % x for x in sorted(job[2].items()))
        for kind in sorted({b[0] for b in bad}):
            first = [b[1] for b in bad if b[0] == kind][0]
            rep.violation("%s %s\n%s" % (kind, first, src), "%s: %s" % (kind, first), {"c27.%s" % f: t for f, t in job[2].items()})
    # what's known not to hold
    for sig, name, line, text in (
        ("lexical-block-ranges", "c", 5, "volatile int vz;\nint rec(long); int recv(long k, void *p, char *f);\nint main(void){\nfor(int i = 0; i < 2; i++) {\nint c = 3; recv(1, &c, __builtin_frame_address(0));\nwhile(vz) ;\n}\nrec(2); return 0; }\n"),
        ("static-local-at-file-scope", "c", 2, "int rec(long); int recv(long k, void *p, char *f);\nlong c = 1;\nint f(void){ static char c;\nreturn c++; }\nint main(void){ f();\nrecv(1, &c, __builtin_frame_address(0));\nreturn 0; }\n"),):
        d = sub("c27k"); open(os.path.join(d, "a.c"), "w").write(text)
        rc, o, _ = run([ucc(), "-w", "-g", "-fno-pic", "-c", "-o", "a.o", "a.c"], cwd=d, merge=True)
        run(["gcc", "-no-pie", "-o", "a.out", "a.o", os.path.join(scratch(), "rt27.o")], cwd=d, merge=True)
        rc, o, _ = run(["./a.out"], cwd=d); x = D(os.path.join(d, "a.out")); pc = int(o.split()[1], 16); v = x.lookup(pc, name)
        cus = [y for u in x.cu for y in u["ch"] if y["tag"] == "variable" and st(y["a"].get("name")) == name and sig[0] == "s"]
        if v is None or num(v["a"].get("decl_line")) != line or len(cus) > 1: rep.violation(sig, "the debug information says that the wrong %s, or none, is in scope:\n%s" % (name, text), {"c27.%s.c" % sig: text})
    # the repository's programs, with and without -g
    tests = sorted(glob.glob(os.path.join(REPO, "test/cases/**/*.c"), recursive=True)); d = sub("c27g")
    if not THOROUGH: tests = r.sample(tests, min(350, len(tests)))
    def one(i_t):
        i, t = i_t; w = os.path.join(d, str(i)); os.makedirs(w)
        try: return same(t, ["-I" + os.path.dirname(t)], w)
        finally: shutil.rmtree(w, ignore_errors=True)
    eq = 0
    for t, e in zip(tests, pmap(one, list(enumerate(tests)))):
        eq += e == ""
        if e: rep.violation("-g changes %s" % os.path.relpath(t, REPO), "%s: -g changes what's compiled:\n%s" % (os.path.relpath(t, REPO), e), {})
    rep.cov.update(programs=n, cases_generated=n, facts_compared=total, traces_validated_against_impl=n, test_programs_unchanged_by_g=eq)

if __name__ == "__main__": main(go, "C27", "model_checking")
