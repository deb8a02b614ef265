"""C24: which bytes loads, stores, pointer arithmetic and copies touch, decided by spec/Memory.tla.
A random program of accesses is run; its observations and the final bytes of all its objects are compared with
those of the specification's memory."""
from vlib import *

INTS = [("uc", 1, 0, "unsigned char"), ("sc", 1, 1, "signed char"), ("us", 2, 0, "unsigned short"), ("ss", 2, 1, "short"), ("ui", 4, 0, "unsigned"), ("si", 4, 1, "int"), ("ul", 8, 0, "unsigned long"), ("sl", 8, 1, "long")]
UC, SI, SL, UL = 1, 6, 8, 7
IDX = [("I0", 2, -3), ("I1", 6, -1), ("I2", 1, 0), ("I3", 4, 1), ("I4", 8, 2), ("I5", 6, 1), ("I6", 5, 2), ("I7", 3, 3), ("I8", 8, -2), ("I9", 2, 4)]
def b8(v, n=8): return list((v & (256 ** n - 1)).to_bytes(n, "little"))
class No(Exception): pass

class Case:
    def __init__(self, r, n):
        self.r, self.n = r, n; self.P = "_%d" % n
        self.types = [{"k": "i", "n": s, "sg": g, "sz": s, "al": s, "nm": c} for c, s, g, _ in INTS]; self.hasp = {}
        self.pre = []; self.decl = []; self.fill = []; self.prog = []; self.text = []
        self.objs = []; self.mem = []; self.pt = {}; self.kinds = []; self.names = []; self.fn = set(); self.params = []; self.args = []; self.tags = {}
        for nm, t, v in IDX: self.obj(nm, t, "idx"); self.mem[-1] = b8(v, self.types[t - 1]["sz"])
        self.recs = []
        for k in range(r.choice([1, 2, 2, 3])): self.rec(k)
        for k in range(r.choice([2, 3, 3, 4])): self.data(k)
        for k in range(r.choice([1, 2, 3, 4])): self.pointer(k)
        for o in range(len(self.objs)):            # every pointer is null or points somewhere first
            for off, t in self.ptrs_in(self.objs[o]): self.pt[o, off] = None
        for o in range(len(self.objs)):
            for off, t in self.ptrs_in(self.objs[o]):
                for _ in range(4):
                    try: self.setptr(o, off, t); break
                    except No: pass
                else:
                    txt, e = self.path(o, off); self.stmt("%s = 0" % txt, self.asg(e, {"k": "lit", "b": [0] * 8, "t": t, "a": []}))
        n = r.choice([6, 12, 18, 25])
        while n:
            try: self.step(); n -= 1
            except No: pass
    # ---- types
    def T(self, t): return self.types[t - 1]
    def add(self, t):
        for k, x in enumerate(self.types):
            if t["k"] in "ap" and all(x.get(j) == t[j] for j in t): return k + 1
        if t["k"] == "a": e = self.T(t["t"]); t["sz"], t["al"] = e["sz"] * t["n"], e["al"]
        elif t["k"] == "p": t["sz"] = t["al"] = 8
        self.types.append(t); return len(self.types)
    def ptr(self, t): return self.add({"k": "p", "t": t})
    def arr(self, t, n): return self.add({"k": "a", "t": t, "n": n})
    def member(self):
        r = self.r; v = r.random()
        if v < .45: return r.randint(1, 8)
        if v < .6: return self.arr(r.randint(1, 8), r.choice([1, 2, 3, 3, 5, 8]))
        if v < .75: return self.ptr(r.choice(self.recs + [UC, SI, r.randint(1, 8)]))
        if v < .8: return self.arr(self.ptr(r.randint(1, 8)), 2)
        if not self.recs: return SI
        t = r.choice(self.recs)
        return t if v < .92 else self.arr(t, 2)
    def rec(self, k):
        r = self.r; u = r.random() < .12
        ms = [r.randint(1, 8) if u else self.member() for _ in range(r.choice([1, 2, 3, 3, 4, 5]))]
        if u and r.random() < .5: ms[0] = self.arr(ms[0], 3)
        off, al, offs = 0, 1, []
        for m in ms:
            m = self.T(m); o = 0 if u else (off + m["al"] - 1) // m["al"] * m["al"]
            offs.append(o); off = max(off, o + m["sz"]); al = max(al, m["al"])
        t = {"k": "u" if u else "r", "ms": ms, "sz": (off + al - 1) // al * al, "al": al, "offs": offs, "nm": "%s R%d%s" % ("union" if u else "struct", k, self.P)}
        if t["sz"] > 90: return self.rec(k)
        self.types.append(t); self.recs.append(len(self.types))
        self.pre.append("%s { %s };" % (t["nm"], " ".join(self.dcl(m, "m%d" % (j + 1)) + ";" for j, m in enumerate(ms))))
    def dcl(self, t, d, dims=None):
        t = self.T(t)
        if t["k"] == "p": return self.dcl(t["t"], ("(*%s)" if self.T(t["t"])["k"] == "a" else "*%s") % d, dims)
        if t["k"] == "a": return self.dcl(t["t"], "%s[%s]" % (d, "N%d" % t["n"] if dims else t["n"]), dims)
        return "%s %s" % (t["nm"], d)
    def tn(self, t): return self.dcl(t, "").strip()
    def having(self, want):
        """the types which are, or contain, a wanted one"""
        h = set()
        for k, x in enumerate(self.types):
            if want(k + 1) or (x["t"] in h if x["k"] == "a" else x["k"] in "ru" and not h.isdisjoint(x["ms"])): h.add(k + 1)
        return h
    def has(self, t, want): return t in self.having(want)
    def ptrs_in(self, t, off=0):
        x = self.T(t)
        if x["k"] == "p": yield off, t
        elif x["k"] == "a":
            for k in range(x["n"]): yield from self.ptrs_in(x["t"], off + k * self.T(x["t"])["sz"])
        elif x["k"] == "r":
            for m, o in zip(x["ms"], x["offs"]): yield from self.ptrs_in(m, off + o)
    # ---- objects
    def obj(self, nm, t, kind):
        self.objs.append(t); self.kinds.append(kind); self.names.append(nm); o = len(self.objs); n = self.T(t)["sz"]
        self.mem.append([(o * 29 + k * 7 + 3) & 255 for k in range(n)] if kind != "blk" else [-1] * n); return o - 1
    def data(self, k):
        r = self.r; b = r.choice(self.recs + self.recs + [r.randint(1, 8)]); v = r.random()
        t = b if v < .3 and b > 8 else self.arr(b, r.choice([2, 3, 4, 5])) if v < .75 else self.arr(self.arr(b, r.choice([2, 3])), r.choice([2, 3])) if v < .95 else self.arr(self.arr(self.arr(b, 2), 3), 2)
        if self.T(t)["sz"] > 260: t = self.arr(SI, 3)
        nm = "x%d%s" % (k, self.P); kind = r.choice(["glo", "sta", "loc", "loc", "vla"])
        if kind == "vla" and self.T(t)["k"] != "a": kind = "loc"
        self.obj(nm, t, kind)
        {"glo": lambda: self.pre.append(self.dcl(t, nm) + ";"), "sta": lambda: self.pre.append("static %s;" % self.dcl(t, nm)), "loc": lambda: self.decl.append(self.dcl(t, nm) + ";"), "vla": lambda: self.decl.append(self.dcl(t, nm, True) + ";")}[kind]()
        self.fill.append("fill(%s&%s, sizeof %s, %d);" % ("", nm, nm, len(self.objs)))
    def pointer(self, k):
        r = self.r; ts = [x for x in self.objs[len(IDX):]]; t = r.choice(ts)
        while self.T(t)["k"] == "a" and r.random() < .85: t = self.T(t)["t"]
        if self.T(t)["k"] == "r" and r.random() < .4: t = r.choice(self.T(t)["ms"])
        if r.random() < .1: t = UC
        t = self.ptr(t); nm = "p%d%s" % (k, self.P); kind = r.choice(["glo", "loc", "loc", "par"])
        self.obj(nm, t, kind)
        if kind == "par": self.params.append(self.dcl(t, nm)); self.args.append("0")
        elif kind == "glo": self.pre.append(self.dcl(t, nm) + ";")
        else: self.decl.append(self.dcl(t, nm) + ";")
        self.fill.append("fill(&%s, 8, %d);" % (nm, len(self.objs)))
    # ---- building expressions
    def lit(self, v, t=SI): return {"k": "lit", "b": b8(v, self.T(t)["sz"]), "t": t, "a": []}
    def var(self, o): return {"k": "var", "o": o + 1, "t": self.objs[o], "a": []}
    def load(self, e): return {"k": "load", "a": [e]}
    def asg(self, l, v): return {"k": "asg", "a": [l, v]}
    def ie(self, k):
        r = self.r; c = [(nm, o) for o, (nm, t, v) in enumerate(IDX) if v == k]
        if c and r.random() < .5: nm, o = r.choice(c); return nm, self.load(self.var(o))
        if r.random() < .15: return "(long)%d" % k if k >= 0 else "%dL" % k, self.lit(k, SL)
        return ("%d" if k >= 0 else "(%d)") % k, self.lit(k)
    def path(self, o, off):
        """the direct path to the pointer at off"""
        t = self.objs[o]; s, e = self.names[o], self.var(o); base = 0
        while self.T(t)["k"] != "p":
            x = self.T(t)
            if x["k"] == "a": z = self.T(x["t"])["sz"]; j = (off - base) // z; s += "[%d]" % j; e = {"k": "idx", "a": [e, self.lit(j)]}; base += j * z; t = x["t"]
            else:
                j = max(k for k in range(len(x["ms"])) if base + x["offs"][k] <= off); s += ".m%d" % (j + 1); e = {"k": "mem", "m": j + 1, "a": [e]}; base += x["offs"][j]; t = x["ms"][j]
        return s, e
    def at(self, s, a, i):
        r = self.r; v = r.random()
        return "%s[%s]" % (s, i) if v < .6 else "*(%s + %s)" % (s, i) if v < .8 else "%s[%s]" % (i if i.isalnum() else "(%s)" % i, s) if v < .9 else "*(%s + %s)" % (i, s)
    def lv(self, want, d=2, direct=False):
        """-> text, node, type, object, offset, (start, length, index) of the array it is an element of"""
        r = self.r; par = lambda s: s if s.replace("_", "").isalnum() else "(%s)" % s
        H = self.having(want); os = [o for o in range(len(IDX), len(self.objs)) if self.objs[o] in H]; hp = d and any(x["k"] == "p" and x["t"] in H for x in self.types)
        if not os and not hp: raise No
        for _ in range(6):
            if hp and not direct and r.random() < .6:
                try: s, e, t, o, off, _c = self.lv(lambda t: self.T(t)["k"] == "p" and self.T(t)["t"] in H, d - 1)
                except No: continue
                p = self.pt.get((o, off))
                if not p: continue
                o, lo, n, i = p; t = self.T(t)["t"]; z = self.T(t)["sz"]; j = r.randrange(n) if r.random() < .7 or i >= n else i
                s = par(s); e = self.load(e)
                if j == i and r.random() < .7: s, e = r.choice(["*%s", "*%s", "%s[0]"]) % s, {"k": "deref", "a": [e]}
                else: it, ie = self.ie(j - i); s, e = self.at(s, e, it), {"k": "pidx", "a": [e, ie]}
                off = lo + j * z; ctx = (lo, n, j)
            else:
                if not os: continue
                o = r.choice(os); t = self.objs[o]
                s, e, off, ctx = self.names[o], self.var(o), 0, (0, 1, 0)
            while not want(t) or (r.random() < .7 and self.T(t)["k"] in "aru" and not H.isdisjoint([self.T(t)["t"]] if self.T(t)["k"] == "a" else self.T(t)["ms"])):
                x = self.T(t)
                if x["k"] == "a":
                    j = r.randrange(x["n"]); it, ie = self.ie(j); z = self.T(x["t"])["sz"]
                    s = self.at(par(s), e, it) if not s.startswith("*") or r.random() < .5 else "(%s)[%s]" % (s, it); e = {"k": "idx", "a": [e, ie]}; ctx = (off, x["n"], j); off += j * z; t = x["t"]
                else:
                    k = r.choice([k for k, m in enumerate(x["ms"]) if m in H])
                    if s.startswith("*") and "(" not in s and "[" not in s: s = r.choice(["%s->m%d" % (s[1:], k + 1), "(%s).m%d" % (s, k + 1)]) if s[1:2] != "*" else "(%s).m%d" % (s, k + 1)
                    elif r.random() < .1: s = "(&%s)->m%d" % (s, k + 1)
                    else: s = "%s.m%d" % (par(s) if s.startswith("*") else s, k + 1)
                    e = {"k": "mem", "m": k + 1, "a": [e]}; off += x["offs"][k]; t = x["ms"][k]; ctx = (off, 1, 0)
            if r.random() < .06 and self.T(t)["k"] != "a": s = "*&%s" % par(s); 
            return s, e, t, o, off, ctx
        raise No
    isint = lambda self, t: self.T(t)["k"] == "i"
    def val(self, d=1, direct=False):
        """an integer value"""
        r = self.r; v = r.random()
        if v < .3: k = r.choice([0, 1, -1, 5, 77, 200, 300, -300, 70000, 0x12345678, r.randint(-1000, 1000)]); return "%d" % k, self.lit(k)
        if v < .75: s, e, t, *_ = self.lv(self.isint, d, direct); return s, self.load(e)
        if direct: return "9", self.lit(9)
        if v < .8: s, e, t, *_ = self.lv(lambda t: True, 1); return "(int)sizeof(%s)" % s, {"k": "cast", "t": SI, "a": [{"k": "size", "t": UL, "a": [e]}]}
        if v < .86:
            f, t, ms = self.getter(); (s, e, _p), (it, ie) = self.pval(t, need=1), ("0", self.lit(0)); ms = [k for k, m in enumerate(self.T(t)["ms"]) if self.isint(m)]
            if not ms: raise No
            k = r.choice(ms); return "%s(%s, %s).m%d" % (f, s, it, k + 1), {"k": "rmem", "m": k + 1, "a": [self.load({"k": "pidx", "a": [e, ie]})]}
        if v < .93: a, e, op = self.rel(); return a, e
        c, ce = self.val(0); x, xe = self.val(0); y, ye = self.val(0)
        f = lambda s: "(int)(%s)" % s
        cv = lambda e: {"k": "cast", "t": SI, "a": [e]}
        return "((%s) ? %s : %s)" % (c, f(x), f(y)), {"k": "cond", "a": [ce, cv(xe), cv(ye)]}
    def getter(self):
        rs = [t for t in self.recs if self.T(t)["k"] == "r"]
        if not rs: raise No
        t = self.r.choice(rs); f = "get%d%s" % (t, self.P)
        if f not in self.fn: self.fn.add(f); self.pre.append("static %s %s(%s *p, long k){ return p[k]; }" % (self.tn(t), f, self.tn(t)))
        return f, t, None
    def rel(self):
        """a difference or comparison of two pointers into the same array"""
        r = self.r; T = r.choice([self.T(t)["t"] for t in self.objs if self.T(t)["k"] == "a"] + self.recs)
        a, ae, ap = self.pval(T)
        for _ in range(8):
            b, be, bp = self.pval(T)
            if bp[:2] == ap[:2] and bp[2] == ap[2]: break
        else: raise No
        if r.random() < .55: return "((%s) - (%s))" % (a, b), {"k": "diff", "t": SL, "a": [ae, be]}, "-"
        op = r.choice(["==", "!=", "<", "<=", ">", ">="]); return "((%s) %s (%s))" % (a, op, b), {"k": "cmp", "op": op, "t": SI, "a": [ae, be]}, op
    def pval(self, T, d=2, need=0):
        """a pointer to T: text, node, (object, start, length, index); need: it points at an element"""
        r = self.r; pT = self.ptr(T)
        for _ in range(10):
            v = r.random()
            if v < .3:
                s, e, t, o, off, c = self.lv(lambda t: t == T, d); out = "&%s" % (s if not s.startswith("*") else "(%s)" % s), {"k": "addr", "t": pT, "a": [e]}, (o,) + c
            elif v < .5 and any(self.has(t, lambda x: self.T(x)["k"] == "a" and self.T(x)["t"] == T) for t in self.objs):
                s, e, t, o, off, c = self.lv(lambda t: self.T(t)["k"] == "a" and self.T(t)["t"] == T, d); out = s, {"k": "decay", "t": pT, "a": [e]}, (o, off, self.T(t)["n"], 0)
            elif v < .6 and T == UC:
                s, e, t, o, off, c = self.lv(lambda t: not self.has(t, lambda x: self.T(x)["k"] == "p"), d); out = "(unsigned char *)&%s" % (s if not s.startswith("*") else "(%s)" % s), {"k": "cast", "t": pT, "a": [{"k": "addr", "t": self.ptr(t), "a": [e]}]}, (o, off, self.T(t)["sz"], 0)
            else:
                try: s, e, t, o, off, c = self.lv(lambda t: t == pT, d)
                except No: continue
                p = self.pt.get((o, off))
                if not p: continue
                out = s, self.load(e), p
            s, e, p = out
            if r.random() < .4 or (need and p[3] >= p[2]):
                j = r.randrange(p[2] + (0 if need else 1)); k = j - p[3]
                if k < 0 and r.random() < .7: it, ie = self.ie(-k); s, e = "(%s) - %s" % (s, it), {"k": "padd", "s": -1, "a": [e, ie]}
                else: it, ie = self.ie(k); s, e = r.choice(["(%s) + %s" % (s, it), "%s + (%s)" % (it, s)]) if True else 0, {"k": "padd", "s": 1, "a": [e, ie]}
                p = p[:3] + (j,)
            if r.random() < .08: s, e = "(%s)(%s)(%s)" % (self.tn(pT), r.choice(["long", "void *", "unsigned long"]), s), {"k": "cast", "t": pT, "a": [{"k": "cast", "t": SL, "a": [e]}]}
            return s, e, p
        raise No
    # ---- statements
    def stmt(self, text, e, obs=0, t=None, fmt=None):
        self.prog.append({"e": e, "obs": obs})
        self.text.append(fmt or ("obs((long)(%s));" % text if obs else text + ";"))
    def setptr(self, o, off, t):
        s, e, p = self.pval(self.T(t)["t"]); l, le = self.path(o, off)
        self.stmt("%s = %s" % (l, s), self.asg(le, e)); self.pt[o, off] = p
    def step(self):
        r = self.r; v = r.random(); T = self.T
        if v < .22:
            s, e, t, *_ = self.lv(self.isint); x, xe = self.val(); o = int(r.random() < .2); self.stmt("%s = %s" % (s, x), self.asg(e, xe), o)
        elif v < .32:
            s, e, t, *_ = self.lv(self.isint); q = "(%s)" % s if s.startswith("*") else s
            if r.random() < .5:
                pre, sg = r.randint(0, 1), r.choice([1, -1]); op = "++" if sg == 1 else "--"; self.stmt(op + q if pre else q + op, {"k": "inc", "pre": pre, "s": sg, "a": [e]}, 1)
            else: x, xe = self.val(0); sg = r.choice([1, -1]); self.stmt("%s %s= %s" % (q, "+" if sg == 1 else "-", x), {"k": "addas", "s": sg, "a": [e, xe]}, int(r.random() < .5))
        elif v < .45:
            s, e, t, o, off, c = self.lv(lambda t: T(t)["k"] == "p"); x, xe, p = self.pval(T(t)["t"]); self.stmt("%s = %s" % (s, x), self.asg(e, xe), int(r.random() < .15)); self.pt[o, off] = p
        elif v < .62:      # *p++ = v and the like
            s, e, t, o, off, c = self.lv(lambda t: T(t)["k"] == "p", 1); p = self.pt.get((o, off)); q = "(%s)" % s
            if not p: raise No
            ch = []
            for pre in (0, 1):
                for sg in (1, -1):
                    a = p[3] + sg if pre else p[3]
                    if 0 <= a < p[2] and 0 <= p[3] + sg <= p[2]: ch.append((pre, sg, a))
            if not ch: raise No
            pre, sg, a = r.choice(ch); op = "++" if sg == 1 else "--"; el = T(t)["t"]; ps = op + q if pre else q + op; pe = {"k": "inc", "pre": pre, "s": sg, "a": [e]}
            k = T(el)["k"]; np = p[:3] + (p[3] + sg,)
            if k == "i":
                x, xe = self.val(1, True)
                if r.random() < .5: self.stmt("*%s = %s" % (ps, x), self.asg({"k": "deref", "a": [pe]}, xe))
                elif r.random() < .5: self.stmt("*%s" % ps, self.load({"k": "deref", "a": [pe]}), 1)
                else: self.stmt("*%s += %s" % (ps, x), {"k": "addas", "s": 1, "a": [{"k": "deref", "a": [pe]}, xe]}, 1)
            elif k == "r":
                ms = [j for j, m in enumerate(T(el)["ms"]) if self.isint(m)]
                if ms and r.random() < .6:
                    j = r.choice(ms); le = {"k": "mem", "m": j + 1, "a": [{"k": "deref", "a": [pe]}]}; x, xe = self.val(1, True)
                    if r.random() < .6: self.stmt("(%s)->m%d = %s" % (ps, j + 1, x), self.asg(le, xe))
                    else: self.stmt("(%s)->m%d" % (ps, j + 1), self.load(le), 1)
                else:
                    x, xe, xt, xo, xoff, _ = self.lv(lambda t: t == el, 0, True); z = T(el)["sz"]; doff = p[1] + a * z
                    if xo == p[0] and xoff != doff and abs(xoff - doff) < z: raise No
                    if xo == o and xoff <= off < xoff + z or p[0] == o and doff <= off < doff + z: raise No
                    self.copy(xo, xoff, p[0], doff, el); self.stmt("*%s = %s" % (ps, x), self.asg({"k": "deref", "a": [pe]}, self.load(xe)))
            else: self.stmt("*&%s" % ps if 0 else ps, pe)
            self.pt[o, off] = np
        elif v < .67:
            s, e, t, o, off, c = self.lv(lambda t: T(t)["k"] == "p", 1); p = self.pt.get((o, off))
            if not p: raise No
            j = r.randint(0, p[2]); k = j - p[3]; sg = r.choice([1, -1]); it, ie = self.ie(k * sg); q = "(%s)" % s if s.startswith("*") else s
            self.stmt("%s %s= %s" % (q, "+" if sg == 1 else "-", it), {"k": "addas", "s": sg, "a": [e, ie]}); self.pt[o, off] = p[:3] + (j,)
        elif v < .82:      # copies
            L = lambda t: T(t)["k"] in "ru"
            s, e, t, o, off, _ = self.lv(L)
            w = r.random(); z = T(t)["sz"]
            if w < .2 and T(t)["k"] == "r":
                f, t2, _m = self.getter()
                if t2 != t: raise No
                x, xe, p = self.pval(t, need=1); so, soff = p[0], p[1] + p[3] * z; xs, xe = "%s(%s, 0)" % (f, x), self.load({"k": "deref", "a": [xe]})
            else: xs, xe, _t, so, soff, _ = self.lv(lambda u: u == t); xe = self.load(xe)
            if so == o and soff != off and abs(soff - off) < z: raise No
            if w > .85: c, ce = self.val(0); xs, xe = "(%s) ? %s : %s" % (c, xs, xs), {"k": "cond", "a": [ce, xe, xe]}
            if w > .7 and w < .85 and len(self.objs) < 30 and T(t)["k"] == "r":
                nm = "b%d%s" % (len(self.objs), self.P); o = self.obj(nm, t, "blk"); off = 0; e = self.var(o); self.copy(so, soff, o, 0, t)
                self.stmt("", self.asg(e, xe), fmt="%s = %s;" % (self.dcl(t, nm), xs)); return
            self.copy(so, soff, o, off, t); self.stmt("%s = %s" % (s, xs), self.asg(e, xe))
        elif v < .9: x, e = self.val(2); self.stmt(x, e, 1)
        elif v < .94: x, e, op = self.rel(); self.stmt(x, e, 1)
        else:              # a loop over an array: the body is the same expression each time
            s, e, t, o, off, _ = self.lv(lambda t: T(t)["k"] == "a" and self.has(T(t)["t"], self.isint)); el = T(t)["t"]; n = T(t)["n"]; k = 9; q = "(%s)" % s
            ln = "lp"; lo = self.names.index("lp" + self.P) if "lp" + self.P in self.names else None
            if lo is None: lo = self.obj("lp" + self.P, SL, "loc"); self.decl.append("long lp%s;" % self.P); self.fill.append("fill(&lp%s, 8, %d);" % (self.P, lo + 1))
            s2, e2, t2 = "%s[lp%s]" % (q, self.P), {"k": "idx", "a": [e, self.load(self.var(lo))]}, el
            while not self.isint(t2):
                x = T(t2)
                if x["k"] == "a": j = r.randrange(x["n"]); s2, e2, t2 = "%s[%d]" % (s2, j), {"k": "idx", "a": [e2, self.lit(j)]}, x["t"]
                elif x["k"] == "p": raise No
                else:
                    ms = [j for j, m in enumerate(x["ms"]) if self.has(m, self.isint)]
                    j = r.choice(ms); s2, e2, t2 = "%s.m%d" % (s2, j + 1), {"k": "mem", "m": j + 1, "a": [e2]}, x["ms"][j]
            x, xe = ("lp" + self.P, self.load(self.var(lo))) if r.random() < .5 else self.val(1, True)
            b, be = ("%s = %s" % (s2, x), self.asg(e2, xe)) if r.random() < .6 else ("%s += %s" % (s2, x), {"k": "addas", "s": 1, "a": [e2, xe]})
            L = self.var(lo); self.text.append("for(lp%s = 0; lp%s < %d; lp%s++) %s;" % (self.P, self.P, n, self.P, b))
            self.prog.append({"e": self.asg(L, self.lit(0)), "obs": 0})
            for _ in range(n): self.prog += [{"e": be, "obs": 0}, {"e": {"k": "inc", "pre": 0, "s": 1, "a": [L]}, "obs": 0}]
    def copy(self, so, soff, o, off, t): 
        for x, _ in list(self.ptrs_in(t)): self.pt[o, off + x] = self.pt.get((so, soff + x))
    def json(self): return {"types": [{k: v for k, v in t.items() if k in ("k", "n", "sg", "t", "ms")} for t in self.types], "objs": self.objs, "mem": self.mem, "prog": self.prog}
    def c(self):
        dump = ["dump(%d, %s&%s, sizeof %s);" % (o + 1, "", n, n) for o, n in enumerate(self.names) if o >= len(IDX)]
        ext = any(n != self.names[o] for o, n in enumerate(self.names))
        return self.pre + ["static void f%s(%s)" % (self.P, ", ".join(self.params) or "void"), "{"] + self.decl + ["start(%d);" % self.n] + self.fill + self.text + dump + ["}"], "f%s(%s);" % (self.P, ", ".join(self.args))

HEAD = "\n".join(["void fill(void *, unsigned long, int), obs(long), dump(int, void *, unsigned long), start(int);"] + ["%s %s = %d;" % (INTS[t - 1][3], nm, v) for nm, t, v in IDX] + ["int N%d = %d;" % (k, k) for k in range(1, 9)])
RT = r'''#include <stdio.h>
void start(int n){ printf("C %d\n", n); fflush(stdout); }
void fill(void *v, unsigned long n, int o){ unsigned char *p = v; unsigned long k; for(k = 0; k < n; k++) p[k] = o * 29 + k * 7 + 3; }
void obs(long l){ printf("v %lx\n", l); }
void dump(int o, void *v, unsigned long n){ unsigned char *p = v; unsigned long k; printf("d %d %lx ", o, (unsigned long)v); for(k = 0; k < n; k++) printf("%02x", p[k]); printf("\n"); }
'''
for c, s, g, n in INTS: pass
def prog(cs):
    L = [HEAD]; calls = []
    for c in cs: a, b = c.c(); L += a; calls.append(b)
    return re.sub(r"\b(uc|sc|us|ss|ui|si|ul|sl) ", lambda m: next(i[3] for i in INTS if i[0] == m[1]) + " ", "\n".join(L).replace(";", " ;")).replace(" ;", ";") + "\nint main(void)\n{\n" + "\n".join(calls) + "\nreturn 0;\n}\n"

def go(rep):
    build_ucc(); rt_obj(); r = rng("C24"); n = 4000 if THOROUGH else 900; cases = []
    while len(cases) < n: cases.append(Case(r, len(cases)))
    for c in cases: 
        for k, t in enumerate(c.types): t["nm"] = t.get("nm", "")
    res = {k: v[0] for k, v in tlc_cases("Memory", [c.json() for c in cases], inv=["TypeOK", "LaidOut"], props=["Frame"], timeout=3000).items()}
    d = sub("c24rt"); open(d + "/rt.c", "w").write(RT); rt = d + "/rt.o"; run(["gcc", "-O1", "-c", "-fPIE", "-o", rt, d + "/rt.c"])
    live = [c for c in cases if c.n in res]; groups = [live[k:k + 20] for k in range(0, len(live), 20)]
    OPTS = [(), (), ("-fpic",), ("-fno-pic",), ("-O1",), ("-fstack-protector-all",), ("-fno-const-fold",), ("-fomit-frame-pointer",)]
    def check(gk):
        cs = groups[gk]; o = OPTS[gk % len(OPTS)]; out = []
        q = build_run(prog(cs), opts=o, extra_objs=[rt]); parts = {}; done = q["stage"] == "run" and q["rc"] == 0
        for ch in (q["out"] if q["stage"] == "run" else "").split("C ")[1:]:
            k, *ls = ch.rstrip("\n").split("\n"); parts[int(k)] = ls
        for c in cs:
            x = res[c.n]; ls = parts.get(c.n)
            if ls is None or not done and c is cs[max(0, len(parts) - 1)]:
                out.append((c, "not run to its end (%s %s): %s" % (q["stage"], q["rc"], (q["out"] + q["err"])[-300:] if q["stage"] != "run" else ""), o)); break
            base, got = {}, {}
            for l in ls:
                if l[0] == "d": _, k, b, h = l.split(" "); base[int(k)] = int(b, 16); got[int(k)] = bytes.fromhex(h)
            def addr(f): f -= 1000; return b8(base[f // 8 // 4096] + f // 8 % 4096)[f % 8]
            vs = [int(l[2:], 16) for l in ls if l[0] == "v"]; exp = [int.from_bytes(bytes(b if b < 1000 else addr(b) for b in v), "little") for v in x["out"]]
            w = None
            if vs != exp: k = next((k for k in range(max(len(vs), len(exp))) if vs[k:k + 1] != exp[k:k + 1])); w = "observation %d is %s, expected %s" % (k + 1, ["%x" % q for q in vs[k:k + 1]], ["%x" % q for q in exp[k:k + 1]])
            for o1, bs in sorted(got.items()):
                if w: break
                for k, b in enumerate(x["mem"][o1 - 1]):
                    if b >= 0 and (b if b < 1000 else addr(b)) != bs[k]: w = "%s: byte %d is %02x, expected %02x" % (c.names[o1 - 1], k, bs[k], b if b < 1000 else addr(b)); break
            if w: out.append((c, w, o))
        return out
    for c, w, o in [x for l in pmap(check, range(len(groups))) for x in l][:40]:
        rep.violation("case", "%s\nucc %s\n%s" % (w, " ".join(o), "\n".join(c.text[:60])), {"p.c": prog([c]), "rt.c": RT})
    rep.cov.update(traces_validated_against_impl=len(live), cases_generated=n, undefined_dropped=n - len(live), accesses=sum(len(c.prog) for c in live), observations=sum(len(x["out"]) for x in res.values()), bytes_compared=sum(b >= 0 for x in res.values() for o in x["mem"] for b in o))
    for c in live[:3]: rep.sample({"program": c.text, "out": res[c.n]["out"]})

if __name__ == "__main__": main(go, "C24", "model_checking")
