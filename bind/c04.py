"""C04: which operands are evaluated, how often and in what order, decided by spec/Effects.tla.
Programs are generated without conflicting unsequenced accesses; the events they log are recorded and
TLC looks for a behaviour of the machine with exactly those events and that final memory."""
from vlib import *
import cstmt

CN = {"u8": "unsigned char", "s8": "signed char", "s16": "short", "i32": "int", "i64": "long", "bool": "_Bool",
      "f32": "float", "f64": "double", "u4": "unsigned", "s5": "int"}
ISF = {"f32", "f64"}
ST = ["u8", "s8", "s16", "i32", "i64", "bool", "f32", "f64"]

class Node(dict):
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
def nd(k, tx, a=(), f=0, **kw):
    n = Node(k=k, t_=tx, a=list(a), f=int(bool(f))); n.update(kw); return n

class Gen:
    def __init__(self, r, n, size):
        self.r, self.n, self.size = r, n, size
        self.key = 0; self.top = []; self.mem = []; self.mt = []; self.res = {}; self.nf = 0; self.pmods = 6
        self.decl = []; self.inits = []
        P = "_%d" % n
        self.P = P
        for k in range(r.choice([2, 3, 4])):
            self.scalar("x%d%s" % (k, P), r.choice(ST), loc=r.random() < .4)
        t = r.choice(ST); v = r.choice(["", "", "", "volatile "])
        b = self.slots([t] * 8)
        self.res["A"] = {"k": "arr", "b": b, "n": 8, "t": t, "nm": "A" + P, "loc": False}
        self.decl.append("static %s%s A%s[8] = {%s};" % (v, CN[t], P, ", ".join(map(str, self.mem[b - 1:]))))
        self.fts = [r.choice(ST + ["u4", "s5", "u4"]) for _ in range(r.choice([1, 2, 3, 4, 5]))]
        if r.random() < .4: self.fts = [r.choice(["i32", "i64", "s16", "u8", "u4", "s5"]) for _ in self.fts]
        self.sn = "struct S" + P
        self.decl.append("%s { %s };" % (self.sn, " ".join("%s m%d%s;" % (CN[t], k + 1, {"u4": " : 4", "s5": " : 5"}.get(t, "")) for k, t in enumerate(self.fts))))
        b = self.slots(self.fts * 4); w = len(self.fts)
        self.res["S"] = {"k": "st", "b": b, "n": 4, "nm": "S" + P, "loc": False}
        self.decl.append("static %s S%s[4] = {%s};" % (self.sn, P, ", ".join("{%s}" % ", ".join(map(str, self.mem[b - 1 + w * k:b - 1 + w * k + w])) for k in range(4))))
        self.qt = t = r.choice(["u8", "i32", "i64", "s16", "f64"])
        b = self.slots([t] * 40)
        self.res["Q"] = {"k": "q", "b": b, "n": 40, "t": t, "nm": "Q" + P, "loc": False}
        self.decl.append("static %s Q%s[40] = {%s};" % (CN[t], P, ", ".join(map(str, self.mem[b - 1:]))))
        b = self.slots(["i64"], [12])
        self.res["P"] = {"k": "p", "b": b, "nm": "P" + P, "loc": False}
        self.decl.append("static %s *P%s = Q%s + 12;" % (CN[t], P, P))
        self.nfin = len(self.mem)
        self.slots(["i64"], [0]); self.dummy = len(self.mem)
    def slots(self, ts, vs=None):
        b = len(self.mem) + 1
        for k, t in enumerate(ts):
            self.mt.append(t); self.mem.append(vs[k] if vs else self.r.randrange(2) if t == "bool" else self.r.randrange(16) if t == "u4" else self.r.randrange(-9 if t not in ("u8",) else 0, 10))
        return b
    def scalar(self, nm, t, loc):
        v = self.r.choice(["", "", "", "volatile "])
        b = self.slots([t])
        self.res[nm] = {"k": "sc", "b": b, "t": t, "nm": nm, "loc": loc}
        (self.inits if loc else self.decl).append("%s%s%s %s = %d;" % ("" if loc else "static ", v, CN[t], nm, self.mem[-1]))
    def newkey(self): self.key += 1; return self.key
    def split(self, R, W, n=2):
        """operands without a sequence point between them: what each may read and write"""
        own = {w: self.r.randrange(n) for w in sorted(W)}
        Ws = [frozenset(w for w in W if own[w] == k) for k in range(n)]
        return [(frozenset(x for x in R if x not in W or own[x] == k), Ws[k]) for k in range(n)]
    # ---- locations
    def index(self, d, R, W, m, mul=1):
        e = self.num(d - 1, R, W)
        if e["f"] or self.r.random() < .2: e = nd("conv", "(int)%s" % e["t_"], [e], t="i32")
        return nd("mask", "(%s & %d)" % (e["t_"], m - 1), [e], x=m)
    def lval(self, d, R, W, want=None):
        """a modifiable or readable number object out of want (R or W): node elt, its type, its resource"""
        r = self.r
        nm = r.choice(sorted(want))
        if nm == "P":        # numbers are not pointers: use what it points at
            nm = "Q" if "Q" in want else None
        o = self.res[nm] if nm else None
        if o is None: return None
        W2 = W - {nm}
        if o["k"] == "sc":
            l = nd("lit", "", x=0); t = o["nm"]
            if r.random() < .1: t = "(*&%s)" % t
            if r.random() < .12 and d > 0:
                e = self.ev(d - 1, R, W2)
                return nd("elt", "(*(%s, &%s))" % (e["t_"], t), [nd("comma", "", [e, l])], x=o["b"], n=1, m=1), o["t"], nm
            return nd("elt", t, [l], x=o["b"], n=1, m=1), o["t"], nm
        if o["k"] == "arr":
            i = self.index(d, R, W2, 8); c = r.random()
            if c < .45: t = "%s[%s]" % (o["nm"], i["t_"])
            elif c < .55: t = "%s[%s]" % (i["t_"], o["nm"])
            elif c < .75: t = "(*(%s + %s))" % (o["nm"], i["t_"])
            else:
                f = self.fname(); k = self.newkey(); vol = "volatile " if any("volatile %s A%s[" % (CN[o["t"]], self.P) in x for x in self.decl) else ""
                self.top.append("static %s%s *%s(int i){ return %s + ev2(%d, i); }" % (vol, CN[o["t"]], f, o["nm"], k))
                i = nd("ev", "", [i], key=k); q = "%s(%s)" % (f, i["a"][0]["t_"]); t = "(*%s)" % q if r.random() < .6 else "%s[0]" % q
            return nd("elt", t, [i], x=o["b"], n=1, m=8), o["t"], nm
        if o["k"] == "st":
            i, t, p = self.sloc(d, R, W2, o); w = len(self.fts); k = r.randrange(w)
            i2 = nd("elt", t + ("->" if p else ".") + "m%d" % (k + 1), [i], x=o["b"] + k, n=w, m=4)
            return i2, self.fts[k], nm
        if o["k"] == "q":
            p = self.ptr(d, R - {"Q"} if 0 else R, W2); c = r.random()
            if c < .7: t = "(*%s)" % p["t_"]; i = p
            else:
                # the pointer and its index are unsequenced
                (R1, W1), (R2, W21) = self.split(R, W2)
                p = self.ptr(d - 1, R1, W1); j = self.index(d - 1, R2, W21, 2)
                i = nd("bin", "", [p, j], op="+"); t = "%s[%s]" % (p["t_"], j["t_"])
            return nd("elt", t, [i], x=o["b"], n=1, m=40), o["t"], nm
    def fname(self): self.nf += 1; return "f%d%s" % (self.nf, self.P)
    def sloc(self, d, R, W, o):
        """index node of an element of the array of structs, text, is the text a pointer"""
        r = self.r; i = self.index(d, R, W, 4); c = r.random()
        if c < .5: return i, "%s[%s]" % (o["nm"], i["t_"]), False
        if c < .7: return i, "(%s + %s)" % (o["nm"], i["t_"]), True
        f = self.fname(); k = self.newkey()
        self.top.append("static %s *%s(int i){ return &%s[ev2(%d, i)]; }" % (self.sn, f, o["nm"], k))
        e = nd("ev", "", [i], key=k)
        return e, "%s(%s)" % (f, i["t_"]), True
    def ptr(self, d, R, W):
        r = self.r; c = r.random(); P = self.res["P"]; Q = self.res["Q"]["nm"]
        cell = lambda: nd("elt", "", [nd("lit", "", x=0)], x=P["b"], n=1, m=1)
        if "P" in W and c < .45 and self.pmods:
            self.pmods -= 1
            if c < .33:
                op = r.choice("++-"); pre = r.randrange(2)
                return nd("inc", "(%s%s)" % (op * 2, P["nm"]) if pre else "(%s%s)" % (P["nm"], op * 2), [cell()], op=op, n=pre)
            W2 = W - {"P"}
            if c < .39:
                j = self.index(d, R, W2, 4); op = r.choice("+-")
                return nd("cas", "(%s %s= %s)" % (P["nm"], op, j["t_"]), [cell(), j], op=op)
            p = self.ptr(max(d - 1, 0), R, W2)
            return nd("asg", "(%s = %s)" % (P["nm"], p["t_"]), [cell(), p])
        if "P" in R and c < .6: return nd("rd", P["nm"], [cell()])
        if d <= 0 or c < .68:
            k = r.randrange(8, 20); return nd("lit", "(%s + %d)" % (Q, k) if r.random() < .6 else "(&%s[%d])" % (Q, k), x=k)
        if c < .78:
            i = self.index(d - 1, R, W, 4); return nd("bin", "(&%s[8 + %s])" % (Q, i["t_"]), [nd("lit", "", x=8), i], op="+")
        if c < .86:
            a = self.num(d - 1, R, W, cond=True); x, y = self.ptr(d - 1, R, W), self.ptr(d - 1, R, W)
            return nd("cond", "(%s ? %s : %s)" % (a["t_"], x["t_"], y["t_"]), [a, x, y])
        if c < .92:
            a = self.num(d - 1, R, W); x = self.ptr(d - 1, R, W)
            return nd("comma", "(%s, %s)" % (a["t_"], x["t_"]), [a, x])
        f = self.fname(); k = self.newkey(); i = self.index(d - 1, R, W, 8)
        self.top.append("static %s *%s(int i){ return %s + ev2(%d, i) + 8; }" % (CN[self.qt], f, Q, k))
        return nd("bin", "%s(%s)" % (f, i["t_"]), [nd("lit", "", x=8), nd("ev", "", [i], key=k)], op="+")
    # ---- structs
    def st(self, d, R, W):
        r = self.r; c = r.random(); o = self.res["S"]; w = len(self.fts)
        if d <= 0: c = .1 if "S" in R else .9
        if "S" in R and c < .3:
            i, t, p = self.sloc(max(d, 1), R, W - {"S"}, o)
            return nd("srd", "(*%s)" % t if p else t, [nd("elt", "", [i], x=o["b"], n=w, m=4)], n=w)
        if "S" in W and c < .55:
            W2 = W - {"S"}; (R1, W1), (R2, W21) = self.split(R, W2)
            R1 = R1 | {"S"}; R2 = R2 | {"S"}
            i, t, p = self.sloc(d, R1, W1, o); e = self.st(d - 1, R2, W21)
            return nd("sasg", "(%s = %s)" % ("*%s" % t if p else t, e["t_"]), [nd("elt", "", [i], x=o["b"], n=w, m=4), e], n=w)
        if c < .65:
            a = self.num(d - 1, R, W, cond=True); x, y = self.st(d - 1, R, W), self.st(d - 1, R, W)
            return nd("cond", "(%s ? %s : %s)" % (a["t_"], x["t_"], y["t_"]), [a, x, y])
        if c < .72:
            a = self.num(d - 1, R, W); x = self.st(d - 1, R, W)
            return nd("comma", "(%s, %s)" % (a["t_"], x["t_"]), [a, x])
        if c < .85: return self.call(d, R, W, "st")
        es = [self.num(d - 1, a, b) for a, b in self.split(R, W, w)]
        return nd("slit", "((%s){%s})" % (self.sn, ", ".join(e["t_"] for e in es)), es, ts=list(self.fts))
    # ---- calls and statement expressions
    def stmts(self, d, R, W, want):
        """declarations and expression statements, ending in a value: (text of each, nodes); resources added are local"""
        r = self.r; out = []; nodes = []; R = set(R); W = set(W); undo = []
        for _ in range(r.choice([0, 1, 1, 2, 2])):
            c = r.random()
            if c < .3:
                t = r.choice(ST); nm = "l%d%s" % (len(self.mem), self.P); e = self.num(d - 1, frozenset(R), frozenset(W))
                b = self.slots([t], [0])
                self.res[nm] = {"k": "sc", "b": b, "t": t, "nm": nm, "loc": True}; undo.append(nm)
                ty = CN[t]
                if r.random() < .15: u = self.num(d - 1, frozenset(R), frozenset(W)); ty = "__typeof((%s)(%s))" % (CN[t], u["t_"])
                out.append("%s %s = %s;" % (ty, nm, e["t_"]))
                nodes.append(nd("asg", "", [nd("elt", "", [nd("lit", "", x=0)], x=b, n=1, m=1), e], f=t in ISF)); R.add(nm); W.add(nm)
            elif c < .38:
                i = self.index(d, frozenset(R), frozenset(W), 8); nm = "v%d%s" % (self.newkey(), self.P); k = self.newkey(); t = r.choice(["char", "int", "double"])
                out.append("%s %s[%s + 1]; ev2(%d, sizeof %s);" % (t, nm, i["t_"], k, nm))
                nodes.append(nd("ev", "", [nd("vsz", "", [nd("bin", "", [i, nd("lit", "", x=1)], op="+")], n={"char": 1, "int": 4, "double": 8}[t])], key=k))
            else:
                e = self.num(d - 1, frozenset(R), frozenset(W)) if r.random() < .85 else self.st(d - 1, frozenset(R), frozenset(W))
                if r.random() < .15: out.append("(void)%s;" % e["t_"])
                else: out.append(e["t_"] + ";")
                nodes.append(nd("void", "", [e]))
        e = self.st(d - 1, frozenset(R), frozenset(W)) if want == "st" else self.num(d - 1, frozenset(R), frozenset(W))
        nodes.append(e)
        return out, nodes, e
    def call(self, d, R, W, want="num"):
        r = self.r; n = r.choice([0, 1, 2, 3, 4, 7]) if r.random() < .9 else 9
        if d < 2: n = min(n, 1)
        des = r.random() < .15
        parts = self.split(R, W, n + des) if n + des else []
        args = [self.num(d - 1, a, b) for a, b in parts]
        ts = [r.choice(ST) for _ in range(n)]
        Rb = {x for x in sorted(R) if not self.res[x]["loc"]}; Wb = {x for x in W if not self.res[x]["loc"]}
        ps = []; names = []
        if des: ps.append(self.dummy)
        for t in ts:
            nm = "p%d%s" % (len(self.mem), self.P); b = self.slots([t], [0]); ps.append(b); names.append(nm)
            self.res[nm] = {"k": "sc", "b": b, "t": t, "nm": nm, "loc": True}; Rb.add(nm); Wb.add(nm)
        out, nodes, e = self.stmts(d - 1, frozenset(Rb), frozenset(Wb), want)
        f = self.fname(); rt = self.sn if want == "st" else r.choice(["int", "long", "double"]) if not e["f"] else r.choice(["double", "float"])
        if rt == "int": pass
        self.top.append("%s%s %s(%s){ %s return %s; }" % (r.choice(["static ", "static inline ", "static __attribute__((noinline)) "]), rt, f,
                        ", ".join("%s %s" % (CN[t], nm) for t, nm in zip(ts, names)) or "void", " ".join(out), e["t_"]))
        at = [a["t_"] for a in args]
        fn = "(%s, %s)" % (at[0], f) if des else r.choice(["%s", "%s", "%s", "(*%s)", "(&%s)"]) % f
        return nd("call", "%s(%s)" % (fn, ", ".join(at[des:])), args + nodes, n=len(args), ps=ps, f=rt in ("double", "float"))
    def se(self, d, R, W):
        out, nodes, e = self.stmts(d, R, W, "num")
        return nd("seq", "({ %s %s; })" % (" ".join(out), e["t_"]), nodes, f=e["f"])
    # ---- numbers
    def lit(self):
        x = self.r.choice([0, 0, 1, 1, 2, 3, 5, 7, 100, 255, 300])
        if self.r.random() < .12: return nd("lit", "%d.0" % x, x=x, f=1)
        return nd("lit", str(x), x=x)
    def ev(self, d, R, W):
        e = self.num(d, R, W); k = self.newkey()
        return nd("ev", "%s(%d, %s)" % (self.r.choice(["ev2", "ev2", "(*evp)"]), k, e["t_"]), [e], key=k)
    def read(self, d, R, W):
        l = self.lval(d, R, W, R) if R else None
        if l is None: return self.lit()
        return nd("rd", l[0]["t_"], [l[0]], f=l[1] in ISF)
    def num(self, d, R, W, cond=False):
        r = self.r; self.size -= 1; c = r.random()
        if d <= 0 or self.size <= 0:
            return self.lit() if c < .3 else self.read(0, R, W) if c < .75 else self.ev(0, R, W) if d == 0 else self.lit()
        if c < .05: return self.lit()
        if c < .14: return self.read(d, R, W)
        if c < .28: return self.ev(d - 1, R, W)
        if c < .38:
            (R1, W1), (R2, W2) = self.split(R, W); op = r.choice(["+", "-", "+", "-", "*", "==", "!=", "<", ">", "<=", ">="])
            a, b = self.num(d - 1, R1, W1), self.num(d - 1, R2, W2)
            return nd("bin", "(%s %s %s)" % (a["t_"], op, b["t_"]), [a, b], op=op, f=op in "+-*" and (a["f"] or b["f"]))
        if c < .47:
            k = r.choice(["and", "or"]); a, b = self.num(d - 1, R, W), self.num(d - 1, R, W)
            return nd(k, "(%s %s %s)" % (a["t_"], "&&" if k == "and" else "||", b["t_"]), [a, b])
        if c < .53:
            a, x, y = self.num(d - 1, R, W), self.num(d - 1, R, W), self.num(d - 1, R, W)
            return nd("cond", "(%s ? %s : %s)" % (a["t_"], x["t_"], y["t_"]), [a, x, y], f=x["f"] or y["f"])
        if c < .57:
            a, b = self.num(d - 1, R, W), self.num(d - 1, R, W)
            return nd("elvis", "(%s ?: %s)" % (a["t_"], b["t_"]), [a, b], f=a["f"] or b["f"])
        if c < .61:
            a, b = self.num(d - 1, R, W) if r.random() < .8 else self.st(d - 1, R, W), self.num(d - 1, R, W)
            return nd("comma", "(%s, %s)" % (a["t_"] if r.random() < .8 else "(void)" + a["t_"], b["t_"]), [a, b], f=b["f"])
        if c < .73 and W:
            q = r.random(); tgt = [w for w in sorted(W) if w != "P"]
            if tgt:
                if q < .4:
                    nm = r.choice(sorted(tgt)); (R1, W1), (R2, W2) = self.split(R, W - {nm})
                    l = self.lval(d - 1, R1 | {nm}, W1, [nm]); e = self.num(d - 1, R2 | {nm}, W2)
                    return nd("asg", "(%s = %s)" % (l[0]["t_"], e["t_"]), [l[0], e], f=l[1] in ISF)
                if q < .75:
                    nm = r.choice(sorted(tgt)); (R1, W1), (R2, W2) = self.split(R, W - {nm}); op = r.choice("+-+-*")
                    l = self.lval(d - 1, R1 | {nm}, W1, [nm]); e = self.num(d - 1, R2 | {nm}, W2)
                    return nd("cas", "(%s %s= %s)" % (l[0]["t_"], op, e["t_"]), [l[0], e], op=op, f=l[1] in ISF)
                nm = r.choice(sorted(tgt)); l = self.lval(d - 1, R, W - {nm}, [nm]); op = r.choice("+-"); pre = r.randrange(2)
                return nd("inc", "(%s%s)" % (op * 2, l[0]["t_"]) if pre else "(%s%s)" % (l[0]["t_"], op * 2), [l[0]], op=op, n=pre, f=l[1] in ISF)
        if c < .75: a = self.num(d - 1, R, W); return nd("not", "(!%s)" % a["t_"], [a])
        if c < .77: a = self.num(d - 1, R, W); return nd("neg", "(-%s)" % a["t_"], [a], f=a["f"])
        if c < .80:
            a = self.num(d - 1, R, W); t = r.choice(ST); return nd("conv", "((%s)%s)" % (CN[t], a["t_"]), [a], t=t, f=t in ISF)
        if c < .85: return self.call(d, R, W)
        if c < .88: return self.se(d, R, W)
        if c < .91:
            a = self.st(d - 1, R, W); k = r.randrange(len(self.fts))
            return nd("fld", "%s.m%d" % (a["t_"] if a["t_"][0] == "(" or a["k"] == "srd" else "(%s)" % a["t_"], k + 1), [a], n=k + 1, f=self.fts[k] in ISF)
        if c < .94:
            t = r.choice(ST)
            if r.random() < .35:
                (R1, W1), (R2, W2) = self.split(R, W); e = self.num(d - 1, R1, W1); i = self.index(d - 1, R2, W2, 4)
                return nd("alit", "((%s[4]){[0 ... 3] = %s})[%s]" % (CN[t], e["t_"], i["t_"]), [e, i], n=1, t=t, f=t in ISF)
            n = r.choice([1, 2, 4]); parts = self.split(R, W, n + 1)
            es = [self.num(d - 1, a, b) for a, b in parts[:n]]; i = self.index(d - 1, *parts[n], n)
            return nd("alit", "((%s[]){%s})[%s]" % (CN[t], ", ".join(e["t_"] for e in es), i["t_"]), es + [i], n=n if n > 1 else 0, t=t, f=t in ISF)
        if c < .96:
            q = r.random()
            if q < .5:
                i = self.index(d - 1, R, W, 8); t, w = r.choice([("char", 1), ("int", 4), ("double", 8), ("void *", 8)])
                return nd("vsz", "(int)sizeof(%s[%s + 1])" % (t, i["t_"]), [nd("bin", "", [i, nd("lit", "", x=1)], op="+")], n=w)
            (R1, W1), (R2, W2) = self.split(R, W)
            i, j = self.index(d - 1, R1, W1, 4), self.index(d - 1, R2, W2, 4); one = lambda z: nd("bin", "", [z, nd("lit", "", x=1)], op="+")
            return nd("vsz", "(int)sizeof(char[%s + 1][%s + 1])" % (i["t_"], j["t_"]), [nd("bin", "", [one(i), one(j)], op="*")], n=1)
        # operands that are not evaluated
        u = self.ev(d - 1, R, W) if r.random() < .5 else self.num(d - 1, R, W); q = r.random()
        if "({" in u["t_"]: u = nd("lit", "3", x=3)
        if q < .3: return nd("none", "(int)(sizeof %s * 0)" % ("(+" + u["t_"] + ")"), x=0)
        if q < .4: return nd("none", "__builtin_constant_p(ev2(77777, %s))" % u["t_"], x=0)
        if q < .5: return nd("none", "__builtin_types_compatible_p(__typeof(+%s), %s)" % (u["t_"], self.sn), x=0)
        if q < .8:
            T, nsel = r.choice([("int", 1), ("char", 1), ("double", 1), ("long", 0)]); a, b = self.num(d - 1, R, W), self.num(d - 1, R, W)
            src = {"int": "(int)", "char": "(char)", "double": "(double)"}.get(T, "(short)")
            As = ["%s: %s" % ({"long": "long"}.get(T, T), a["t_"]), "default: %s" % b["t_"]]
            if r.random() < .4: As.reverse()
            k = 1 if nsel else 2
            return nd("sel", "_Generic(%s%s, %s)" % (src, u["t_"], ", ".join(As)), [a, b], n=k, f=(a if nsel else b)["f"])
        a, b = self.num(d - 1, R, W), self.num(d - 1, R, W); k = r.randrange(2)
        return nd("sel", "__builtin_choose_expr(%d, %s, %s)" % (k, a["t_"], b["t_"]), [a, b], n=2 - k, f=[b, a][k]["f"])
    def program(self, d):
        R = frozenset(self.res); es = [self.num(d, R, R) for _ in range(self.r.choice([1, 2, 3]))]
        root = nd("seq", "", es); fin = ""
        w = len(self.fts)
        for nm, o in list(self.res.items()):
            if o["b"] > self.nfin: continue
            if o["k"] == "sc": fin += "ev2(%d, %s); " % (100000 + o["b"], nm)
            elif o["k"] in ("arr", "q"): fin += "for(int i = 0; i < %d; i++) ev2(%d + i, %s[i]); " % (o["n"], 100000 + o["b"], o["nm"])
            elif o["k"] == "st":
                for k in range(w): fin += "for(int i = 0; i < 4; i++) ev2(%d + i * %d, S%s[i].m%d); " % (100000 + o["b"] + k, w, self.P, k + 1)
            else: fin += "ev2(%d, P%s - Q%s); " % (100000 + o["b"], self.P, self.P)
        self.text = "\n".join(self.decl + self.top) + "\nstatic void run%s(void){ %s %s %s }" % (
            self.P, " ".join(self.inits), " ".join("%s;" % e["t_"] for e in es), fin)
        nodes = []; num = {}
        def walk(x):
            nodes.append(x); num[x] = len(nodes)
            for y in x["a"]: walk(y)
        walk(root)
        out = []
        for x in nodes:
            o = {f: v for f, v in x.items() if f != "t_" and f != "a"}; o["a"] = [num[y] for y in x["a"]]
            out.append(o)
        self.case = {"nodes": out, "root": 1, "mem": self.mem, "mt": self.mt, "free": False}
        return self

PRE = "int ev2(int, int); void sep(int); void flush_out(void); static int (*evp)(int, int) = ev2;\n"
OPTS = [(), ("-fno-pic",), (), ("-O2",), (), ("-fno-const-fold",), ("-finline-functions",), ("-fstack-protector-all",), ("-g",)]

def go(rep):
    r = rng("C04")
    n = int(os.environ.get("VERIF_N", 9000 if THOROUGH else 1600))
    gs = [Gen(r, k, r.choice([10, 20, 40, 60])).program(r.choice([2, 3, 4])) for k in range(n)]
    build_ucc(); rt_obj()
    # the machine itself: on small programs, every order of events ends in the same memory
    small = [g for g in gs if 3 <= sum(x["k"] == "ev" for x in g.case["nodes"]) <= 5][:300 if THOROUGH else 60]
    free = tlc_cases("Effects", [dict(g.case, free=True, tr=[], fin=g.case["mem"][:g.nfin]) for g in small], inv=["Verdict", "Asked", "Progress"])
    orders = 0
    for k, g in enumerate(small):
        ms = {json.dumps(x["mem"]) for x in free.get(k, []) if x["ok"]}; orders = max(orders, len({json.dumps(x["log"]) for x in free.get(k, [])}))
        if len(ms) > 1: raise CheckError("generated program %d has conflicting unsequenced accesses:\n%s" % (g.n, g.text))
    def record(batch, opts):
        src = PRE + "\n".join(g.text for g in batch) + "\nint main(void){ %s flush_out(); return 0; }\n" % " ".join("sep(%d); run%s();" % (g.n, g.P) for g in batch)
        rr = build_run(src, opts)
        if rr["stage"] != "run" or rr["rc"] != 0:
            if len(batch) > 1: h = len(batch) // 2; return record(batch[:h], opts) + record(batch[h:], opts)
            if rr["stage"] != "run": return [(batch[0], opts, None, "%s failed: %s" % (rr["stage"], rr["out"][-600:]), src)]
        o = cstmt.parse(rr["out"])
        return [(g, opts, o.get(g.n, []), "exit status %s" % rr["rc"] if rr["rc"] else None, src) for g in batch]
    B = 20
    recs = [x for l in pmap(lambda k: record(gs[k:k + B], OPTS[(k // B) % len(OPTS)]), range(0, n, B)) for x in l]
    cases = []; use = []; skipped = 0
    for g, opts, tr, err, src in recs:
        if tr is None:
            rep.violation("program %d of seed %d" % (g.n, SEED), "options %s: %s" % (" ".join(opts), err), {"program.c": src}); continue
        fin = {e[0] - 100000: e[1] for e in tr if isinstance(e[0], int) and e[0] > 100000}
        ev = [[e[0], e[1]] for e in tr if not isinstance(e[0], int) or e[0] <= 100000]
        if any(not isinstance(e[0], int) for e in ev): ev.append([-1, -1]); ev = [e for e in ev if isinstance(e[0], int)]
        cases.append(dict(g.case, tr=ev, fin=[fin.get(k + 1, -99999) for k in range(g.nfin)])); use.append((g, opts, err, ev))
    res = tlc_cases("Effects", cases, inv=["Verdict", "Asked", "Progress"])
    evs = 0
    for k, (g, opts, err, ev) in enumerate(use):
        vs = res.get(k, [])
        if not vs: raise CheckError("no verdict for program %d" % g.n)
        if not any(v["ok"] for v in vs): skipped += 1; continue
        vs = [v for v in vs if v["ok"]]
        evs += len(ev)
        if any(v["good"] for v in vs) and not err: continue
        v = max(vs, key=lambda v: v["at"])
        d = err or ("final memory differs: " + ", ".join("slot %d is %d, not %d" % (j + 1, y, x) for j, (x, y) in enumerate(zip(v["mem"], cases[k]["fin"])) if x != y)[:400] if v["over"] and v["at"] == len(ev) else
             "after %d events %s the machine allows %s, the program did %s" % (v["at"], ev[max(0, v["at"] - 3):v["at"]], v["next"], ev[v["at"]:v["at"] + 2] or "nothing more"))
        src = PRE + g.text + "\nint main(void){ sep(%d); run%s(); flush_out(); return 0; }\n" % (g.n, g.P)
        rep.violation("program %d of seed %d" % (g.n, SEED), "options %s: %s" % (" ".join(opts), d), {"program.c": src})
    rep.cov.update(cases_generated=n, traces_validated_against_impl=len(use) - skipped, undefined_dropped=skipped, events_checked=evs, confluence_programs=len(small), most_orders_explored=orders)
    if len(use) - skipped < n // 2: raise CheckError("too few programs with a defined meaning: %d of %d" % (len(use) - skipped, n))
    for g in gs[:2]: rep.sample({"events": len(g.case["nodes"]), "text": g.text[-300:]})
    rep.assumptions.append("values stay below 10^6 so that int, long, float and double compute them exactly; value semantics at the extremes is C01/C23")

if __name__ == "__main__": main(go, "C04", "model_checking")
