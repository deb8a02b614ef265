"""Random statement programs for spec/StmtMachine.tla (generation and rendering only)."""
import re
from cexpr import *
import vlib

CT = {"u": "unsigned char", "s": "signed char", "i": "int"}
PROM = {"bool": "int", "char": "int", "schar": "int", "uchar": "int", "short": "int", "ushort": "int"}

# element types of variable-length arrays, by size
VEL = [(1, "unsigned char @"), (1, "char @"), (1, "signed char @"), (1, "unsigned char @"), (1, "_Bool @"), (1, "char @[1]"),
       (8, "int *@"), (8, "double (*@)(int)"), (8, "char (*@)[7]"), (6, "short @[3]"), (6, "char @[2][3]"), (6, "struct { char c; short s[2]; } @"),
       (16, "int *@[2]"), (16, "char (*@[2])[9]"), (16, "int @[vl2 + 2]")]
class Node(dict):
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
def nd(k, a=(), **kw):
    n = Node(k=k, a=list(a)); n.update(kw); return n

class SGen:
    def __init__(self, r, n, cleanup=.0, vla=.0, se=.3, jumps=1.0, size=22, evs=True):
        self.r, self.n, self.pc, self.pv, self.pse, self.j = r, n, cleanup, vla, se, jumps
        self.ng = 3; self.nv = 3; self.key = 0; self.funcs = []; self.size0 = size; self.evs = evs
        self.vars = {1: "u", 2: "u", 3: "s"}; self.truths = []; self.handlers = []
    def newvar(self, t):
        self.nv += 1; self.vars[self.nv] = t; self.locals.append(self.nv); return self.nv
    def newkey(self): self.key += 1; return self.key
    # --- expressions
    def lit(self): return nd("lit", x=self.r.choice([0, 0, 1, 1, 2, 3, 5, 7, 100, 255]))
    def readable(self): return [v for v in self.scope if v not in self.novar] or [1]
    def var(self): return nd("var", id=self.r.choice(self.readable()))
    def truth(self):
        """a scalar of some type used as a condition"""
        r = self.r; c = r.random()
        if c < .25:
            t = r.choice(["float", "double"]); v = r.choice(["0.0", "-0.0", "0.5", "-0.25", "1e-30", "3.0"])
            x = int(v not in ("0.0", "-0.0")); txt = v if v[0] != "(" else v
            decl = "%s " % t; init = txt
        elif c < .4:
            x = r.randrange(2); decl = "char *"; init = "&zc" if x else "0"
        else:
            t = r.choice(TYPES); val = conv(r.choice([0, 0, 1, 1 << 31, 1 << 32, 1 << 63, 256, 65536, -1, 128]), t); x = int(val != 0)
            decl = CN[t] + " "; init = typed_lit(val, t)
        nm = "t%d_%d" % (self.n, len(self.truths)); vol = r.random() < .5
        self.truths.append("%s%s%s = %s;" % (decl if not vol or "*" in decl else "volatile " + decl, "", nm, init))
        return nd("lit", x=x, txt=nm)
    def pure(self, d=2):
        r = self.r; c = r.random()
        if d == 0 or c < .25: return self.lit() if r.random() < .35 else self.var()
        if c < .45: return self.var()
        if c < .8: return nd("bin", [self.pure(d - 1), self.pure(d - 1)], op=r.choice(["+", "-", "+", "-", "==", "!=", "<", ">", "<=", ">="]))
        if c < .85: return nd("bin", [self.pure(0), nd("lit", x=r.choice([2, 3, 4]))], op="*")
        if c < .9: return nd("not", [self.pure(d - 1)])
        if c < .95: return nd(r.choice(["and", "or"]), [self.cond(d - 1, True), self.cond(d - 1, True)])
        return nd("cond", [self.cond(d - 1, True), self.pure(d - 1), self.pure(d - 1)])
    def hdr(self, f, *a):
        """an expression of a loop or switch header: break/continue in it are not generated"""
        sv, self.inloop = self.inloop, []
        try: return f(*a)
        finally: self.inloop = sv
    def cond(self, d=2, pure=False):
        r = self.r; c = r.random()
        if c < .12: return self.truth()
        if c < .2: return self.lit()
        if c < .55: return nd("bin", [self.pure(1), self.pure(1)], op=r.choice(["==", "!=", "<", ">", "<=", ">="]))
        if d > 0 and c < .75: return nd(r.choice(["and", "or"]), [self.cond(d - 1, pure), self.cond(d - 1, pure)])
        if d > 0 and c < .82: return nd("not", [self.cond(d - 1, pure)])
        if d > 0 and c < .86: return nd("cond", [self.cond(d - 1, pure), self.cond(d - 1, pure), self.cond(d - 1, pure)])
        if pure: return self.pure(1)
        if d > 0 and c < .9: return nd("comma", [self.eff(d - 1), self.cond(d - 1)])
        return self.ev() if r.random() < .7 else self.eff(max(d - 1, 0))
    def ev(self): return nd("ev", [self.pure(1)], key=self.newkey())
    def assignable(self): return [v for v in self.scope if v not in self.novar and v not in self.ro] or [1]
    def eff(self, d=2):
        r = self.r; c = r.random()
        v = r.choice(self.assignable()); t = self.vars[v]
        if d <= 0 or c < .3: return self.ev()
        if c < .42: return nd("asg", [self.pure(2) if t != "i" else self.lit()], id=v, t=t)
        if c < .5 and t != "i": return nd("cas", [self.pure(1)], id=v, t=t, op=r.choice("+-"))
        if c < .58: return nd("inc", id=v, t=t, op=r.choice("+-") if t != "i" else "+", pre=r.randrange(2))
        if c < .66 and self.funcs: return nd("call", [self.pure(1) for _ in self.funcs[-1]["ps"]], fn=self.funcs[-1]) if r.random() < .5 else self.call()
        if c < .72: return nd("bin", [self.eff(d - 1), self.lit()] if r.random() < .5 else [self.lit(), self.eff(d - 1)], op=r.choice(["+", "-", "==", "<"]))
        if c < .80: return nd(r.choice(["and", "or"]), [self.cond(d - 1), self.eff(d - 1) if r.random() < .5 else self.cond(d - 1)])
        if c < .86: return nd("cond", [self.cond(d - 1), self.eff(d - 1), self.eff(d - 1)])
        if c < .89: return nd("elvis", [self.eff(d - 1), self.eff(d - 1)])
        if c < .92: return nd("comma", [self.eff(d - 1), self.eff(d - 1)])
        if r.random() < self.pse and self.size > 3: return nd("se", [self.hdr(self.block, True)])
        return self.ev()
    def call(self):
        f = self.r.choice(self.funcs); return nd("call", [self.pure(1) for _ in f["ps"]], fn=f)
    # --- statements
    def block(self, value=False, extra=None):
        r = self.r
        saved = list(self.scope)
        b = nd("blk", ds=[]); self.depth += 1
        k = r.choice([1, 2, 2, 3, 3, 4])
        while k > 0 and self.size > 0:
            k -= 1
            c = r.random()
            if c < .12 + self.pc: b["a"].append(self.decl(b))
            elif c < .12 + self.pc + self.pv: b["a"].append(self.vla(b))
            else: b["a"].append(self.stmt())
        if value: b["a"].append(nd("es", [self.eff(1) if r.random() < .3 else self.pure(1)]))
        elif not b["a"]: b["a"].append(nd("es", [self.ev()]))
        self.depth -= 1
        for v in b["ds"]:
            if v in self.vlas: self.vlas.remove(v)
        self.scope = saved
        return b
    def decl(self, b):
        r = self.r
        cl = self.newkey() if r.random() < self.pc * 2.5 else 0
        t = "u" if cl else r.choice("us")
        e = self.eff(1) if r.random() < .3 else self.pure(1)
        v = self.newvar(t); b["ds"].append(v); self.scope.append(v)
        return nd("decl", [e], id=v, t=t, cl=cl)
    def vla(self, b):
        r = self.r
        e = self.eff(1) if r.random() < .3 else self.pure(1)
        v = self.newvar("u"); b["ds"].append(v); self.vlas.append(v)
        return nd("vla", [e], id=v, pat=r.randrange(1, 200), key=self.newkey(), w=r.choice(VEL)[0])
    def body(self):
        """a substatement: usually a block"""
        if self.r.random() < .75: return self.block()
        self.depth += 1; s = self.stmt(); self.depth -= 1; return s
    def label(self):
        l = nd("label", [nd("null")]); self.labels.append(l); return l
    def guard(self):
        """if(c++ < k): bounds how often a jump is taken"""
        v = self.counter(); return nd("bin", [nd("inc", id=v, t="i", op="+", pre=0), nd("lit", x=self.r.choice([1, 1, 2, 3]))], op="<")
    def counter(self):
        v = self.newvar("i"); self.counters.append(v); return v
    def stmt(self):
        r = self.r; self.size -= 1; c = r.random()
        if self.depth > 5 or self.size <= 0 or c < .30: return nd("es", [self.eff(2)])
        if c < .45:
            cc = self.cond(2); s = nd("if", [cc, self.body()])
            if r.random() < .5: s["a"].append(self.body())
            return s
        if c < .62: return self.loop()
        if c < .72: return self.switch()
        if c < .76: return self.block()
        if c < .80 and self.vlas:
            v = r.choice(self.vlas)
            return nd("es", [nd("ev", [nd(r.choice(["vget", "vget", "vsz"]), id=v)], key=self.newkey())]) if r.random() < .8 else nd("vset", [self.pure(1)], id=v)
        if c < .80: return nd("es", [self.ev()])
        if c < .86 and self.inloop:
            s = nd("cont" if self.inloop[-1] != "sw" and r.random() < .5 or ("sw" in self.inloop[-1:] and len(self.inloop) > 1 and r.random() < .3 and any(x != "sw" for x in self.inloop)) else "brk")
            if s["k"] == "cont" and not any(x != "sw" for x in self.inloop): s = nd("brk")
            return nd("if", [self.cond(1), s]) if r.random() < .8 else s
        if c < .94 and self.j > 0:
            l = self.label()
            if r.random() < .5: l["a"][0] = self.stmt()
            return l
        if c < .98 and self.j > 0:
            if r.random() < .25: g = nd("cgoto", [self.pure(1)], ts=[None] * r.choice([1, 2, 3])); self.gotos.append(g)
            else: g = nd("goto", to=None); self.gotos.append(g)
            return nd("if", [self.guard(), g]) if r.random() < .93 else g
        e = self.pure(1)
        return nd("if", [self.cond(1), nd("ret", [e])]) if r.random() < .8 else nd("ret", [e])
    def loop(self):
        r = self.r; c = r.random(); saved = list(self.scope)
        n = r.choice([0, 1, 2, 3])
        if c < .3:
            f = nd("for", [0, 0, 0, 0], ds=[])
            v = self.newvar("i"); f["ds"].append(v); 
            f["a"][0] = nd("decl", [nd("lit", x=0)], id=v, t="i", cl=0)
            if r.random() < self.pc:
                f["ds"] = []; self.locals.remove(v); v = self.newvar("u"); f["ds"].append(v)
                f["a"][0] = nd("decl", [nd("lit", x=0)], id=v, t="u", cl=self.newkey())
            self.scope.append(v); self.ro.append(v)
            cmp = nd("bin", [nd("var", id=v), nd("lit", x=n)], op=r.choice(["<", "!=", "<"]))
            f["a"][1] = cmp if r.random() < .7 else nd("and", [cmp, self.hdr(self.cond, 1)])
            f["a"][2] = nd("inc", id=v, t=self.vars[v], op="+", pre=r.randrange(2))
            if r.random() < .3: f["a"][2] = nd("comma", [self.ev(), f["a"][2]])
            self.inloop.append("for"); f["a"][3] = self.body(); self.inloop.pop()
            self.scope = saved; self.ro.remove(v)
            return f
        v = self.counter()
        cnt = nd("bin", [nd("inc", id=v, t="i", op="+", pre=r.randrange(2)), nd("lit", x=n)], op=r.choice(["<", "<", "<=", "!="]))
        if cnt["op"] == "!=": cnt["a"][0]["pre"] = 1; cnt["a"][1]["x"] = max(n, 1)
        q = r.random()
        if q < .3: cnt = nd("and", [cnt, self.hdr(self.cond, 1)])
        elif q < .4: cnt = nd("and", [self.hdr(self.cond, 1), cnt])
        elif q < .48: cnt = nd("comma", [self.hdr(self.eff, 1), cnt])
        self.inloop.append("loop")
        if c < .5: s = nd("while", [cnt, self.body()])
        elif c < .7: s = nd("do", [cnt, self.body()])
        elif c < .8: s = nd("for", [self.hdr(self.eff, 1) if r.random() < .5 else 0, cnt, self.hdr(self.eff, 1) if r.random() < .7 else 0, self.body()], ds=[])
        elif c < .86: s = nd("do", [nd("lit", x=0), self.body()])
        elif c < .9: s = nd("while", [nd("lit", x=0), self.body()])
        else:
            b = self.block(); b["a"].insert(r.randrange(len(b["a"]) + 1), nd("if", [nd("not", [cnt]), nd("brk")]))
            if r.random() < .5: s = nd("while", [nd("lit", x=r.choice([1, 2, 7])), b])
            else: s = nd("for", [0, 0, self.hdr(self.eff, 1) if r.random() < .4 else 0, b], ds=[])
        self.inloop.pop()
        return s
    def switch(self):
        r = self.r
        t = r.choice(TYPES); p = PROM.get(t, t)
        e = self.hdr(self.eff, 1) if r.random() < .2 else self.pure(1)
        tab = [interesting(r, t) for _ in range(r.choice([1, 2, 3, 4]))]
        if r.random() < .4: tab = [conv(r.randrange(-2, 6), t) for _ in tab]
        want = set()
        for v in tab:
            if r.random() < .75: want.add(conv(v, p))
            if r.random() < .3: want.add(conv(v + r.choice([1, -1, 1 << 8, 1 << 16, 1 << 32]), p))
        for _ in range(r.choice([0, 1, 2])): want.add(conv(r.randrange(-3, 10), p))
        want = sorted(want); r2 = []
        k = 0
        while k < len(want):
            lo = hi = want[k]
            if r.random() < .2:
                nxt = want[k + 1] if k + 1 < len(want) else conv((1 << (8 * size(p))) - 1 if p not in SIGNED else (1 << (8 * size(p) - 1)) - 1, p)
                hi = r.choice([lo, min(lo + r.choice([0, 1, 5, 300]), nxt - 1), nxt - 1]) if nxt > lo else lo
                if r.random() < .3 and k + 1 < len(want):
                    hi = want[k + 1]; k += 1
                hi = max(hi, lo)
            r2.append((lo, hi)); k += 1
        r.shuffle(r2)
        self.inloop.append("sw")
        if len(r2) == 1 and r.random() < .2:      # a body that is not a block
            l = nd("case", [self.body()], lo=r2[0][0], hi=r2[0][1]); self.inloop.pop()
            return nd("sw", [e, l], t=t, tab=tab, labs=[l], df=None)
        b = self.block()
        labs = [nd("case", [nd("null")], lo=lo, hi=hi) for lo, hi in r2]
        df = nd("dflt", [nd("null")]) if r.random() < .6 else None
        if df: labs.insert(r.randrange(len(labs) + 1), df)
        # place the labels, mostly at the top level of the body, sometimes inside nested statements
        spots = [b]
        def walk(x):
            for y in x["a"]:
                if isinstance(y, Node) and y["k"] == "vla": break     # no label in its scope
                if isinstance(y, Node) and y["k"] in ("blk", "if", "while", "do", "for", "label"):
                    if y["k"] == "blk": spots.append(y)
                    walk(y)
        walk(b)
        for l in labs:
            if r.random() < .5: l["a"][0] = nd("es", [self.eff(1)]) if r.random() < .6 else nd("brk")
            t2 = b if r.random() < .8 or len(spots) == 1 else r.choice(spots)
            lim = next((q for q, y in enumerate(t2["a"]) if y["k"] == "vla"), len(t2["a"]))
            pos = r.randrange(lim + 1)
            if l["a"][0]["k"] == "null" and r.random() < .3 and pos < len(t2["a"]) and t2["a"][pos]["k"] not in ("decl", "vla") and not (t2 is not b and pos == len(t2["a"]) - 1):
                l["a"][0] = t2["a"][pos]; t2["a"][pos] = l
            else: t2["a"].insert(pos, l)
        self.inloop.pop()
        return nd("sw", [e, b], t=t, tab=tab, labs=labs, df=df)
    def fn(self, np, size):
        r = self.r
        self.locals = []; self.labels = []; self.gotos = []; self.counters = []; self.vlas = []; self.inloop = []; self.ro = []; self.novar = []
        self.inits = []
        self.size = size; self.depth = 0
        ps = [self.newvar("i") for _ in range(np)]
        self.scope = [1, 2, 3] + ps
        b = nd("blk", ds=[])
        for _ in range(r.choice([1, 2, 3])):
            e = self.pure(1)
            v = self.newvar(r.choice("usi")); 
            if self.vars[v] == "i": e = self.lit()
            b["ds"].append(v); self.scope.append(v)
            b["a"].append(nd("decl", [e], id=v, t=self.vars[v], cl=0))
        k = len(b["a"])
        while self.size > 0:
            c = r.random()
            if c < self.pc * .7: b["a"].append(self.decl(b))
            elif c < self.pc * .7 + self.pv * .7: b["a"].append(self.vla(b))
            else: b["a"].append(self.stmt())
        b["a"].append(nd("ret", [self.pure(2) if r.random() < .8 else self.eff(1)]))
        for v in reversed(self.counters):
            b["ds"].append(v); b["a"].insert(k, nd("decl", [nd("lit", x=0)], id=v, t="i", cl=0))
        # where each label and goto stands: enclosing statement expressions, arrays of variable length in scope
        ctx = {}
        def walk(x, ses, vl):
            if x["k"] in ("label", "goto", "cgoto"): ctx[x] = (ses, frozenset(vl))
            if x["k"] == "se": ses = ses + (id(x),)
            if x["k"] in ("blk", "for", "se"): vl = list(vl)
            for y in x["a"]:
                if isinstance(y, Node):
                    walk(y, ses, vl)
                    if y["k"] == "vla": vl.append(y["id"])
                    elif y["k"] == "decl" and y["cl"]: vl.append(-y["id"])
        walk(b, (), [])
        vlas = lambda x: frozenset(v for v in ctx[x][1] if v > 0)
        for g in self.gotos:
            if g not in ctx: continue
            can = [l for l in self.labels if l in ctx and ctx[g][0][:len(ctx[l][0])] == ctx[l][0] and vlas(l) <= vlas(g)
                   and (g["k"] == "goto" or ctx[l][1] == ctx[g][1])]      # a computed goto runs no cleanups
            if not can: g["k"] = "es"; g["a"] = [self.lit()]; g.pop("to", 0); g.pop("ts", 0)
            elif g["k"] == "goto": g["to"] = r.choice(can)
            else: g["ts"] = [r.choice(can) for _ in g["ts"]]
        f = nd("fn", [b], ps=ps, vs=list(self.locals), truth=self.inits)
        self.funcs.append(f)
        return f
    def program(self):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2])): self.fn(r.choice([0, 1, 1, 2]), r.choice([3, 6, 9]))
        self.main = self.fn(0, self.size0)
        return self

def flatten(g):
    nodes = []; num = {}
    def walk(x, up):
        nodes.append(x); num[x] = len(nodes); x["up"] = up
        me = num[x]
        for y in x["a"]:
            if isinstance(y, Node): walk(y, me)
    for f in g.funcs: walk(f, 0)
    out = []
    for x in nodes:
        o = {"k": x["k"], "up": x["up"], "a": [num[y] if isinstance(y, Node) else 0 for y in x["a"]]}
        for f in ("x", "id", "t", "op", "pre", "key", "cl", "pat", "ds", "ps", "vs", "w"):
            if f in x: o[f] = x[f]
        if x["k"] == "goto": o["to"] = num[x["to"]]
        if x["k"] == "cgoto": o["ts"] = [num[y] for y in x["ts"]]
        if x["k"] == "call": o["fn"] = num[x["fn"]]
        if x["k"] == "sw":
            o["tab"] = [word(v) for v in x["tab"]]
            o["cs"] = [{"lo": word(l["lo"]), "hi": word(l["hi"]), "n": num[l]} for l in x["labs"] if l["k"] == "case"]
            o["df"] = num[x["df"]] if x["df"] else 0
        out.append(o)
    g.num = num
    return {"nodes": out, "main": num[g.main], "nv": g.nv, "ng": g.ng}

class Render:
    def __init__(self, g, quals=lambda f, main: "static "):
        self.g = g; self.n = g.n; self.top = list(g.truths); self.q = quals; self.handlers = []; self.sw = 0
        self.fnname = {f: "f%d_%d" % (g.n, k) for k, f in enumerate(g.funcs)}
    def v(self, id): return ("g%d_%d" if id <= self.g.ng else "v%d_%d") % (self.n, id)
    def num(self, x):
        """an expression of integer type"""
        if x["k"] == "lit" and "txt" in x: return "!!" + x["txt"]
        if x["k"] == "comma": return "(%s, %s)" % (self.e(x["a"][0]), self.num(x["a"][1]))
        return self.e(x)
    def e(self, x):
        k = x["k"]; E = self.e; a = x["a"]
        if k == "lit": return x.get("txt") or str(x["x"])
        if k == "var": return self.v(x["id"])
        if k == "ev": return "ev2(%d, %s)" % (x["key"], E(a[0]))
        if k == "asg": return "(%s = %s)" % (self.v(x["id"]), E(a[0]))
        if k == "cas": return "(%s %s= %s)" % (self.v(x["id"]), x["op"], E(a[0]))
        if k == "inc": return "(%s%s)" % (x["op"] * 2, self.v(x["id"])) if x["pre"] else "(%s%s)" % (self.v(x["id"]), x["op"] * 2)
        if k == "bin": return "(%s %s %s)" % (E(a[0]), x["op"], E(a[1]))
        if k == "and": return "(%s && %s)" % (E(a[0]), E(a[1]))
        if k == "or": return "(%s || %s)" % (E(a[0]), E(a[1]))
        if k == "cond": return "(%s ? %s : %s)" % (E(a[0]), self.num(a[1]), self.num(a[2]))
        if k == "elvis": return "(%s ?: %s)" % (self.num(a[0]), self.num(a[1]))
        if k == "comma": return "(%s, %s)" % (E(a[0]), E(a[1]))
        if k == "not": return "(!%s)" % E(a[0])
        if k == "call": return "%s(%s)" % (self.fnname[x["fn"]], ", ".join(E(y) for y in a))
        if k == "se": return "(%s)" % self.s(a[0])
        if k == "vget": return "vchk((void *)%s, sizeof %s)" % (self.v(x["id"]), self.v(x["id"]))
        if k == "vsz": return "(int)sizeof %s" % self.v(x["id"])
        raise KeyError(k)
    def lab(self, x): return "L%d_%d" % (self.n, self.g.num[x])
    def mod(self, x, n): return "((%s) %% %d + %d) %% %d" % (self.e(x), n, n, n)
    def s(self, x):
        k = x["k"]; a = x["a"]; S = self.s; E = self.e
        if k == "es": return E(a[0]) + ";"
        if k == "null": return ";"
        if k == "blk": return "{ " + "\n".join(S(y) for y in a) + " }"
        if k == "decl":
            at = ""
            if x["cl"]:
                h = "h%d_%d" % (self.n, x["cl"]); at = " __attribute__((cleanup(%s)))" % h
                self.handlers.append("static void %s(unsigned char *p){ ev2(%d, *p); *p += 100; g%d_1 += 1; }" % (h, x["cl"], self.n))
            return "%s %s%s = %s;" % (CT[x["t"]], self.v(x["id"]), at, E(a[0]))
        if k == "vla":
            v = self.v(x["id"])
            w = [t for z, t in VEL if z == x["w"]][x["id"] % 3]
            return "%s; vinit(%d, (void *)%s, sizeof %s, %d);" % (w.replace("@", "%s[(%s) + 1]" % (v, self.mod(a[0], 32))), x["key"], v, v, x["pat"])
        if k == "vset":
            v = self.v(x["id"]); return "vfill((void *)%s, sizeof %s, %s);" % (v, v, E(a[0]))
        if k == "if":
            t = S(a[1])
            if len(a) == 3: return "if(%s) { %s } else %s" % (E(a[0]), t, S(a[2])) if a[1]["k"] != "blk" else "if(%s) %s else %s" % (E(a[0]), t, S(a[2]))
            return "if(%s) %s" % (E(a[0]), t)
        if k == "while": return "while(%s) %s" % (E(a[0]), S(a[1]))
        if k == "do": return "do %s while(%s);" % (S(a[1]), E(a[0]))
        if k == "for":
            i = a[0]
            return "for(%s %s; %s) %s" % ((S(i) if isinstance(i, Node) and i["k"] == "decl" else (E(i) + ";" if isinstance(i, Node) else ";")),
                                           E(a[1]) if isinstance(a[1], Node) else "", E(a[2]) if isinstance(a[2], Node) else "", S(a[3]))
        if k == "sw":
            nm = "s%d_%d" % (self.n, self.g.num[x])
            self.top.append("%s %s[] = {%s};" % (CN[x["t"]], nm, ", ".join(typed_lit(v, x["t"]) for v in x["tab"])))
            return "switch(%s[%s]) %s" % (nm, self.mod(a[0], len(x["tab"])), S(a[1]))
        if k == "case":
            l = typed_lit(x["lo"], "long") if x["lo"] < 1 << 63 else typed_lit(x["lo"], "ulong")
            h = typed_lit(x["hi"], "long") if x["hi"] < 1 << 63 else typed_lit(x["hi"], "ulong")
            if -1 << 31 <= x["lo"] < 1 << 31 and x["lo"] != -1 << 31: l = str(x["lo"])
            if -1 << 31 <= x["hi"] < 1 << 31 and x["hi"] != -1 << 31: h = str(x["hi"])
            return "case %s: %s" % (l if x["lo"] == x["hi"] else l + " ... " + h, S(a[0]))
        if k == "dflt": return "default: " + S(a[0])
        if k == "label": return self.lab(x) + ": " + S(a[0])
        if k == "goto": return "goto %s;" % self.lab(x["to"])
        if k == "cgoto": return "{ static void *ct[] = {%s}; goto *ct[%s]; }" % (", ".join("&&" + self.lab(y) for y in x["ts"]), self.mod(a[0], len(x["ts"])))
        if k == "brk": return "break;"
        if k == "cont": return "continue;"
        if k == "ret": return "return %s;" % E(a[0])
        raise KeyError(k)
    def text(self):
        g = self.g; fs = []
        for f in g.funcs:
            b = self.s(f["a"][0])
            pre = "".join(f["truth"])
            fs.append("%sint %s(%s){ %s %s }" % (self.q(f, f is g.main), self.fnname[f], ", ".join("int " + self.v(p) for p in f["ps"]) or "void", pre, b))
        gl = "static unsigned char g%d_1, g%d_2; static signed char g%d_3;" % ((self.n,) * 3)
        return "\n".join([gl] + self.top + self.handlers + fs), "sep(%d); ev2(9999, %s()); ev2(9001, g%d_1); ev2(9002, g%d_2); ev2(9003, g%d_3);" % (g.n, self.fnname[g.main], g.n, g.n, g.n)

PRE = """extern int vl2; int ev2(int, int); void sep(int); void flush_out(void); void vinit(int, unsigned char *, unsigned long, int); int vchk(unsigned char *, unsigned long); void vfill(unsigned char *, unsigned long, int);
double zz; char zc;
"""
def program(gs, quals=None):
    p = [Render(g, *( [quals] if quals else [])).text() for g in gs]
    return PRE + "\n".join(a for a, _ in p) + "\nint main(void){\n" + "\n".join(b for _, b in p) + "\nflush_out(); return 0; }\n"

def parse(out):
    """{case: [(key, value, addr or None)]}"""
    res = {}; cur = None
    for l in out.split("\n"):
        if l.startswith("@"): cur = res.setdefault(int(l[1:]), [])
        elif ":" in l and cur is not None:
            p = l.split(":")
            try: cur.append((int(p[0]), int(p[1]), p[2] if len(p) > 2 else None))
            except ValueError: cur.append(("?", l, None))
    return res

def judge(g, res, got, addrs=True):
    """None or a description of the difference between the machine's trace and the program's"""
    want = [(e[0], e[1]) for e in res["tr"]] + [(9999, res["ret"])] + [(9001 + k, v) for k, v in enumerate(res["glob"])]
    have = [(a, b) for a, b, _ in got]
    if want != have:
        k = next((k for k in range(min(len(want), len(have))) if want[k] != have[k]), min(len(want), len(have)))
        return "trace differs at event %d: expected ...%s, got ...%s" % (k, want[max(0, k - 2):k + 4], have[max(0, k - 2):k + 4])
    addr = {}
    for e, o in zip(res["tr"], got):
        if addrs and len(e) > 2:
            s = (e[0], e[1], str(e[2]))
            if addr.setdefault(s, o[2]) != o[2]: return "storage of an array is not released: array %d of length %d was at %s and is at %s with the same arrays in scope" % (e[0], e[1], addr[s], o[2])
    return None

def execute(gs, results=None):
    """runs the machine; returns the programs with a defined meaning and their results"""
    results = results or vlib.tlc_cases("StmtMachine", [flatten(g) for g in gs], inv=["Stacked", "VlaLive", "AllClosed"])
    return [(g, results[k][0]) for k, g in enumerate(gs) if results[k][0]["ok"]]

def replay(ok, opts_of, rep, B=20, quals=None, addrs=True):
    def check(batch, opts):
        src = program([g for g, _ in batch], quals)
        rr = vlib.build_run(src, opts, run_timeout=20)
        if rr["stage"] != "run" or rr["rc"] != 0:
            if len(batch) > 1:
                h = len(batch) // 2
                return check(batch[:h], opts) + check(batch[h:], opts)
        if rr["stage"] != "run": return [(batch[0][0].n, "%s failed (%s): %s" % (rr["stage"], rr["rc"], rr["out"][-500:]), src)]
        out = parse(rr["out"]); bad = []
        for g, r in batch:
            d = judge(g, r, out.get(g.n, []), addrs)
            if d is None and rr["rc"] != 0 and len(batch) == 1: d = "exit status %s" % rr["rc"]
            if d: bad.append((g.n, d, program([g], quals)))
        return bad
    jobs = [(ok[k:k + B], opts_of(k // B)) for k in range(0, len(ok), B)]
    for l, j in zip(vlib.pmap(lambda j: check(*j), jobs), jobs):
        for n, d, src in l:
            rep.violation("program %d of seed %d %s" % (n, vlib.SEED, " ".join(j[1])), "options %s: %s" % (" ".join(j[1]), d), {"program.c": src})
    rep.cov["traces_validated_against_impl"] = rep.cov.get("traces_validated_against_impl", 0) + len(ok)
    for g, r in ok[:2]: rep.sample({"trace": r["tr"][:12], "ret": r["ret"]})

def run_all(gs, opts_of, rep, B=20, quals=None):
    """executes the machine on all programs and replays its traces; returns the number replayed"""
    ok = execute(gs)
    rep.cov["cases_generated"] = rep.cov.get("cases_generated", 0) + len(gs)
    replay(ok, opts_of, rep, B, quals)
    return ok
