"""Random integer expression trees (input generation only) and their rendering to C.
All judgement about their values is made by spec/CEval.tla."""
CN = {"bool": "_Bool", "char": "char", "schar": "signed char", "uchar": "unsigned char", "short": "short",
      "ushort": "unsigned short", "int": "int", "uint": "unsigned int", "long": "long", "ulong": "unsigned long",
      "llong": "long long", "ullong": "unsigned long long"}
SIZE = {"bool": 1, "char": 1, "schar": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4}
SIGNED = {"char", "schar", "short", "int", "long", "llong"}
TYPES = list(CN)
def size(t): return SIZE.get(t, 8)

def conv(v, t):
    if t == "bool": return int(v != 0)
    b = 8 * size(t); v &= (1 << b) - 1
    if t in SIGNED and v >> (b - 1): v -= 1 << b
    return v

def word(v):
    v &= (1 << 64) - 1
    return [(v >> (8 * k)) & 255 for k in range(8)]
def unword(b): return sum(x << (8 * k) for k, x in enumerate(b))

def interesting(r, t):
    b = 8 * size(t)
    c = r.random()
    if c < .30: v = r.choice([0, 1, 2, -1, 3, 5, 7, 8, 10, -2, -3, 31, 32, 63, 64])
    elif c < .60:
        k = r.choice([7, 8, 15, 16, 31, 32, 33, 62, 63, b - 1, b - 2, b])
        v = r.choice([1, -1]) * (1 << k) + r.choice([0, -1, 1])
    elif c < .75: v = r.randrange(-200, 200)
    elif c < .85: v = r.getrandbits(32) - (1 << 31)
    else: v = r.getrandbits(64) - (1 << 63)
    return conv(v, t)

ARITH = ["+", "-", "*", "/", "%", "&", "|", "^"]
REL = ["==", "!=", "<", ">", "<=", ">="]
SH = ["<<", ">>"]
PLACES = ["g", "l", "p", "a", "m", "c", "s", "d", "e", "v", "x"]

class Gen:
    """One case: collects variables used (each exactly once)."""
    def __init__(self, r, const=False, effects=True, types=TYPES, places=PLACES, calls=True, bf=False):
        self.r, self.const, self.effects, self.types, self.places = r, const, effects, types, places
        self.vars = []; self.bf = bf
    def var(self, t=None, place=None, val=None):
        r = self.r
        t = t or r.choice(self.types)
        v = {"id": len(self.vars) + 1, "t": t, "v": interesting(r, t) if val is None else val, "p": place or r.choice(self.places)}
        if v["p"] in "xe" and 0: pass
        self.vars.append(v)
        return v
    def lit(self, t=None, val=None):
        r = self.r
        if t is None and r.random() < .75:
            # a literal whose type follows from its spelling
            base = r.choice([10, 10, 10, 16, 16, 8, 2]); suf = r.choice(["", "", "", "u", "l", "ul", "ll", "ull"])
            v = abs(interesting(r, r.choice(["int", "uint", "long", "ulong"]))) if val is None else val
            v &= (1 << 64) - 1
            if base == 10 and "u" not in suf and v >= 1 << 63: v >>= 1
            return {"k": "num", "base": base, "suf": suf, "v": word(v)}
        t = t or r.choice(self.types)
        return {"k": "lit", "t": t, "v": word(interesting(r, t) if val is None else conv(val, t))}
    def leaf(self, small=False):
        r = self.r
        val = None
        if small: val = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 13, 15, 16, 24, 31, 31, 32, 33, 48, 63])
        if self.const or r.random() < .25:
            return self.lit(val=val)
        if val is not None:
            t = r.choice(self.types); val = conv(val, t)
            v = self.var(t, val=val)
        else: v = self.var()
        return {"k": "var", "id": v["id"], "t": v["t"], "v": word(v["v"])}
    def lval(self):
        v = self.var(place=self.r.choice([p for p in self.places if p not in "cx"]))
        return v
    def expr(self, d):
        r = self.r
        if d <= 0: return self.leaf()
        c = r.random()
        if c < .08: return self.leaf()
        if c < .42:
            return {"k": "bin", "op": r.choice(ARITH), "l": self.expr(d - 1), "r": self.expr(d - 1 if r.random() < .6 else 0)}
        if c < .54:
            return {"k": "bin", "op": r.choice(SH), "l": self.expr(d - 1), "r": self.leaf(small=True)}
        if c < .64: return {"k": "bin", "op": r.choice(REL), "l": self.expr(d - 1), "r": self.expr(d - 1)}
        if c < .72: return {"k": "un", "op": r.choice("-~!+~-"), "e": self.expr(d - 1)}
        if c < .79: return {"k": "cast", "t": r.choice(self.types), "e": self.expr(d - 1)}
        if c < .84: return {"k": r.choice(["and", "or"]), "l": self.expr(d - 1), "r": self.expr(d - 1)}
        if c < .90:
            if r.random() < .2: return {"k": "elvis", "l": self.expr(d - 1), "r": self.expr(d - 1)}
            return {"k": "cond", "c": self.expr(d - 1), "l": self.expr(d - 1), "r": self.expr(d - 1)}
        if c < .92:
            return {"k": "sizeof", "e": self.expr(0 if r.random() < .3 else d - 1)} if r.random() < .6 else {"k": "sizeoft", "t": r.choice(self.types)}
        if self.const or not self.effects: return {"k": "bin", "op": r.choice(ARITH), "l": self.expr(d - 1), "r": self.expr(d - 1)}
        if c < .94: return {"k": "comma", "l": self.expr(d - 1), "r": self.expr(d - 1)}
        v = self.lval()
        if c < .96: return {"k": "asg", "id": v["id"], "t": v["t"], "e": self.expr(d - 1)}
        if c < .985:
            op = r.choice(ARITH + SH)
            e = self.leaf(small=True) if op in SH else self.expr(d - 1)
            return {"k": "cas", "op": op, "id": v["id"], "t": v["t"], "v": word(v["v"]), "e": e}
        return {"k": r.choice(["pre", "post"]), "op": r.choice("+-"), "id": v["id"], "t": v["t"], "v": word(v["v"])}

def lit_text(v, base, suf):
    s = {10: "%d", 16: "0x%x", 8: "0%o", 2: "0b{:b}"}[base]
    t = s.format(v) if base == 2 else s % v
    return t + suf

def typed_lit(v, t):
    """any value of type t, spelled so that no rule beyond casts/unsigned hex is needed"""
    v = conv(v, t)
    u = v & ((1 << 64) - 1)
    if v >= 0 and u < (1 << 31): return "((%s)%d)" % (CN[t], u)
    return "((%s)0x%xul)" % (CN[t], u)

def render(e, names, r=None):
    """fully parenthesised C text; names: id -> lvalue text"""
    k = e["k"]
    R = lambda x: render(x, names, r)
    if k == "var": return names[e["id"]]
    if k == "bf": return names[e["id"]]
    if k == "lit": return typed_lit(unword(e["v"]), e["t"])
    if k == "num": return lit_text(unword(e["v"]), e["base"], e["suf"])
    if k == "un": return "(%s %s)" % (e["op"], R(e["e"]))
    if k == "bin": return "(%s %s %s)" % (R(e["l"]), e["op"], R(e["r"]))
    if k == "and": return "(%s && %s)" % (R(e["l"]), R(e["r"]))
    if k == "or": return "(%s || %s)" % (R(e["l"]), R(e["r"]))
    if k == "cond": return "(%s ? %s : %s)" % (R(e["c"]), R(e["l"]), R(e["r"]))
    if k == "elvis": return "(%s ?: %s)" % (R(e["l"]), R(e["r"]))
    if k == "comma": return "(%s , %s)" % (R(e["l"]), R(e["r"]))
    if k == "cast": return "((%s)%s)" % (CN[e["t"]], R(e["e"]))
    if k == "asg": return "(%s = %s)" % (names[e["id"]], R(e["e"]))
    if k == "cas": return "(%s %s= %s)" % (names[e["id"]], e["op"], R(e["e"]))
    if k == "pre": return "(%s%s)" % (e["op"] * 2, names[e["id"]])
    if k == "post": return "(%s%s)" % (names[e["id"]], e["op"] * 2)
    if k == "sizeof": return "sizeof(%s)" % R(e["e"])
    if k == "sizeoft": return "sizeof(%s)" % CN[e["t"]]
    if k == "truth": return R(e["e"])
    raise KeyError(k)

def nodes(e):
    yield e
    for f in ("e", "l", "r", "c"):
        if isinstance(e.get(f), dict): yield from nodes(e[f])

def assigned(e):
    return {n["id"] for n in nodes(e) if n["k"] in ("asg", "cas", "pre", "post")}
