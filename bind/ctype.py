"""Random object types (input generation) and their rendering. Layout is decided by spec/Layout.tla."""
from cexpr import CN, TYPES, SIZE, SIGNED, size, conv, word, unword, typed_lit, interesting
NAMES = dict(CN, float="float", double="double", ptr="void *", enum="enum en")
PSIZE = lambda t: 4 if t in ("float", "enum") else 8 if t in ("double", "ptr") else size(t)

class TGen:
    def __init__(self, r, prefix="s", bf=True, packed=True, aligned=True, floats=True, anon=True, unions=True, prims=None, flex=True, tag_inline=True, maxm=7):
        self.r, self.prefix, self.bf, self.packed, self.aligned = r, prefix, bf, packed, aligned
        self.anon, self.unions, self.flex, self.maxm = anon, unions, flex, maxm
        self.prims = prims or (TYPES + (["float", "double", "ptr", "enum"] if floats else []))
        self.n = 0; self.mc = 0
    def prim(self): return {"k": "p", "t": self.r.choice(self.prims)}
    def ty(self, d):
        r = self.r; c = r.random()
        if d <= 0 or c < .6: return self.prim()
        if c < .78: return {"k": "arr", "n": r.choice([1, 2, 2, 3, 4, 5]), "of": self.ty(d - 1)}
        return self.su(d - 1)
    def su(self, d, top=False):
        r = self.r
        u = 1 if self.unions and r.random() < .2 else 0
        bfs = self.bf and r.random() < .55
        pk = 1 if self.packed and not bfs and r.random() < .15 else 0
        was = self.aligned
        if pk: self.aligned = False     # see the known finding "packed-alignas"
        al = r.choice([2, 4, 8, 16, 32]) if self.aligned and r.random() < .1 else 0
        self.n += 1; tag = "%s%d" % (self.prefix, self.n)
        ms = []
        for _ in range(r.randint(1, self.maxm)):
            self.mc += 1
            m = {"n": "m%d" % self.mc, "w": -1, "al": 0, "pk": 0}
            if bfs and r.random() < .7:
                t = r.choice([x for x in TYPES if x not in ("llong", "ullong")])
                b = 1 if t == "bool" else 8 * size(t)
                w = min(b, r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 15, 16, 17, 24, 31, 32, 33, 47, 57, 63, 64]))
                if r.random() < .06: w = 0
                m["ty"] = {"k": "p", "t": t}; m["w"] = w
                if w == 0 or r.random() < .08: m["n"] = ""
            else:
                m["ty"] = self.ty(d)
                if m["ty"]["k"] == "su" and self.anon and r.random() < .4: m["n"] = ""
                if self.packed and not bfs and not has_al(m["ty"]) and r.random() < .06: m["pk"] = 1
                if self.aligned and not m["pk"] and r.random() < .06: m["al"] = r.choice([1, 2, 4, 8, 16, 32]); 
                if m["al"] and m["al"] < align_lb(m["ty"]): m["al"] = 0
                if m["n"] == "" and (m["al"] or m["pk"]): m["al"] = m["pk"] = 0
            ms.append(m)
        if not any(m["n"] for m in ms):
            self.mc += 1; ms.append({"n": "m%d" % self.mc, "w": -1, "al": 0, "pk": 0, "ty": self.prim()})
        if top and not u and self.flex and r.random() < .06 and not bfs:
            self.mc += 1; ms.append({"n": "m%d" % self.mc, "w": -1, "al": 0, "pk": 0, "ty": {"k": "arr", "n": 0, "of": self.prim()}})
        self.aligned = was
        t = {"k": "su", "u": u, "pk": pk, "al": 0, "ms": ms, "tag": tag}
        if al and al < align_lb(t): al = 0
        t["al"] = al
        return t

def align_lb(ty):
    """an upper bound of the natural alignment, to keep _Alignas requests legal (never used as an oracle)"""
    if ty["k"] == "p": return PSIZE(ty["t"])
    if ty["k"] == "arr": return align_lb(ty["of"])
    return max([ty["al"] or 1] + [max(m["al"], align_lb(m["ty"])) for m in ty["ms"]])

def base_of(ty):
    while ty["k"] == "arr": ty = ty["of"]
    return ty
def has_al(ty):
    if ty["k"] == "p": return False
    if ty["k"] == "arr": return has_al(ty["of"])
    return bool(ty["al"]) or any(m["al"] or has_al(m["ty"]) for m in ty["ms"])
def decl(ty, name):
    """(specifier, declarator)"""
    if ty["k"] == "p": return NAMES[ty["t"]], name
    if ty["k"] == "arr":
        return decl(ty["of"], "%s[%s]" % (name, ty["n"] or ""))
    return "%s %s" % ("union" if ty["u"] else "struct", ty["tag"]), name
def declare(ty, name): return "%s %s" % decl(ty, name)

def sudef(ty, inline=None):
    """definition text of a struct; nested ones defined inside (anonymous members untagged)"""
    s = "%s %s%s { " % ("union" if ty["u"] else "struct", ("__attribute__((packed)) " if ty["pk"] else "") + ("__attribute__((aligned(%d))) " % ty["al"] if ty["al"] else ""), ty.get("tag", ""))
    return s + body(ty) + " }"
def body(ty):
    out = []
    for m in ty["ms"]:
        al = "_Alignas(%d) " % m["al"] if m["al"] else ""
        pk = " __attribute__((packed))" if m["pk"] else ""
        if m["w"] >= 0: out.append("%s %s : %d;" % (NAMES[m["ty"]["t"]], m["n"], m["w"])); continue
        base, suf = m["ty"], ""
        while base["k"] == "arr": suf += "[%s]" % (base["n"] or ""); base = base["of"]
        if base["k"] == "su":
            d = sudef(base)
            if m["n"] == "": d = d.replace(" " + base["tag"] + " {", " {", 1)
            out.append("%s%s %s%s%s;" % (al, d, m["n"], suf, pk))
        else: out.append("%s%s %s%s%s;" % (al, NAMES[base["t"]], m["n"], suf, pk))
    return " ".join(out)

def path_text(ty, path):
    """designator text of a subobject: '.a[1].b'"""
    s = ""
    for p in path:
        if ty["k"] == "arr": s += "[%d]" % (p - 1); ty = ty["of"]
        else:
            m = ty["ms"][p - 1]
            if m["n"]: s += "." + m["n"]
            ty = m["ty"]
    return s
def named(ty, path):
    """does the path end at something a designator can name"""
    for k, p in enumerate(path):
        if ty["k"] == "arr": ty = ty["of"]; ok = True
        else: m = ty["ms"][p - 1]; ok = bool(m["n"]); ty = m["ty"]
    return bool(path) and ok
def at_path(ty, path):
    for p in path: ty = ty["of"] if ty["k"] == "arr" else ty["ms"][p - 1]["ty"]
    return ty
def has_bf(ty):
    if ty["k"] == "p": return False
    if ty["k"] == "arr": return has_bf(ty["of"])
    return any(m["w"] >= 0 or has_bf(m["ty"]) for m in ty["ms"])
def strip(ty):
    """what the specification sees"""
    if ty["k"] == "p": return ty
    if ty["k"] == "arr": return {"k": "arr", "n": ty["n"], "of": strip(ty["of"])}
    return {"k": "su", "u": ty["u"], "pk": ty["pk"], "al": ty["al"], "ms": [dict(m, ty=strip(m["ty"])) for m in ty["ms"]]}
