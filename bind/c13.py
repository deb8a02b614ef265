"""C13: which declaration each identifier denotes, decided by spec/Scope.tla.
A random program of declarations, scopes and uses, over few names, is run without its bad steps, and its
observations are compared with the specification's; each bad step is given to the compiler after those before it,
and has to be rejected."""
from vlib import *

NAMES = ["a", "b", "c"]

class Gen:
    def __init__(self, r): self.r = r; self.val = 0
    def name(self): return self.r.choice(NAMES)
    def num(self): return ["num", self.r.randint(0, 40)]
    def bound(self, d=0): return self.terms(True, d)
    def terms(self, const=False, d=0):
        r = self.r; n = r.choice([1, 1, 1, 1, 2]); out = [self.term(const, d) for _ in range(n)]
        return out
    def term(self, const, d):
        r = self.r; v = r.random(); x = self.name()
        if v < (.5 if const else .1): return self.num()
        if v < .6: return ["sz", x]
        if v < .66: return ["szt", r.choice(["struct", "struct", "union", "enum"]), x]
        if v < .72: return ["ec", x]
        if v < .78: return ["neg", x]
        if v < .81: return ["szd", x]
        if v < .84 and d < 2: return ["szdef", r.choice(["struct", "struct", "union"]), x, self.bound(d + 1)]
        if v < .87 and d < 2: return ["szen", x, self.bound(d + 1)]
        if v < .89 and d < 2: return ["szmem", x, self.bound(d + 1)]
        if v < .92 and d < 2: return ["gen", self.params(r.choice([1, 2, 2, 3]), d + 1)]
        if const: return self.num()
        if v < .94 and d < 2: return ["se", x, self.bound(d + 1), self.terms(False, d + 1), self.terms(False, d + 1)]
        if v < .96: return ["call", x]
        return ["elem", x]
    def params(self, n, d=0):
        r = self.r; xs = r.sample(NAMES, n); out = []
        for x in xs:
            st = r.choice(["pa", "pa", "parr", "sc"]); self.val = self.val % 99 + 1
            out.append([st, x if r.random() < .96 else self.name(), self.bound(d) if st != "sc" else [], self.val])
        return out
    def decl(self, file):
        r = self.r; x = self.name(); v = r.random(); i = self.terms(file)
        if v < .22: return {"k": "var", "x": x, "b": self.bound(), "i": i}
        if v < .28: return {"k": "scal", "x": x, "i": i}
        if v < .40: return {"k": "td", "x": x, "b": self.bound()}
        if v < .47: return {"k": "tdi", "x": x, "n": r.choice([1, 2])}
        if v < .60: return {"k": "enum", "t": r.choice(["", "", self.name()]), "es": [[y, self.bound()] for y in r.sample(NAMES, r.choice([1, 1, 2]))]}
        if v < .70: return {"k": "tagdef", "t": r.choice(["struct", "struct", "union"]), "x": x, "b": self.bound(), "nest": r.choice([[], [], [r.choice(["struct", "union"]), self.name(), self.bound()]])}
        if v < .75: return {"k": r.choice(["tagfwd", "tagref"]), "t": r.choice(["struct", "struct", "union"]), "x": x}
        if v < .84: return {"k": "vartd", "x": x, "y": r.choice([x, self.name()]), "i": i}
        if v < .87: return {"k": "vartyp", "x": x, "y": r.choice([x, self.name()])}
        if v < .93: return {"k": "paren", "x": x, "y": r.choice([x, self.name()])}
        if v < .98: return {"k": "mul", "x": x, "y": r.choice([x, self.name()])}
        return {"k": "fndef", "x": x, "n": r.randint(1, 90)} if file else {"k": "fndecl", "x": x}
    def program(self):
        r = self.r; out = []
        out.append({"k": "td", "x": NAMES[0], "b": [self.num()]}); out.append({"k": "var", "x": NAMES[1], "b": [self.num()], "i": [self.num()]}); out.append({"k": "enum", "t": self.name(), "es": [[NAMES[2], [self.num()]]]})
        out.append({"k": "tagdef", "t": "struct", "x": self.name(), "b": [self.num()], "nest": []})
        r.shuffle(NAMES); out = r.sample(out, r.choice([1, 2, 3, 4, 4, 4, 4]))
        for f in range(r.choice([1, 2, 2, 3])):
            for _ in range(r.choice([1, 2, 3, 4])): out.append(self.decl(True))
            if r.random() < .3: out.append({"k": "fndef", "x": self.name(), "n": r.randint(1, 90)})
            out.append({"k": "func", "p": self.params(r.choice([0, 0, 1, 1, 2, 3]))}); self.block(out, 0, r.choice([4, 8, 12, 16])); out.append({"k": "endfunc"})
        return out
    def block(self, out, d, n):
        r = self.r
        for _ in range(n):
            v = r.random()
            if v < .42: out.append(self.decl(False))
            elif v < .72: out.append({"k": "use", "u": self.terms()})
            elif v < .75: out.append({"k": "label", "x": self.name()})
            elif v < .77: out.append({"k": "goto", "x": self.name()})
            elif v < .80: out.append({"k": "bare", "u": self.terms(), "w": self.terms(), "style": r.choice(["if", "else", "while", "for", "do"])})
            elif d < 3:
                v = r.random(); m = r.choice([1, 2, 3, 5])
                if v < .4: out.append({"k": "open"}); self.block(out, d + 1, m); out.append({"k": "close"})
                else:
                    if v < .6: out.append({"k": "for", "x": self.name(), "b": self.bound(), "i": self.terms(), "u": self.terms()})
                    elif v < .9: out.append({"k": "ctl", "u": self.terms(), "style": r.choice(["if", "while", "switch", "for", "else"])})
                    else: out.append({"k": "ctldecl", "x": self.name(), "i": self.terms(), "style": r.choice(["if", "while", "switch"])})
                    self.block(out, d + 1, m); out.append({"k": "close2"})

class Text:
    """the C text of a program, given the specification's results"""
    def __init__(self): self.t = []; self.n = 0; self.fns = []; self.stack = []; self.gotos = set(); self.labels = set(); self.k = 0
    def sum(self, ts): return " + ".join(self.term(t) for t in ts) or "0"
    def B(self, ts): return "(%s) %% 509 + 1" % self.sum(ts)
    def V(self, ts): return "(%s) %% 100 + 1" % self.sum(ts)
    def param(self, p): return {"pa": lambda: "char (*%s)[%s]" % (p[1], self.B(p[2])), "parr": lambda: "char %s[%s]" % (p[1], self.B(p[2])), "sc": lambda: "int %s" % p[1]}[p[0]]()
    def params(self, ps):
        a, b = [], []
        for p in ps:
            b.append(self.param(p)); n = self.aux.pop(0) if self.aux else 0
            a.append("char (*)[%d]" % n if p[0] == "pa" else "char *" if p[0] == "parr" else "int")
        return ", ".join(a) or "void", ", ".join(b) or "void"
    def term(self, t):
        k = t[0]
        if k == "num": return str(t[1])
        if k == "sz": return "sizeof(%s)" % t[1]
        if k == "szd": return "sizeof(*%s)" % t[1]
        if k == "elem": return "(%s[0] %% 1000)" % t[1]
        if k == "ec": return "(%s %% 1000)" % t[1]
        if k == "neg": return "((%s)-1)" % t[1]
        if k == "szt": return "sizeof(%s %s)" % (t[1], t[2])
        if k == "szdef": return "sizeof(%s %s { char m[%s]; })" % (t[1], t[2], self.B(t[3]))
        if k == "szen": return "sizeof(enum { %s = %s })" % (t[1], self.B(t[2]))
        if k == "szmem": return "sizeof(((struct { char %s[%s]; } *)0)->%s)" % (t[1], self.B(t[2]), t[1])
        if k == "call": return "%s()" % t[1]
        if k == "gen": a, b = self.params(t[1]); return "_Generic((void (*)(%s))0, void (*)(%s): 1, default: 0)" % (a, b)
        if k == "se": return "({ char %s[%s] = { %s }; %s; })" % (t[1], self.B(t[2]), self.V(t[3]), self.sum(t[4]))
    def rec(self, ts): return "rec(%s)" % self.sum(ts)
    def step(self, s, st, aux, emit):
        """the text of a step; emit: it is part of the program"""
        k = s["k"]; self.aux = list(aux); x = s.get("x"); t = None; close = None
        if k == "var": t = "char %s[%s] = { %s };" % (x, self.B(s["b"]), self.V(s["i"]))
        elif k == "scal": t = "unsigned short %s = %s;" % (x, self.V(s["i"]))
        elif k == "td": t = "typedef char %s[%s];" % (x, self.B(s["b"]))
        elif k == "tdi": t = "typedef unsigned %s %s;" % ({1: "char", 2: "short"}[s["n"]], x)
        elif k == "enum": t = "enum %s { %s };" % (s["t"], ", ".join("%s = %s" % (y, self.B(b)) for y, b in s["es"]))
        elif k == "tagdef": t = "%s %s { char m[%s]; %s};" % (s["t"], x, self.B(s["b"]), "%s %s { char m[%s]; } n; " % (s["nest"][0], s["nest"][1], self.B(s["nest"][2])) if s["nest"] else "")
        elif k == "tagfwd": t = "%s %s;" % (s["t"], x)
        elif k == "tagref": self.k += 1; t = "%s %s *ref%d;" % (s["t"], x, self.k)
        elif k == "vartd": t = "%s %s = { %s };" % (s["y"], x, self.V(s["i"]))
        elif k == "vartyp": t = "__typeof(%s) %s;" % (s["y"], x)
        elif k == "paren": t = "%s (%s);" % (x, s["y"])
        elif k == "mul": t = "%s * %s;" % (x, s["y"])
        elif k == "use": t = self.rec(s["u"]) + ";"
        elif k == "label":
            t = "%s: ;" % x
            if emit: self.labels.add(x)
        elif k == "goto":
            t = "if(zero) goto %s;" % x
            if emit: self.gotos.add(x)
        elif k == "fndef": t = "int %s(void) { return %d; }" % (x, s["n"])
        elif k == "fndecl": t = "int %s(void);" % x
        elif k == "bare":
            u = self.rec(s["u"]); w = self.rec(s["w"]) + ";"
            t = {"if": "if(%s) %s", "else": "if(!%s) ; else %s", "while": "while(!over && %s) over = %s", "for": "for(; !over && %s; ) over = %s", "do": "if(%s) do %s while(zero);"}[s["style"]] % (u, w)
        elif k == "open": t, close = "{", "}"
        elif k == "for":
            t = "for(char %s[%s] = { %s }; " % (x, self.B(s["b"]), self.V(s["i"])); t += self.rec(s["u"]) + "; ) {"; close = "break; }"
        elif k == "ctl":
            u = self.rec(s["u"]); y = s["style"]
            t = {"if": "if(%s) {", "else": "if(!%s) ; else {", "while": "while(%s) {", "for": "for(; %s; ) {", "switch": "switch(%s) { case 1: ;"}[y] % u
            close = "break; }" if y in ("while", "for") else "}"
        elif k == "ctldecl":
            y = s["style"]; t = "%s(int %s = %s) {" % (y, x, self.V(s["i"])) + (" default: ;" if y == "switch" else ""); close = "break; }" if y == "while" else "}"
        elif k == "func":
            self.labels = set(); self.gotos = set(); a, b = self.params(s["p"]); self.k += 1; n = "fn_%d" % self.k; t = "void %s(%s) {" % (n, b); close = "}"
            if emit:
                if st == "ok": self.fns.append((n, s["p"]))
                else: t = "void %s(void) {" % n; self.fns.append((n, []))
        elif k in ("close", "close2", "endfunc"): t = self.stack.pop()
        if st != "ok" and emit and k in ("for", "ctl", "ctldecl"): t, close = "{ {", "} }"
        if close and emit: self.stack.append(close)
        return t, close
    def end(self):
        pre = []; calls = []
        for n, ps in self.fns:
            a = []
            for p in ps:
                if p[0] == "sc": a.append(str(p[3]))
                else: pre.append("char buf%d[8] = { %d };" % (len(pre), p[3])); a.append("(void *)buf%d" % (len(pre) - 1))
            calls.append("%s(%s);" % (n, ", ".join(a)))
        return "\n".join(pre) + "\nint main(void){ %s return 0; }\n" % " ".join(calls)

PRE = "int printf(const char *, ...);\nint zero, over;\nint rec(long v){ printf(\"%ld\\n\", v); return 1; }\n"
def render(steps, res, upto=None):
    """the program without its bad steps, or the steps before upto, it, and what closes the blocks"""
    T = Text(); lines = []; want = []
    for k, (s, x) in enumerate(zip(steps, res)):
        if k == upto:
            t, close = T.step(s, x["st"], x["aux"], False); lines.append(t + (" /**/ " + close if close else "") if s["k"] != "func" else t + " }")
            while T.stack:
                if len(T.stack) == 1: lines += ["%s: ;" % l for l in sorted(T.gotos - T.labels)]
                lines.append(T.stack.pop())
            break
        opens = s["k"] in ("func", "for", "ctl", "ctldecl")
        if x["st"] != "ok" and not opens: continue
        if s["k"] == "bare" and x["st"] == "ok" and s["style"] in ("while", "for"): lines.append("over = 0;")
        t, _ = T.step(s, x["st"], x["aux"], True); lines.append(t); want += x["out"]
    return PRE + "\n".join(lines) + "\n" + T.end(), want

def go(rep):
    build_ucc(); r = rng("C13"); n = 6000 if THOROUGH else 700
    cases = [Gen(r).program() for _ in range(n)]
    got = tlc_cases("Scope", cases, inv=["Balanced"], props=["Restores", "Innermost", "Terminates"] if n <= 700 else [])
    assert len(got) == n, (len(got), n)
    res = [got[k][0] for k in range(n)]
    u = ucc(); d = sub("c13"); uses = 0; bad = 0; jobs = []; kinds = {}
    for k in range(n):
        jobs.append((k, None)); uses += sum(len(x["out"]) for x in res[k])
        for s, x in zip(cases[k], res[k]): kinds[s["k"], x["st"]] = kinds.get((s["k"], x["st"]), 0) + 1
        bs = [j for j, x in enumerate(res[k]) if x["st"] == "bad"]; bs = r.sample(bs, min(len(bs), 10 if THOROUGH else 5)); bad += len(bs); jobs += [(k, j) for j in bs]
    def one(a):
        k, j = a; text, want = render(cases[k], res[k], j)
        if j is None:
            b = build_run(text, ["-w"])
            if b["stage"] != "run": return [(text, "an accepted program fails at %s: %s" % (b["stage"], b["out"][-300:]))]
            have = b["out"].split()
            if b["rc"] or have != [str(v) for v in want]:
                i = next((i for i, (p, q) in enumerate(zip(have, want)) if p != str(q)), min(len(have), len(want)))
                return [(text, "observation %d is %s, where the scope rules give %s (exit status %d)" % (i + 1, have[i:i + 1], want[i:i + 1], b["rc"]))]
            return []
        p = "%s/%d_%d.c" % (d, k, j); o = p[:-2] + ".s"; open(p, "w").write(text)
        rc, _, e = run([u, "-w", "-S", "-o", o, p]); e = e.decode(errors="replace"); there = os.path.exists(o); there and os.unlink(o); os.unlink(p); line = Text().step(cases[k][j], "bad", res[k][j]["aux"], False)[0]
        if rc < 0 or rc >= 126 or re.search(r"signal|\bICE\b|ssertion", e): return [(text, "the compiler crashes (%d) on %s: %s" % (rc, line, e[-300:]))]
        if rc == 0 or there: return [(text, "%s is accepted" % line)]
        return []
    out = [y for g in pmap(one, jobs) for y in g]
    for t, w in out[:300]: rep.violation(t, w, {"t.c": t})
    rep.cov.update(programs=n, cases_generated=n, observations_compared=uses, rejections_checked=bad, traces_validated_against_impl=len(jobs), steps_by_kind_and_verdict={"%s/%s" % k: kinds[k] for k in sorted(kinds)})
    rep.sample({"program": render(cases[0], res[0])[0]})

if __name__ == "__main__": main(go, "C13", "model_checking")
