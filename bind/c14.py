"""C14: literals and tokens, decided by spec/Lex.tla: the lexer machine gives each text's tokens and the meaning of its
literals; compiled programs show what ucc made of the literals, and a text must compile exactly like its tokens
written one per line."""
from vlib import *
from ctype import *

INV = ["TypeOK", "Ordered", "Maximal", "Known", "NotStuck"]
TID = {"int": 1, "uint": 2, "long": 3, "ulong": 4, "llong": 5, "ullong": 6}
GEN = "_Generic((%s), int:1, unsigned:2, long:3, unsigned long:4, long long:5, unsigned long long:6, default:9)"

def int_lit(r):
    b = r.choice([10, 10, 8, 16, 16, 2])
    v = r.choice([lambda: r.choice([0, 1, 7, 8, 9, 10, 63, 64, 127, 255]), lambda: max(0, (1 << r.choice([7, 8, 15, 16, 31, 31, 32, 32, 33, 62, 63, 63, 64])) + r.choice([-2, -1, 0, 1])),
                  lambda: r.getrandbits(r.randint(1, 64)), lambda: r.getrandbits(64), lambda: 10 ** r.randint(0, 19) + r.choice([-1, 0, 1])])() & ((1 << 64) - 1)
    s = {10: "%d" % v, 8: "0%o" % v, 16: r.choice(["0x%x", "0X%X", "0x%X"]) % v, 2: r.choice(["0b", "0B"]) + bin(v)[2:]}[b]
    if b in (16, 2) and r.random() < .2: s = s[:2] + "0" * r.randint(1, 20) + s[2:]
    if b == 8 and r.random() < .2: s = "0" * r.randint(1, 20) + s
    u = r.choice(["", "u", "U"]); l = r.choice(["", "", "l", "L", "ll", "LL"])
    return s + (u + l if r.random() < .5 else l + u)

SAFE = [chr(x) for x in range(32, 127) if chr(x) not in "\\\"'?"]
def item(r, wide, utf=True, cap=False):
    c = r.random()
    if c < .4: return r.choice(SAFE)
    if c < .5: return r.choice("0123456789abcdefABCDEF")
    if c < .6: return "\\" + r.choice("ntbrvfa\\'?\"")
    if c < .72: return "\\" + r.choice(["", r.choice("0123" if not wide else "01234567")]) + "".join(r.choice("01234567") for _ in range(r.randint(1, 2)))
    if c < .82:
        n = r.choice([1, 1, 2, 2, 2, 3, 4, 6, 8]) if wide else r.choice([1, 2, 2])
        return "\\x" + ("0" * r.choice([0, 0, 0, 1, 7])) + "%0*x" % (n, r.getrandbits(4 * n))
    if c < .86: return "\\0"
    if c < .9: return "'"
    if c < .93: return r.choice(["/*", "*/", "//", "%d", "#", "##", "@", "$"])
    if c < .96 and not wide and utf: return r.choice(["\u00e9", "\u20ac", "\U0001f600", "\u00ff"])
    return r.choice(SAFE)
def str_lit(r):
    parts = r.choice([1, 1, 1, 2, 2, 3, 4])
    wide = r.random() < .25
    anyw = [wide and (r.random() < .6) for _ in range(parts)]
    wide = any(anyw)
    s = ""
    for k in range(parts):
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 20])
        if k: s += r.choice(["", " ", "\n", "/*c*/", " \t", "// x\n", "/* \" */"])
        if anyw[k] and s and (s[-1].isalnum() or s[-1] == "_"): s += " "
        s += ("L" if anyw[k] else "") + '"' + "".join(item(r, anyw[k], not wide) for _ in range(n)) + '"'
    return s
def chr_lit(r):
    wide = r.random() < .3
    while 1:
        x = item(r, wide)
        if x == '"' or (len(x) == 1 and x != "'" and ord(x) < 128) or x[0] == "\\": return ("L" if wide else "") + "'" + x + "'"

def codes(s): return list(s.encode())

def lit_stmt(r, n, text, m):
    """(file-scope text, statements) printing what the literal means"""
    top, b = "", []
    if m["m"] == "int":
        T = {"int": "int", "uint": "unsigned", "long": "long", "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long"}[m["t"]]
        b.append("out2(%d, 0, %s);" % (n, GEN % text))
        k = r.randint(0, 8)
        if k == 0: top = "static unsigned long long s%d = %s;" % (n, text); b.append("out2(%d, 1, s%d);" % (n, n))
        elif k == 1: b.append("unsigned long x = %s; out2(%d, 1, x);" % (text, n))
        elif k == 2: b.append("out2(%d, 1, 0+%s);" % (n, text))
        elif k == 3: b.append("switch((unsigned long)zero + (unsigned long)(%s)){ case %s: out2(%d, 1, (unsigned long)%s); break; default: out2(%d, 1, 0x5555); }" % (text, text, n, text, n))
        elif k == 4: b.append("out2(%d, 1, zero?7:(unsigned long)%s);" % (n, text))
        elif k == 5: b.append("out2(%d, 1, (%s)-zero);" % (n, text))
        elif k == 6: b.append("struct { unsigned long a, b; } q = {1,%s}; out2(%d, 1, q.b);" % (text, n))
        elif k == 7 and m["t"] == "int": top = "enum e%d { E%d = %s };" % (n, n, text); b.append("out2(%d, 1, E%d);" % (n, n))
        else: b.append("out2(%d, 1, (unsigned long)%s);" % (n, text))
    else:
        w = m["wide"]; E = "int" if w else "char"; cnt = m["n"]
        b.append("out2(%d, 0, _Generic(&(%s)[0], char *:1, int *:2, default:9));" % (n, text))
        b.append("out2(%d, 1, sizeof(%s));" % (n, text))
        k = r.randint(0, 12)
        dump = "outmem(%d, %%s, %d);" % (n, cnt * (4 if w else 1))
        if k <= 1: b.append(dump % text)
        elif k == 2: top = "static %s *p%d = %s;" % (E, n, text); b.append(dump % ("p%d" % n))
        elif k == 3: b.append("%s a[] = %s; out2(%d, 2, sizeof a); " % (E, text, n) + dump % "a")
        elif k == 4: top = "%s%s a%d[] = %s;" % (r.choice(["static ", ""]), E, n, text); b.append("out2(%d, 2, sizeof a%d); " % (n, n) + dump % ("a%d" % n))
        elif k == 5 and cnt > 1: b.append("struct { %s a[%d]; %s z; } q = { %s, 77 }; out2(%d, 3, q.z); outmem(%d, q.a, sizeof q.a);" % (E, cnt - 1, E, text, n, 4 * 10 ** 6 + n))
        elif k == 6: x = r.randint(1, 9); top = "struct { %s a[%d]; %s z; } q%d = { %s, 77 };" % (E, cnt + x, E, n, text); b.append("out2(%d, 3, q%d.z); outmem(%d, q%d.a, sizeof q%d.a);" % (n, n, (5 + x) * 10 ** 6 + n, n, n))
        elif k == 7: top = "const %s *const t%d[] = { 0, %s, %s };" % (E, n, text, text); b.append(dump % ("t%d[1]" % n)); b.append(dump % ("t%d[2]" % n))
        elif k == 8: b.append("%s *p = &(%s)[zero]; " % (E, text) + dump % "p")
        elif k == 9: j = r.randrange(cnt); b.append("out2(%d, 4, (unsigned long)(%s)[%d]); out2(%d, 4, (unsigned long)(%s)[zero+%d]);" % (n, text, j, n, text, j)); b.append("out2(%d, 5, %d);" % (n, j))
        elif k == 10: b.append("%s *p = (%s[]){ %s }; " % (E, E, text) + dump % "p")
        elif k == 11: b.append("%s a[2][%d] = { %s, { %s } }; " % (E, cnt, text, text) + dump % "a[0]" + dump % "a[1]")
        else: b.append("%s (*p)[%d] = &%s; " % (E, cnt, text) + dump % "*p")
    return top, "{ " + " ".join(b) + " }"

def lit_program(seed, batch):
    tops, body = [], []
    for n, text, m in batch:
        t, s = lit_stmt(random.Random("%s/%d" % (seed, n)), n, text, m)
        tops.append(t); body.append("void f%d(void)%s" % (n, s))
    return ("void out2(int, int, unsigned long); void outmem(int, const void *, unsigned long); void flush_out(void);\nint zero;\n" + "\n".join(tops) + "\n" + "\n".join(body)
            + "\nint main(void){\n" + "\n".join("f%d(); flush_out();" % n for n, _, _ in batch) + "\nreturn 0; }\n")

def sx(v, t): return v
def judge(n, m, mem, oth):
    if m["m"] == "int":
        e = TID[m["t"]]; g = oth.get("%d.0" % n)
        if g != [e]: return "type: expected %s, got %s" % (m["t"], [k for k, x in TID.items() if [x] == g] or g)
        e = unword(m["v"]); g = oth.get("%d.1" % n)
        if g != [e]: return "value: expected %x, got %s" % (e, g and "%x" % g[0])
        return None
    w = m["wide"]; z = 4 if w else 1; by = bytes(m["bytes"])
    if oth.get("%d.0" % n) != [2 if w else 1]: return "element type: expected %s" % ("int" if w else "char")
    if oth.get("%d.1" % n) != [len(by)]: return "size: expected %d, got %s" % (len(by), oth.get("%d.1" % n))
    if "%d.2" % n in oth and oth["%d.2" % n] != [len(by)]: return "size of array: expected %d, got %s" % (len(by), oth["%d.2" % n])
    if "%d.3" % n in oth and oth["%d.3" % n] != [77]: return "wrote past the array"
    if "%d.5" % n in oth:
        j = oth["%d.5" % n][0]; e = int.from_bytes(by[j * z:j * z + z], "little", signed=True) & ((1 << 64) - 1)
        if oth.get("%d.4" % n) != [e, e]: return "element %d: expected %x, got %s" % (j, e, oth.get("%d.4" % n))
        return None
    for q in range(4, 20):
        k = q * 10 ** 6 + n
        if k in mem:
            e = by[:-z] if q == 4 else by + bytes((q - 5) * z)
            if mem[k] != [e.hex()]: return "array contents: expected %s, got %s" % (e.hex(), mem[k])
            return None
    if not mem.get(n) or any(x != by.hex() for x in mem[n]): return "bytes: expected %s, got %s" % (by.hex(), mem.get(n))
    return None

def check_lits(job):
    seed, batch, opts = job
    src = lit_program(seed, batch)
    r = build_run(src, opts)
    if r["stage"] != "run" or r["rc"]:
        if len(batch) == 1: return [(batch[0][1], "options %s: %s failed with status %s: %s" % (" ".join(opts), r["stage"], r["rc"], r["out"][-300:]), {"program.c": src})]
        h = len(batch) // 2
        return check_lits((seed, batch[:h], opts)) + check_lits((seed, batch[h:], opts))
    mem, oth = {}, {}
    for l in r["out"].split("\n"):
        p = l.split()
        if len(p) == 2 and "." in p[0]: oth.setdefault(p[0], []).append(int(p[1], 16))
        elif len(p) == 2: mem.setdefault(int(p[0]), []).append(p[1])
        elif len(p) == 1: mem.setdefault(int(p[0]), []).append("")
    bad = []
    for n, text, m in batch:
        d = judge(n, m, mem, oth)
        if d: bad.append((text, "options %s: %s" % (" ".join(opts), d), {"program.c": lit_program(seed, [(n, text, m)])}))
    return bad

# ------------------------------------------------------------------ tokens
def expr_tokens(r, d):
    c = r.random()
    if d == 0 or c < .15:
        return r.choice([["a"], ["b"], ["1"], ["0x1e"], ["07"], ["2u"], ["'x'"], ["a"], ["b"], ["*", "p"], ["s", ".", "m"], ["q", "->", "m"], ["p", "[", "1", "]"], ["a", "++"], ["b", "--"], ["++", "a"], ["--", "b"],
                         ["sizeof", "a"], ["sizeof", "(", "int", ")"], ["f", "(", "a", ",", "b", ")"], ["1.5"], [".5"], ["1."], ["&", "b"], ["q", "->", "m", "++"], ["\"st\"", "[", "1", "]"], ["'\"'"], ["L'w'"], ["1e3"], ["p", "<:", "0", ":>"], ["0xeL"]])
    e = lambda: expr_tokens(r, d - 1)
    if c < .6: return e() + [r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "+", "-", "-", "+", "/", "&&", "<"])] + e()
    if c < .75: return [r.choice(["-", "+", "~", "!", "-", "+", "&", "*"])] + e()
    if c < .82: return e() + ["?"] + e() + [":"] + e()
    if c < .88: return ["("] + e() + [")"]
    if c < .94: return ["(", "a", r.choice(["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="])] + e() + [")"]
    return ["(", e()[0], ","] + e() + [")"] if r.random() < .2 else ["("] + e() + [","] + e() + [")"]
def tok_text(r):
    t = expr_tokens(r, r.choice([1, 2, 2, 3]))
    dens = r.choice([.5, .8, .95])
    s = t[0]
    for x in t[1:]:
        s += "" if r.random() < dens else r.choice([" ", " ", "\n", "\t", "/**/", "/* x */", "/*/ */", "/***/", "//c\n", "// \"\n", "/* ' */", "/*\n*/", "\f", "/*//*/"])
        s += x
    return s
TPRE = "int a, b, *p; struct S { int m; } s, *q; int f(int, int);\n"
def tok_prog(t): return TPRE + "void t(void){ __auto_type r =\n" + t + "\n; }\n"
def compile_asm(text, direct):
    d = tempfile.mkdtemp(prefix="t", dir=scratch())
    try:
        src = d + ("/a.i" if direct else "/a.c"); open(src, "w").write(text)
        p = run([ucc(), "-w", "-S", "-o", d + "/a.s", src], timeout=20, merge=True, cwd=d)
        if p[0] == 0: return 0, "\n".join(l for l in open(d + "/a.s").read().split("\n") if not l.lstrip().startswith((".file", "#", "/*")))
        return p[0], None
    finally: shutil.rmtree(d, ignore_errors=True)
def check_tok(job):
    text, toks = job
    if toks is None: want = ("rejected", None)
    else:
        rc, asm = compile_asm(tok_prog("\n".join(toks)), False)
        if rc not in (0, 1): return (text, "status %d for the tokens one per line" % rc, {"program.c": tok_prog("\n".join(toks))}), 0
        want = ("accepted", asm) if rc == 0 else ("rejected", None)
    for direct in (False, True):
        if direct and "/" in text and ("/*" in text or "//" in text): continue     # comments are the preprocessor's
        rc, asm = compile_asm(tok_prog(text), direct)
        if rc not in (0, 1): return (text, "status %d" % rc, {"program.c": tok_prog(text)}), 0
        got = "accepted" if rc == 0 else "rejected"
        if got != want[0]: return (text, "%s%s, but its tokens %s are %s" % (got, " (cc1 directly)" if direct else "", toks, want[0]), {"program.c": tok_prog(text), "tokens.c": tok_prog("\n".join(toks or ["<bad>"]))}), 0
        if asm != want[1]: return (text, "compiled differently from its tokens %s%s" % (toks, " (cc1 directly)" if direct else ""), {"program.c": tok_prog(text), "tokens.c": tok_prog("\n".join(toks))}), 0
    return None, want[0] == "accepted"

def go(rep):
    r = rng("C14"); NL = 20000 if THOROUGH else 2400; NT = 12000 if THOROUGH else 1600
    build_ucc(); rt_obj()
    lits = []
    for k in range(NL):
        c = k % 4
        lits.append(int_lit(r) if c < 2 else chr_lit(r) if c == 2 and r.random() < .4 else str_lit(r))
    toks = [tok_text(r) for _ in range(NT)]
    res = tlc_cases("Lex", [{"id": k, "text": codes(t), "mean": k < NL} for k, t in enumerate(lits + toks)], inv=INV)
    ok, unrep = [], 0
    for k, t in enumerate(lits):
        ms = res.get(k, [{"means": []}])[0]["means"]
        if len(ms) != 1: raise CheckError("literal %r has %d meanings" % (t, len(ms)))
        if ms[0]["m"] == "none": unrep += 1; continue
        ok.append((k, t, ms[0]))
    OPTS = [(), ("-fno-const-fold",), ("-fpic",), ("-fno-pic",), ("-g",), ("-fdata-sections",)]
    B = 30
    jobs = [("C14/%d" % SEED, ok[k:k + B], OPTS[(k // B) % len(OPTS)]) for k in range(0, len(ok), B)]
    for l in pmap(check_lits, jobs):
        for t, d, f in l: rep.violation("literal " + t, d, f)
    tj = []
    for k, t in enumerate(toks):
        rec = res.get(NL + k)
        by = t.encode()
        tj.append((t, [by[a - 1:b].decode() for _, a, b in rec[0]["toks"]] if rec else None))
    acc = 0
    for v, a in pmap(check_tok, tj):
        if v: rep.violation("tokens " + v[0], v[1], v[2])
        acc += a
    rep.cov.update(traces_validated_against_impl=len(ok) + len(tj), literals=len(ok), unrepresentable=unrep, token_texts=len(tj), token_texts_accepted=acc,
                   strings=sum(m["m"] == "str" for _, _, m in ok))
    rep.sample({"literal": lits[2], "tokens": toks[0]})

if __name__ == "__main__": main(go, "C14", "model_checking")
