"""C20: warning options, decided by spec/Warn.tla."""
from vlib import *

# one line of program for each warning, which draws it whenever it is on ('@': something unique)
T = {
 'return-void': 'void f@(void); void g@(void){ return f@(); }',
 'binary-literal': 'int x@ = 0b101;',
 'sign-compare': 'int f@(int a, unsigned b){ return a < b; }',
 'implicit-int': 'static x@;',
 'implicit-function-declaration': 'int f@(void){ return g@(); }',
 'switch-enum': 'enum e@ { A@, B@ }; int f@(enum e@ e){ switch(e){ case A@: return 1; default: return 2; } }',
 'switch-default': 'int f@(int i){ switch(i){ case 1: return 1; } return 2; }',
 'implicit-fallthrough': 'void h@(void); void f@(int i){ switch(i){ case 1: h@(); case 2: h@(); } }',
 'assign-in-test': 'int f@(int a, int b){ if(a = b) return 1; return 2; }',
 'dead-code': 'int h@(void); int f@(void){ return 1; h@(); }',
 'predecl-enum': 'enum e@; extern enum e@ *p@;',
 'extra-semi': 'int x@;;',
 'truncation': 'char f@(int a){ char c = a; return c; }',
 'pad': 'struct s@ { char a; int b; };',
 'tenative-init': 'int x@; ',
 'shadow-local': 'int f@(int a){ { int a = 3; return a; } }',
 'shadow-global': 'int x@; int f@(void){ int x@ = 3; return x@; }',
 'shadow-compatible-local': 'int f@(void){ int a = 1; { int a = 3; return a; } }',
 'unused-comma': 'int f@(int a, int b){ return (a, b); }',
 'unused-expression': 'void f@(int a){ a; }',
 'unused-function': 'static void f@(void){ }',
 'unused-label': 'void f@(void){ x: ; }',
 'uninitialised': 'int f@(void){ int a; return a; }',
 'int-ptr-conversion': 'int *p@ = 3; ',
 'arith-funcptr': 'void *f@(void (*p)(void)){ return p + 1; }',
 'arith-voidptr': 'void *f@(void *p){ return p + 1; }',
 'sizeof-void': 'int x@ = sizeof(void);',
 'array-bounds': 'int f@(void){ int a[2] = { 1, 2 }; return a[3]; }',
 'char-subscripts': 'int f@(int *p, char c){ return p[c]; }',
 'attr-printf-bad': 'int pf@(const char *, ...) __attribute__((format(printf, 1, 2))); void f@(void){ pf@("%d\\n", 3L); }',
 'attr-printf-toomany': 'int pf@(const char *, ...) __attribute__((format(printf, 1, 2))); void f@(void){ pf@("\\n", 3); }',
 'address-of-packed-member': 'struct __attribute__((packed)) s@ { char c; int i; }; int *f@(struct s@ *p){ return &p->i; }',
 'attr-nonnull': 'void h@(int *) __attribute__((nonnull)); void f@(void){ h@((void *)0); }',
 'attr-nonnull-nonptr': 'void h@(int) __attribute__((nonnull(1)));',
 'attr-nonnull-oob': 'void h@(int *) __attribute__((nonnull(3)));',
 'attr-nonnull-noptrs': 'void h@(int) __attribute__((nonnull));',
 'attr-sentinel': 'void h@(int, ...) __attribute__((sentinel)); void f@(void){ h@(1, 2); }',
 'attr-sentinel-nonvariadic': 'void h@(int) __attribute__((sentinel));',
 'attr-unused-used': 'int f@(int a){ int x __attribute__((unused)) = a; return x; }',
 'attr-unused-voidfn': 'void f@(void) __attribute__((warn_unused_result));',
 'restrict-non-ptr': 'int restrict x@;',
 'bitfield-boundary': 'struct s@ { int a : 20; int b : 20; };',
 'bitfield-onebit-int': 'struct s@ { int a : 1; };',
 'bitfield-trunc': 'struct s@ { unsigned a : 2; }; void f@(struct s@ *p){ p->a = 9; }',
 'bitfield-promotion': 'struct s@ { unsigned a : 2; }; int f@(struct s@ *p){ return p->a; }',
 'builtin-expect-nonconst': 'int f@(int a, int b){ return __builtin_expect(a, b); }',
 'builtin-va_arg-undefined': 'void f@(int a, ...){ __builtin_va_list l; __builtin_va_start(l, a); __builtin_va_arg(l, char); __builtin_va_end(l); }',
 'builtin-va_start-2nd-param': 'void f@(int a, int b, ...){ __builtin_va_list l; __builtin_va_start(l, a); __builtin_va_end(l); }',
 'constant-large-unsigned': 'unsigned long x@ = 18446744073709551615;',
 'div-zero': 'int f@(void){ return 1 / 0; }',
 'declaration-noop': 'int;',
 'empty-struct': 'struct s@ { };',
 'empty-init': 'int x@[2] = {};',
 'enum-mismatch': 'enum e@ { A@ }; enum f@ { B@ }; enum e@ g@(enum f@ b){ return b; }',
 'enum-mismatch-int': 'enum e@ { A@ }; enum e@ g@(int b){ enum e@ x = b; return x; }',
 'assign-enum': 'enum e@ { A@ }; enum e@ x@ = 5;',
 'excess-init': 'int x@[1] = { 1, 2 };',
 'extern-init': 'extern int x@ = 3;',
 'embedded-flexarr': 'struct s@ { int n; int x[]; }; struct t@ { struct s@ s; int y; };',
 'flexarr-single-member': 'struct s@ { int x[]; };',
 'flexarr-init': 'struct s@ { int n; int x[]; }; struct s@ v@ = { 1, { 2 } };',
 'extended-offsetof': 'struct s@ { int n; int x[4]; }; int f@(int i){ return __builtin_offsetof(struct s@, x[i]); }',
 'free-nonheap-object': 'void free(void *); void f@(void){ int a; free(&a); }',
 'malloc-type-mismatch': 'void *malloc(unsigned long); void f@(void){ long *p = malloc(sizeof(int)); (void)p; }',
 'gnu-alignof-expression': 'int x@ = _Alignof(1);',
 'gnu-statement-expression': 'int f@(int a){ return ({ a; }); }',
 'gnu-label-as-value': 'void *f@(void){ a: return &&a; }',
 'gnu-attribute': 'int x@ __attribute__((unused));',
 'gnu-typeof': '__typeof__(int) x@;',
 'gnu-auto-type': 'void f@(void){ __auto_type x = 3; (void)x; }',
 'gnu-case-range': 'int f@(int i){ switch(i){ case 1 ... 3: return 1; } return 0; }',
 'gnu-designator': 'struct s@ { int a; } x@ = { a: 3 };',
 'gnu-function': 'const char *f@(void){ return __FUNCTION__; }',
 'call-argcount': 'void h@(a) int a; { (void)a; } void f@(void){ h@(1, 2); }',
 'ignored-qualifiers': 'const int f@(void);',
 'duplicate-decl-specifier': 'const const int x@;',
 'implicit-old-func': 'void f@();',
 'missing-braces': 'int x@[2][2] = { 1, 2, 3, 4 };',
 'init-missing-struct': 'struct s@ { int a, b; } x@ = { 1 };',
 'init-missing-struct-zero': 'struct s@ { int a, b; } x@ = { 0 };',
 'init-overlong-string': 'char x@[2] = "abc";',
 'init-array-range': 'int x@[4] = { [0 ... 2] = 1 };',
 'unknown-attribute': 'int x@ __attribute__((fooble));',
 'mismatch-conditional': 'int *f@(int a, int *p, long *q){ return a ? p : q; }',
 'incompatible-pointer-types': 'void g@(int *); void f@(long *q){ int *p = q; g@(p); }',
 'compare-distinct-pointer-types': 'int f@(int *p, long *q){ return p == q; }',
 'missing-prototypes': 'int f@(void){ return 3; }',
 'missing-variable-declarations': 'int x@;',
 'multichar': "int x@ = 'ab';",
 'missing-static-assert-string': '_Static_assert(1);',
 'null-zero-literal': 'int *p@ = 0;',
 'omitted-param-types': 'void f@(a, b){ }',
 'undefined-shift': 'int f@(void){ return 1 << 40; }',
 'overlarge-enumerator-int': 'enum e@ { A@ = 0x100000000 };',
 'overlarge-enumerator-bitfield': 'enum e@ { A@ = 5 }; struct s@ { enum e@ x : 2; };',
 'constant-conversion': 'char c@ = 300;',
 'operator-precedence': 'int f@(int a, int b, int c){ return a & b == c; }',
 'visibility': 'void f@(struct s@ *p);',
 'pure-inline': 'inline int f@(void){ return 3; }',
 'sizeof-array-argument': 'int f@(int a[3]){ return sizeof(a); }',
 'sizeof-ptr-divide': 'int f@(int *p){ return sizeof(p) / sizeof(*p); }',
 'sizeof-pointer-memaccess': 'void *memset(void *, int, unsigned long); void f@(int *p){ memset(p, 0, sizeof(p)); }',
 'static-array-size': 'void g@(int a[static 3]); void f@(void){ int x[2]; g@(x); }',
 'static-local-in-inline': 'inline int f@(void){ static int i; return i++; }',
 'struct-noinstance-anon': 'struct { int a; };',
 'struct-noinstance-qualified': 'const struct s@ { int a; };',
 'sym-never-read': 'void f@(void){ int a; a = 3; }',
 'tautologic-unsigned-op': 'int f@(unsigned a){ return a >= 0; }',
 'tenative-array': 'int x@[];',
 'typedef-function-impl': 'typedef int t@(void); t@ f@ { return 3; }',
 'typedef-redefinition': 'typedef int t@; typedef int t@;',
 'undef-string-comparison': 'int f@(char *p){ return p == "hi"; }',
 'undefined-internal': 'static int h@(void); int f@(void){ return h@(); }',
 'anon-untagged-c11-struct': 'struct s@ { struct { int a; }; };',
 'anon-tagged-struct-empty-decl': 'struct s@ { struct t@ { int a; }; int b; };',
 'dangling-else': 'int f@(int a, int b){ if(a) if(b) return 1; else return 2; return 3; }',
 'vla': 'void g@(int *); void f@(int n){ int a[n]; g@(a); }',
 'qualified-fntype': 'typedef int t@(void); const t@ f@;',
 'frame-address': 'void *f@(void){ return __builtin_frame_address(1); }',
 'attr-format-unknown': 'void f@(char *, ...) __attribute__((format(foo, 1, 2)));',
 'attr-noderef': 'int f@(__attribute__((noderef)) int *p){ return *p; }',
 'unknown-sanitizers': 'void f@(void) __attribute__((no_sanitize("foo")));',
 '__func__outside-fn': 'const char *x@ = __func__;',
 '__func__init': 'void f@(void){ char x[] = __func__; (void)x; }',
 'ignored-late-decl': 'int f@(void){ return 1; } int f@(void) __attribute__((always_inline));',
 'missing-empty-struct-brace-init': 'struct s@ { }; struct t@ { struct s@ s; int b; } x@ = { 3 };',
}
CPP = {
 "undef-in-if": ("#if FOO@\n#endif", "undefined identifier in: \"#if FOO@\""),
 "undef-noop": ("#undef FOO@", "macro \"FOO@\" not defined"),
 "redef": ("#define a@ 1\n#define a@ 2\nint a@;", "redefining \"a@\""),
 "trailing": ("#ifdef T@\n#endif T@", "endif directive with extra tokens"),
 "empty-arg": ("#define e@(x) 1 x\nint e@[e@()];", "empty argument list to single-argument macro \"e@\""),
 "uncalled-macro": ("#define u@(x) x\nint u@;", "ignoring non-function instance of u@"),
 "#warning": ("#warning hi @", "#warning: hi @"),
 "unused-macros": ("#define z@ 1", "unused macro \"z@\""),
 "backslash-newline-space": ("int b@; \\ \n", "backslash and newline separated by space"),
}
ALIAS = ["enum-out-of-range", "format", "format-extra-args", "gnu-autotype", "implicit", "init-missing-braces", "microsoft-anon-tag", "missing-declarations", "missing-field-initializers", "missing-forwards",
         "padded", "pointer-arith", "pointer-bool-conversion", "ptr-int-conversion", "shadow", "shadow=compatible-local", "shadow=global", "shadow=local", "strict-prototypes", "unused", "unused-local-typedefs"]
GROUPS = {"format": ["attr-printf-bad", "attr-printf-toomany"], "implicit": ["implicit-int", "implicit-function-declaration"], "missing-forwards": ["missing-prototypes", "missing-variable-declarations"],
          "pointer-arith": ["arith-funcptr", "arith-voidptr", "sizeof-void"], "shadow": ["shadow-global", "shadow-local"], "shadow=global": ["shadow-global", "shadow-local"], "shadow=local": ["shadow-local"],
          "missing-declarations": ["missing-variable-declarations"], "padded": ["pad"], "strict-prototypes": ["implicit-old-func"], "enum-out-of-range": ["assign-enum"], "format-extra-args": ["attr-printf-toomany"]}

def options(r, kinds, cpp):
    """a sequence of options, most of them about these kinds"""
    near = kinds + [g for g, m in GROUPS.items() if set(m) & set(kinds)]
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10])):
        f = r.random()
        if f < .14: o, s = {"o": "werror", "n": "-"}, "-Werror"
        elif f < .19: o, s = {"o": "nowerror", "n": "-"}, "-Wno-error"
        elif f < .23: o, s = {"o": "w", "n": "-"}, "-w"
        elif f < .27: o, s = {"o": "ped", "n": "-"}, "-pedantic"
        elif f < .29: o, s = {"o": "pederr", "n": "-"}, "-pedantic-errors"
        else:
            n = r.choice(near) if r.random() < .6 else r.choice(["all", "extra", "everything", "gnu", "all", "everything", "unknown-warning-option", "system-headers"] + r.sample(ALIAS, 2) + r.sample(sorted(T), 4)
                                                                + (["undef", "undef-noop"] if cpp else []) + (["nonsense", "x-y", "errorx", "Wall"] if r.random() < .3 else []))
            k = r.choice(["on", "on", "off", "off", "err", "noerr"])
            if n == "extra" and r.random() < .4 and k in ("on", "off"): n = ""
            o, s = {"o": k, "n": n}, {"on": "-W%s", "off": "-Wno-%s", "err": "-Werror=%s", "noerr": "-Wno-error=%s"}[k] % n
            if s in ("-W", "-Wno-") and k == "off": o, s = {"o": "off", "n": "extra"}, "-Wno-extra"
        out.append((o, s))
    return out

def case(r, k):
    cpp = k % 6 == 5
    ks = r.sample(sorted(CPP if cpp else T), r.choice([1, 1, 1, 2, 3, 5]))
    src, hdr, at = [], [], {}
    sysh = not cpp and r.random() < .25
    for j, x in enumerate(ks):
        i = "%d_%d" % (k, j)
        if cpp:
            t = CPP[x][0].replace("@", i).split("\n"); at[x] = CPP[x][1].replace("@", i); src += t
        else:
            t = T[x].replace("@", i); where = hdr if sysh and r.random() < .6 else src
            where.append(t); at[x] = ["h.h" if where is hdr else "p.c", len(where) + (1 if where is src and sysh else 0)]
    if sysh: src.insert(0, "#include <h.h>")
    return {"cpp": cpp, "kinds": ks, "at": at, "src": "\n".join(src) + "\n", "hdr": "\n".join(hdr) + "\n", "sys": sysh, "opts": options(r, ks, cpp)}

def diags(e):
    """-> [(file, line, severity, text, names)]"""
    out = []
    for l in e.split("\n"):
        m = re.match(r"(.*?):(?:(\d+):)?(?:(\d+):)? (warning|error): (.*)", l)
        if m: out.append([os.path.basename(m[1]), int(m[2] or 0), m[4], m[5], []]); continue
        m = re.fullmatch(r"\[-W(.*)\]", l)
        if m and out: out[-1][4].append(m[1])
    return out

def go(rep):
    r = rng("C20"); n = 16000 if THOROUGH else 2400
    cases = [case(r, k) for k in range(n)]
    res = {k: v[0] for k, v in tlc_cases("Warn", [{"opts": [o for o, _ in c["opts"]]} for c in cases], inv=["TypeOK"], props=["OnlyNamed", "Monotone", "Disabling", "NoErrorInert", "WerrorLoud"], timeout=3000).items()}
    u = ucc(); d = sub("c20")
    def check(k):
        c, w = cases[k], res[k]; warn, err, cpp = set(w["warn"]), set(w["err"]), set(w["cpp"])
        cd = os.path.join(d, str(k)); os.makedirs(cd + "/sys")
        open(cd + "/p.c", "w").write(c["src"]); open(cd + "/sys/h.h", "w").write(c["hdr"])
        try:
            def comp(opts, o): return run([u, "-S", "-o", o, "-isystem", "sys", *opts, "p.c"], cwd=cd)
            rc, o, e = comp(["-fshow-warning-option"] + [s for _, s in c["opts"]], "a.s"); e = e.decode(errors="replace"); D = diags(e)
            made = os.path.exists(cd + "/a.s")
            if rc not in (0, 1): return "ended with %s\n%s" % (rc, e[:300])
            if (rc == 0) != made: return "status %d, but the output was %s" % (rc, "written" if made else "not written")
            sev = lambda x: "error" if x in err else "warning" if x in warn else None
            # unknown options
            U = [x for x in D if x[3].startswith("unknown warning option")]
            if sorted(x[3] for x in U) != sorted('unknown warning option: "%s"' % x for x in w["unk"] if sev("unknown-warning-option")): return "unknown options reported %s, given %s" % (U, w["unk"])
            if any(x[2] != sev("unknown-warning-option") for x in U): return "unknown option reported as %s" % U
            if w["unk"] and sev("unknown-warning-option") == "error": return None if rc == 1 else "unknown options are errors, but it succeeded"
            if c["cpp"]:
                if rc != 0 and not any(x[2] == "error" for x in D): return "failed without an error\n" + e
                for x in c["kinds"]:
                    got = [y for y in D if y[3].startswith(c["at"][x])]
                    if bool(got) != (x in cpp): return "-W%s is %s, but it was %sreported\n%s" % (x, "on" if x in cpp else "off", "" if got else "not ", e[:300])
                    if any(y[2] != "warning" for y in got): return "preprocessor warning as an error"
                return None
            def eff(x): # the warning the diagnostic belongs to
                if c["at"][x][0] == "h.h" and x.startswith("shadow-"): return "shadow-global-sysheaders"
                return "shadow-compatible-local" if x == "shadow-local" and sev("shadow-compatible-local") else x
            E = [x for x in D if x[2] == "error"]
            for f, l, s, t, names in D:
                if t.startswith("unknown warning option"): continue
                ks = [x for x in names if x in T or x in warn or x in err]
                if not names: return "diagnostic of no warning: %s" % t
                if not ks: return "reported, but off: -W%s (%s)" % (names, t)
                if f == "h.h" and sev("system-headers") is None and s != "error": return "reported in a system header: %s" % t
                if f == "h.h" and sev("system-headers") is None: return "error in a system header: %s" % t
                if not any(sev(x) == s for x in ks): return "-W%s is %s, but reported as %s: %s" % (ks, [sev(x) for x in ks], s, t)
            if (rc != 0) != bool(E): return "status %d with %d errors\n%s" % (rc, len(E), e[:300])
            for x in c["kinds"]:
                f, l = c["at"][x]
                x = eff(x)
                s = sev(x) if f == "p.c" or sev("system-headers") else None
                got = [y for y in D if y[0] == f and y[1] == l and x in y[4]]
                if s and not got and not E: return "-W%s is on (%s), but wasn't reported\n%s" % (x, s, e[:300])
                if not s and got: return "-W%s is off, but was reported" % x
            must = [x for x in c["kinds"] if eff(x) in err and (c["at"][x][0] == "p.c" or sev("system-headers"))]
            if must and rc == 0: return "-W%s is an error, but compilation succeeded" % must[0]
            if rc == 0:
                rc, o, e = comp(["-w"], "b.s")
                if rc != 0: return "rejected with -w: %s" % e.decode(errors="replace")[:300]
                if open(cd + "/a.s").read() != open(cd + "/b.s").read(): return "the code depends on the warning options"
        finally: shutil.rmtree(cd, ignore_errors=True)
    for k, x in zip(range(n), pmap(check, range(n))):
        if x:
            c = cases[k]; rep.violation(json.dumps([[s for _, s in c["opts"]], c["src"], c["hdr"]]), "options %s\n%s\n%s" % (" ".join(s for _, s in c["opts"]), c["src"] + ("--- h.h:\n" + c["hdr"] if c["sys"] else ""), x), {"p.c": c["src"], "h.h": c["hdr"]})
    rep.cov.update(traces_validated_against_impl=n, warnings_triggered=len(T) + len(CPP), fatal=sum(bool(set(res[k]["err"]) & set(cases[k]["kinds"])) for k in range(n)), cases_generated=n)
    for k in range(3): rep.sample({"options": [s for _, s in cases[k]["opts"]], "program": cases[k]["src"], "err": res[k]["err"][:10]})

if __name__ == "__main__": main(go, "C20", "model_checking")
