"""C18: #include resolution and dependency output, decided by spec/Include.tla."""
from vlib import *

NM = ["a.h", "b.h", "vp c.h", "d.h"]
DIRS = [["r"], ["r", "inc1"], ["r", "inc2"], ["r", "sys1"], ["r", "sys2"], ["r", "sub"], ["r", "sub", "deep"], ["r", "inc1", "sub"], ["r", "sys1", "sub"], ["other"], ["r", "a.h"], ["r", "inc1", "b.h"], ["r", "sub", "a.h"]]
def case(r, k):
    dirs = [d for d in DIRS[:10] if d == ["r"] or r.random() < .7]
    dirs = [d for d in dirs if all(d[:j] in dirs for j in range(1, len(d)))]
    files = []
    # a name may be a directory
    for d in DIRS[10:]:
        if r.random() < .12 and d[:-1] in dirs: dirs.append(d)
    for d in dirs:
        for n in NM:
            if r.random() < .3 and d + [n] not in dirs: files.append(d + [n])
    md = r.choice([["r"], ["r"], ["r", "sub"], ["other"]])
    if md not in dirs: md = ["r"]
    main = md + ["main.c"]
    files = [main] + files
    def opt(pool): return [r.choice([d[1:] or ["."] if d[0] == "r" else ["..", "other"], ["nodir"], [".", *d[1:]] if d[0] == "r" else ["..", "other"]]) if r.random() < .2 else (d[1:] if d[0] == "r" and d[1:] else ["..", "other"] if d[0] != "r" else ["."]) for d in pool]
    I = opt(r.sample(DIRS[1:3] + [DIRS[5], DIRS[9], DIRS[7]], r.choice([0, 1, 2, 3])))
    S = opt(r.sample(DIRS[3:5] + [DIRS[8], DIRS[2]], r.choice([0, 1, 2])))
    if r.random() < .05: I.insert(0, ["a.h"])               # not a directory, perhaps
    ctr = [0]; macros = []
    def ident(): ctr[0] += 1; return ctr[0]
    def name():
        n = r.choice(NM); f = r.random()
        if f < .6: return [n]
        if f < .75: return ["sub", n]
        if f < .82: return ["..", n]
        if f < .86: return ["..", r.choice(["inc1", "sub", "sys1", "other", "r"]), n]
        if f < .9: return [".", n]
        if f < .94: return ["sub", "..", n]
        if f < .96: return ["deep", n]
        return r.choice([["inc1", n], ["nodir", n], ["nodir", "..", n], ["nothere.h"], ["a.h", "b.h"]])
    out = []
    for j, f in enumerate(files):
        it = []
        if r.random() < .6 and j: it.append({"k": "guard"})
        for _ in range(r.choice([1, 2, 3, 4]) if j else r.choice([2, 3, 4, 5])):
            x = r.random()
            if x < .45: it.append({"k": "text", "id": ident()})
            else:
                angle = r.random() < .35; ab = r.random() < .05
                y = {"k": "inc" if x < .85 or (j and r.random() < .7) else "has", "angle": angle, "abs": ab, "name": name(), "id": ident()}
                if ab: y["name"] = r.choice(files)
                elif r.random() < .85:                       # a name that will be found
                    bases = ([f[:-1]] if not angle else []) + [["r"] + [z for z in x if z != "."] if x[0] != ".." else x[1:] for x in I + S]
                    c = [g[len(b):] for b in bases for g in files[1:] if g[:len(b)] == b and len(g) > len(b)]
                    if c: y["name"] = r.choice(c)
                    elif r.random() < .8: continue
                it.append(y)
        it.append({"k": "text", "id": ident()})
        out.append({"p": f, "items": it})
    return {"dirs": dirs, "files": out, "cwd": ["r"], "main": main, "I": I, "S": S, "mg": r.random() < .1}

def render(r, c, root):
    t = []
    for f in c["files"]:
        o, g = [], "G_%d" % c["files"].index(f)
        guarded = False
        for y in f["items"]:
            if y["k"] == "guard": o += ["#ifndef " + g, "#define " + g]; guarded = True
            elif y["k"] == "text": o.append("T%d" % y["id"])
            else:
                s = "/".join(y["name"])
                if y["abs"]: s = "@ROOT@/" + s
                y["spell"] = s
                q = ("<%s>" if y["angle"] else '"%s"') % s
                if y["k"] == "has": o += ["#if __has_include(%s)" % q, "T%d" % y["id"], "#endif"]
                else:
                    x = r.random()
                    if x < .15 and not (y["angle"] and (" " in q or "." in s.split("/")[0][:1])):
                        o += ["#define H%d %s" % (y["id"], q), "#include H%d" % y["id"]]
                    else: o.append(r.choice(["#include ", "#include ", "#include", "# include  ", "#include /* c */ "]) + q + r.choice(["", "", " ", " // c", " /* c */"]))
        if guarded: o.append("#endif")
        t.append("\n".join(o) + "\n")
    return t

def go(rep):
    r = rng("C18"); n = 20000 if THOROUGH else 2500
    cases = [case(r, k) for k in range(n)]
    texts = [render(r, c, None) for c in cases]
    u = ucc()
    res = tlc_cases("Include", cases, inv=["OpenOk", "DepsRead"], props=["Resumed", "Below", "LocalFirst"], timeout=3000)
    d = sub("c18")
    def check(k):
        c, want = cases[k], res[k][0]
        root = os.path.join(d, str(k)); os.mkdir(root)
        for x in c["dirs"]: os.makedirs(os.path.join(root, *x), exist_ok=True)
        for f, t in zip(c["files"], texts[k]): open(os.path.join(root, *f["p"]), "w").write(t.replace("@ROOT@", root))
        cwd = os.path.join(root, "r")
        main = os.path.relpath(os.path.join(root, *c["main"]), cwd)
        opts = []
        for x in c["I"]: opts += ["-I" + "/".join(x)]
        for x in c["S"]: opts += ["-isystem", "/".join(x)]
        try:
            if not c["mg"]:
                rc, o, e = run([u, "-w", "-E", "-P", *opts, main], cwd=cwd)
                if want["st"] == "reject":
                    if rc == 0: return "accepted, but a header can't be found (or includes nest without end)\n%s" % o.decode(errors="replace")[:300]
                    return None if rc == 1 else "ended with %s" % rc
                if rc != 0: return "rejected: %s" % e.decode(errors="replace")[:400]
                got = [int(x) for x in re.findall(r"\bT(\d+)\b", o.decode(errors="replace"))]
                if got != want["out"]: return "text %s\nexpected %s" % (got, want["out"])
            f = ["-MM"] + (["-MG"] if c["mg"] else [])
            rc, o, e = run([u, "-w", *f, *opts, main], cwd=cwd)
            if rc != 0: return "-MM: rejected: %s" % e.decode(errors="replace")[:400]
            o = o.decode(errors="replace").replace("\\\n", " ")
            _, _, o = o.partition(":")
            exp = ["/".join(x[1:]).replace("@ROOT@", root) if x[0] == "?missing" else os.path.join(root, *x) for x in want["deps"]]
            got = re.split(r"(?<!vp)\s+", o.strip())
            if got[:1] != [main]: return "-MM: first prerequisite %s" % got[:1]
            miss = {x for x, y in zip(exp, want["deps"]) if y[0] == "?missing"}; found = {x for x, y in zip(exp, want["deps"]) if y[0] != "?missing"}
            real = {x: os.path.realpath(os.path.join(cwd, x)) for x in got[1:]}
            if len(got) - 1 != len(real) or not all(x in miss or y in found for x, y in real.items()) or not miss <= set(real) or not found <= set(real.values()): return "dependencies %s\nexpected %s" % (got, exp)
            got = sorted(set(real.values()))
            if k % 5 == 0 and not c["mg"]:
                rc, o2, e = run([u, "-w", "-E", "-P", "-MD", "-MF", "dep.d", *opts, main], cwd=cwd)
                if rc != 0: return "-MD -MF: rejected: %s" % e.decode(errors="replace")[:400]
                if not os.path.exists(os.path.join(cwd, "dep.d")): return "-MF: no file written"
                got2 = re.split(r"(?<!vp)\s+", open(os.path.join(cwd, "dep.d")).read().replace("\\\n", " ").partition(":")[2].strip())
                got2 = [os.path.realpath(os.path.join(cwd, x)) for x in got2[1:]]
                if sorted(set(got2)) != got: return "-MD: dependencies %s, -MM gives %s" % (got2, got)
                if [int(x) for x in re.findall(r"\bT(\d+)\b", o2.decode(errors="replace"))] != want["out"]: return "-MD: text differs"
        finally: shutil.rmtree(root, ignore_errors=True)
    ok = [k for k in range(n) if res[k][0]["st"] != "drop" and not (cases[k]["mg"] and res[k][0]["st"] == "reject")]
    for k, x in zip(ok, pmap(check, ok)):
        if x:
            c = cases[k]; fs = {"/".join(f["p"]): t for f, t in zip(c["files"], texts[k])}
            rep.violation(json.dumps([fs, c["I"], c["S"], c["mg"]]), "dirs %s\n-I %s -isystem %s\n%s" % (["/".join(x) for x in c["dirs"]], c["I"], c["S"], x), fs)
    rep.cov.update(traces_validated_against_impl=len(ok), rejected=sum(res[k][0]["st"] == "reject" for k in ok), cases_generated=n)
    for k in ok[:3]: rep.sample({"files": [["/".join(f["p"]), t] for f, t in zip(cases[k]["files"], texts[k])][:3], "out": res[k][0]["out"][:10]})

if __name__ == "__main__": main(go, "C18", "model_checking")
