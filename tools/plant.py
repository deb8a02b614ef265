#!/usr/bin/env python3
"""plant.py BUGS.py [id...]: confirm planted bugs and keep them in /verif/seeded.
BUGS.py defines BUGS = {id: {property, needs, what_it_breaks, edits: [(file, old, new)], demo: C text or None,
opts, sh: shell text (instead of demo), files: {name: text}, ok: output wanted or None}}.
Every bug is applied to /repo, built, tested against the stable tests, demonstrated, and undone again."""
import json, os, subprocess, sys, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/sh
d=$(dirname "$0"); t=$(mktemp -d)
/repo/src/ucc/ucc -w %s -o "$t/a" "$d/demo.c" || exit 1
timeout 20 "$t/a"
"""
def run(cmd, **kw): return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)
def build(): return run(["bash", "/opt/vp/build.sh"]).returncode == 0
def stable():
    b = json.load(open("/opt/vp/BASELINE.json")); st = b.get("stable") or b.get("stable_pass") or b.get("passed") or b
    st = list(st) if not isinstance(st, dict) else list(st.keys())
    out = tempfile.mktemp(suffix=".json"); run(["bash", "/opt/vp/test.sh", out]); o = json.load(open(out))
    return sorted(set(st) - set(o["passed"]))
def undo(): run(["git", "-C", "/repo", "checkout", "--", "."])
def main():
    B = runpy.run_path(sys.argv[1])["BUGS"]
    assert not run(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout
    for i in sys.argv[2:] or B:
        b = B[i]; d = os.path.join("/tmp/plant", i); os.makedirs(d, exist_ok=True)
        if b.get("demo"): open(d + "/demo.c", "w").write(b["demo"])
        for n, t in b.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
        open(d + "/demo.sh", "w").write(b.get("sh") or SH % b.get("opts", ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
        build()
        r = run(["sh", d + "/demo.sh"], cwd="/repo")
        if r.returncode: print(i, "DEMO FAILS ON CLEAN", r.stdout[-500:], r.stderr[-500:]); continue
        try:
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join("/repo", f); s = open(p).read()
                if s.count(old) != 1: print(i, f, "edit matches", s.count(old)); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad: continue
            open(d + "/patch.diff", "w").write(run(["git", "-C", "/repo", "diff"]).stdout)
            if not build(): print(i, "DOES NOT BUILD"); continue
            r = run(["sh", d + "/demo.sh"], cwd="/repo")
            if r.returncode == 0: print(i, "DEMO PASSES WITH BUG"); continue
            m = stable()
            if m: print(i, "TESTS FAIL", len(m), m[:8]); continue
            c = os.path.join(V, "bind", b["property"].lower() + ".py"); res = "no check"
            if os.path.exists(c):
                q = run([sys.executable, c], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                res = "CAUGHT" if q.returncode == 1 and "VIOLATION property=" + b["property"] in q.stdout else "MISSED rc=%d" % q.returncode
            print(i, "KEPT", res, flush=True)
            t = os.path.join(V, "seeded", i); os.makedirs(t, exist_ok=True)
            run(["cp", "-a", d + "/.", t])
        finally: undo()
    build()
main()
