"""C19: the driver's phases, failures and files, decided by spec/Driver.tla: every
behaviour TLC enumerates (inputs x options x failures) is replayed on the real driver,
whose phase programs are stand-ins that compute the model's symbolic contents."""
from vlib import *

TOOL = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/stat.h>
static char *slurp(const char *p){ FILE *f = strcmp(p, "-") ? fopen(p, "r") : stdin; static char b[65536]; size_t n; struct stat s;
  if(!f || fstat(fileno(f), &s) || S_ISDIR(s.st_mode)) return 0; n = fread(b, 1, sizeof b - 1, f); b[n] = 0; if(f != stdin) fclose(f);
  if(b[0] != '%') return 0; while(n && b[n-1] == '\n') b[--n] = 0; return strdup(b + 1); }
int main(int argc, char **argv){
  char *role = strrchr(argv[0], '/'), *out = 0, in[1<<16] = "", mk[4096] = "", line[1<<17]; int i, n = 0, as = 0; char *v;
  role = role ? role + 1 : argv[0];
  if(!strcmp(role, "launch")){ /* become the driver, with an already finished child that it did not start */
    if(fork() == 0) _exit(9); usleep(1500); execv(argv[1], argv + 1); _exit(97); }
  for(i = 1; i < argc; i++){
    char *m = strstr(argv[i], "mk");
    if(!strcmp(argv[i], "-o")){ out = argv[++i]; continue; }
    if(!strcmp(argv[i], "-D__ASSEMBLER__=1")) as = 1;
    if(m && m[2] >= '0' && m[2] <= '9'){ strcat(mk, m); strcat(mk, ";"); }
    if(!strcmp(role, "ld")){ char *c = argv[i][0] == '-' ? 0 : slurp(argv[i]); if(c){ if(n++) strcat(in, ","); strcat(in, c); } }
    else if(i == argc - 1){ char *c = slurp(argv[i]); strcpy(in, c ? c : "<unreadable>"); }
  }
  snprintf(line, sizeof line, "%s\t%s\t%s\n", role, in, mk);
  { int fd = open(getenv("DRV_LOG"), O_WRONLY|O_APPEND|O_CREAT, 0644); write(fd, line, strlen(line)); close(fd); }
  v = getenv("DRV_PLAN");                        /* tool \t content \t outcome \t partial */
  if(v && *v){ char *t = strdup(v), *c, *o, *p; c = strchr(t, '\t'); *c++ = 0; o = strchr(c, '\t'); *o++ = 0; p = strchr(o, '\t'); *p++ = 0;
    if(!strcmp(t, role) && !strcmp(c, in)){
      if(*p == '1' && out){ struct stat s; if(lstat(out, &s) || S_ISREG(s.st_mode)){ FILE *f = fopen(out, "w"); if(f){ fputs("%partial", f); fclose(f); } } }
      if(!strncmp(o, "exit", 4)) _exit(atoi(o + 4));
      if(!strncmp(o, "sig", 3)){ signal(atoi(o+3), SIG_DFL); kill(getpid(), atoi(o + 3)); pause(); }
    } }
  { FILE *f = fopen(out, "w"); if(!f) _exit(1); fprintf(f, "%%%s%s(%s)\n", role, as ? "A" : "", in); if(fclose(f)) _exit(1); }
  return 0; }
'''

# The driver creates and deletes files (an unpatched one deletes /dev/null when its output
# step fails), so it never runs as root here: everything goes through an unprivileged
# user that owns nothing but the scratch directory of the behaviour being replayed.
NOBODY = 65534
def urun(cmd, **kw):
    if os.geteuid() == 0:
        cmd = [sys.executable, "-c", "import os,sys\nos.setgroups([]); os.setgid(%d); os.setuid(%d)\n"
               "assert os.geteuid() != 0 and not os.access('/dev', os.W_OK)\nos.execv(sys.argv[1], sys.argv[1:])" % (NOBODY, NOBODY)] + cmd
    return run(cmd, **kw)
def own(d):
    """hand a scratch tree to the unprivileged user"""
    if os.geteuid() != 0: return
    os.chmod(scratch(), 0o711)
    for root, ds, fs in os.walk(d):
        for x in [root] + [os.path.join(root, f) for f in fs]: os.chown(x, NOBODY, NOBODY)

EXT = {"c": ["c"], "i": ["i"], "S": ["S"], "s": ["s"], "o": ["o", "a", "so", "obj", "h", ""]}
LANG = {"c": ["c"], "i": ["cpp-output"], "s": ["assembler", "asm"], "S": ["assembler-with-cpp", "asm-with-cpp"]}
OPTS = ["-D", "-D ", "-U", "-U ", "-I", "-I ", "-isystem ", "-Wp,", "-Xpreprocessor ", "-Wc,", "-f", "-m", "-g", "-std=", "-O", "-Wa,", "-Xassembler ", "-Wl,", "-Xlinker ", "-l", "-l ", "-L", "-L "]
FL = ["exit1", "exit2", "exit77", "exit255", "exit128", "sig9", "sig11", "sig15", "sig2", "sig1", "sig6", "noexec"]

def case(r, k):
    mode = r.choice(["E", "S", "c", "c", "link", "link", "link", "syntax"])
    n = r.choice([1, 1, 2, 2, 3, 4])
    save = r.random() < .15 and mode != "syntax"
    stems = r.sample(["a", "b", "cc", "x.y", "_d", "e-f", "g h", "k$x", "m'n"], n)
    ins, argv, cur = [], [], None
    dup = r.random() < .1 and not save
    for j, s in enumerate(stems):
        kind = r.choice(["c", "c", "c", "i", "s", "S", "o"])
        want = None
        if r.random() < .25 and kind != "o":
            want = r.choice(LANG[kind])
            ext = r.choice([e for l in EXT.values() for e in l] + ["txt", "cpp"])
        else: ext = r.choice(EXT[kind])
        if want != cur and not (want is None and cur is None):
            argv.append(r.choice([["-x", want or "none"], ["-x" + (want or "none")]])); cur = want
        d = "" if r.random() < .8 else "sub/"
        if dup: s, d = "same", "d%d/" % j
        nm = d + s + ("." + ext if ext else "")
        if not ext: s = s.rsplit(".", 1)[0] if "." in s and s[0] != "." else s
        if save and ext in "isod": nm = d + s + ".c"; ext = "c"; kind = {"c": "c", "cpp-output": "i", "assembler": "s", "asm": "s"}.get(cur, "S") if cur else "c"
        if save and cur: pass
        ins.append({"n": nm, "st": s, "k": kind}); argv.append([nm])
    if n == 1 and not save and r.random() < .08:
        ins = [{"n": "-", "st": "-", "k": "c"}]; argv = [["-"]]
        if r.random() < .5: argv = [["-xcpp-output"], ["-"]]; ins[0]["k"] = "i"
    out, bad = "", ""
    if mode != "syntax" and (r.random() < .5) and (n == 1 or mode in ("E", "link")):
        out = r.choice(["out", "z.o", "a b", "p;q", "$HOME", "od/res", "-" if mode in "ES" else "w"])
        if r.random() < .1 and not save: out, bad = "nodir/x", "nodir"
    if (out == "-" or (mode == "E" and out == "")) and r.random() < .15: bad = "full"
    if mode == "syntax" or bad != "": save = False
    pre = []
    for nm in ([out] if out not in ("", "-") and not bad else []) + (["a.out"] if mode == "link" and not out else []) + ([i["st"] + (".s" if mode == "S" else ".o") for i in ins] if mode in "Sc" and not out else []):
        if r.random() < .4 and nm not in [i["n"] for i in ins]: pre.append(nm)
    if save: pre = []
    if save or mode in ("S", "c"):                          # an input must not be its own output
        for i in ins:
            if "/" in i["n"]: continue
            gen = {i["st"] + e for e in (".i", ".s", ".o")} if save else {i["st"] + (".s" if mode == "S" else ".o")}
            if i["n"] in gen or any(i["n"] == j["n"] and j is not i for j in ins): return None
    if out in [i["n"] for i in ins] or len({i["n"] for i in ins}) < len(ins): return None
    if save and len({i["st"] for i in ins}) < len(ins): return None
    if save and out and out in [i["st"] + e for i in ins for e in (".i", ".s", ".o")]: return None
    ar = [{"o": r.choice(OPTS), "m": "mk%d" % (100 + j)} for j in range(r.choice([0, 0, 1, 2, 4]))]
    return {"in": ins, "mode": mode, "out": out, "save": save, "pre": sorted(set(pre)), "bad": bad, "ar": ar,
            "fl": r.sample(FL, 2 if n > 2 else 3), "argv": argv, "foreign": r.random() < .1, "seed": r.randrange(1 << 30)}

def command(c, tools):
    r = random.Random(c["seed"])
    m = {"E": ["-E"], "S": ["-S"], "c": ["-c"], "link": [], "syntax": ["-fsyntax-only"]}[c["mode"]]
    opts = [m] if m else []
    if c["out"]: opts.append(["-o" + c["out"]] if r.random() < .3 and c["out"] != "-" else ["-o", c["out"]])
    if c["save"]: opts.append(["-save-temps"])
    for a in c["ar"]: opts.append([a["o"][:-1], a["m"]] if a["o"].endswith(" ") else [a["o"] + a["m"]])
    argv = [list(x) for x in c["argv"]]
    if r.random() < .1 and not any(a[0].startswith("-") and a != ["-"] for a in argv): argv = [["--"]] + argv; pos = [0] * len(opts)
    else: pos = [r.randrange(len(argv) + 1) for _ in opts]
    for o, p in sorted(zip(opts, pos), key=lambda z: -z[1]): argv.insert(p, o)
    return ["-B" + tools] + [x for a in argv for x in a]

_tools = None
def tooldir():
    global _tools
    if _tools is None:
        d = sub("drv"); src = os.path.join(d, "tool.c"); open(src, "w").write(TOOL)
        subprocess.run(["gcc", "-O1", "-w", "-static", "-o", os.path.join(d, "tool"), src], check=True)
        b = os.path.join(d, "bin"); os.makedirs(b)
        for t in ("cpp", "cc1", "as", "ld", "launch"): os.link(os.path.join(d, "tool"), os.path.join(b, t))
        _tools = b
    return _tools

def replay(c, x, keep=None):
    """run one behaviour; returns None or a description of the difference"""
    tools = tooldir(); d = tempfile.mkdtemp(prefix="d", dir=scratch())
    try:
        cwd = os.path.join(d, "w"); tmp = os.path.join(d, "t"); os.makedirs(cwd); os.makedirs(tmp); os.makedirs(os.path.join(cwd, "od"))
        plan = x["plan"]; r = random.Random(c["seed"] ^ len(x["log"]))
        if plan and plan[2] == "noexec":
            if any(l[0] == plan[0] for l in x["log"][:-1]): return None
            b = os.path.join(d, "bin"); os.makedirs(b)
            for t in ("cpp", "cc1", "as", "ld", "launch"):
                if t != plan[0]: os.link(os.path.join(tools, t), os.path.join(b, t))
            tools = b
        stdin = b"%src:-\n"
        for i in c["in"]:
            if i["n"] == "-": continue
            p = os.path.join(cwd, i["n"]); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write("%%src:%s\n" % i["n"])
        for n in c["pre"]: open(os.path.join(cwd, n), "w").write("stale\n")
        logp = os.path.join(d, "log"); open(logp, "w").close()
        env = {"PATH": tools, "TMPDIR": tmp, "DRV_LOG": logp, "LC_ALL": "C", "HOME": d,
               "DRV_PLAN": "\t".join([plan[0], plan[1], plan[2], r.choice("01")]) if plan and plan[2] != "noexec" else ""}
        cmd = ([os.path.join(tools, "launch")] if c["foreign"] else []) + [ucc()] + command(c, tools)
        if c["bad"] == "full": cmd = ["/bin/sh", "-c", 'exec "$@" > /dev/full', "sh"] + cmd
        own(d)
        rc, so, se = urun(cmd, timeout=20, input=stdin, cwd=cwd, env=env)
        log = [l.split("\t") for l in open(logp).read().splitlines()]
        want = [[l[0], l[1], sorted(l[2])] for l in x["log"]]
        if plan and plan[2] == "noexec": want = want[:-1]
        got = [[l[0], l[1], sorted(m for m in l[2].split(";") if m)] for l in log]
        diffs = []
        if rc == "timeout": diffs.append("no termination")
        if got != want: diffs.append("phases run: %s, should be %s" % (got, want))
        if (rc == 0) != (x["status"] == 0): diffs.append("exit status %s, should be %s" % (rc, "0" if x["status"] == 0 else "non-zero"))
        left = os.listdir(tmp)
        if left: diffs.append("temporary files left: %d" % len(left))
        exp = {f: v for f, v in x["files"]}
        ins = {i["n"] for i in c["in"]}
        act = {}
        for root, _, fs in os.walk(cwd):
            for f in fs:
                q = os.path.relpath(os.path.join(root, f), cwd)
                t = open(os.path.join(root, f), errors="replace").read()
                if q in ins:
                    if t != "%%src:%s\n" % q: diffs.append("input %s was changed to %r" % (q, t[:60]))
                else: act[q] = t
        tidy = lambda t: t.replace("%", "").rstrip("\n")
        ignore = set()
        if c["save"] and c["out"]: ignore = {i["st"] + {"E": ".i", "S": ".s"}.get(c["mode"], ".o") for i in c["in"]}
        if c["save"] and c["mode"] == "E": ignore |= {i["st"] + ".i" for i in c["in"]}
        for f in sorted(set(exp) | set(act)):
            if f in ignore: continue
            e, a = exp.get(f), act.get(f)
            if x["status"] and f in c["pre"] and a is None: continue     # a failed run may remove an old output
            if a is None: diffs.append("%s is missing, should contain %r" % (f, e))
            elif e is None:
                if x["status"] and f in c["pre"] and a == "stale\n": continue
                diffs.append("%s should not exist (contains %r)" % (f, a[:80]))
            elif tidy(a) != tidy(e): diffs.append("%s contains %r, should contain %r" % (f, tidy(a)[:120], tidy(e)))
        if c["bad"] != "full" and tidy(so.decode(errors="replace")) != tidy(x["stdout"]): diffs.append("stdout %r, should be %r" % (so[:200], x["stdout"]))
        if diffs: return "%s\nargv: %s\nfailure: %s\nstderr: %s" % ("\n".join(diffs), " ".join(repr(z) for z in command(c, "BIN")), plan or "none", se.decode(errors="replace")[:400])
    finally:
        shutil.rmtree(d, ignore_errors=True)

def special(rep):
    """an output that is not a regular file is not removed after a failed link"""
    tools = tooldir(); d = tempfile.mkdtemp(prefix="d", dir=scratch())
    for plan in ("exit1", "sig9"):
        f = os.path.join(d, "pipe" + plan); os.mkfifo(f); open(os.path.join(d, "a.c"), "w").write("%src:a.c\n")
        env = {"PATH": tools, "TMPDIR": d, "DRV_LOG": os.path.join(d, "log"), "DRV_PLAN": "ld\tas(cc1(cpp(src:a.c)))\t%s\t0" % plan}
        own(d)
        rc, so, se = urun([ucc(), "-B" + tools, "-o", f, "a.c"], cwd=d, env=env)
        if rc == 0 or not os.path.exists(f): rep.violation("special-%s" % plan, "-o FIFO with a failing linker: exit %s, FIFO %s" % (rc, "kept" if os.path.exists(f) else "removed"), {})
    shutil.rmtree(d, ignore_errors=True)

BIG = "".join("int v%d(int a){ return a * %d + %d; }\n" % (i, i, i * 7) for i in range(40))
def fullfs(rep):
    """the real phases: a write that fails part-way is never reported as success"""
    ucc(); root = build_ucc(); d = tempfile.mkdtemp(prefix="d", dir=scratch())
    src = os.path.join(d, "a.c"); open(src, "w").write(BIG)
    n = 0
    try:
        for tool in ("src/cpp2/cpp", "src/cc1/cc1"):
            exe = os.path.join(root, tool); o = os.path.join(d, "o")
            if run([exe, "-o", o, src], cwd=d)[0] != 0: raise CheckError("%s does not run" % tool)
            full = open(o, "rb").read()
            lims = sorted({0, 1, 100, 511, 512, 513, 1024, 4095, 4096, 4097, 8192, len(full) // 2, len(full) - 1, len(full) - len(full) % 4096, len(full)} & set(range(len(full) + 1)))
            for lim in lims:
                os.path.exists(o) and os.remove(o)
                # the shell sets the limit in bytes through python's resource module
                code = "import resource,signal,os,sys\nsignal.signal(signal.SIGXFSZ, signal.SIG_IGN)\nresource.setrlimit(resource.RLIMIT_FSIZE,(%d,%d))\nos.execv(sys.argv[1],sys.argv[1:])" % (lim, lim)
                own(d)
                rc, so, se = urun([sys.executable, "-c", code, exe, "-o", o, src], cwd=d)
                got = open(o, "rb").read() if os.path.exists(o) else b""
                n += 1
                if (rc == 0) != (got == full): rep.violation("short-%s-%d" % (os.path.basename(tool), lim), "%s exits %s having written %d of %d bytes" % (tool, rc, len(got), len(full)), {"a.c": BIG})
    finally: shutil.rmtree(d, ignore_errors=True)
    return n

def check(rep):
    cases, k = [], 0
    N = 1500 if THOROUGH else 170
    while len(cases) < N:
        r = random.Random("c19-%d-%d" % (SEED, k)); k += 1
        c = case(r, k)
        if c: cases.append(c)
    res = tlc_cases("Driver", [{x: c[x] for x in ("in", "mode", "out", "save", "pre", "bad", "fl", "ar")} for c in cases],
                    inv=["NoTemps", "FailureIsLast", "SuccessMeansAll", "NoOutputOnFailure", "PhaseOrder"], props=["Terminates"] if not THOROUGH else [])
    ucc(); tooldir()
    jobs = [(i, x) for i in sorted(res) for x in res[i]]
    def one(j):
        i, x = j
        m = replay(cases[i], x)
        if m: m = replay(cases[i], x)
        return i, x, m
    for i, x, m in pmap(one, jobs):
        if m: rep.violation("drv-%d-%s" % (i, hashlib.sha1(json.dumps([cases[i]["in"], cases[i]["argv"], x["plan"]]).encode()).hexdigest()[:8]), m, {"case.json": json.dumps([cases[i], x], indent=1)})
    special(rep); n = fullfs(rep)
    rep.sample({"argv": command(cases[0], "BIN"), "behaviour": res[0][0]})
    rep.cov.update(cases=len(cases), behaviours=len(jobs), short_writes=n)
    rep.assumptions = ["phase programs are replaced by stand-ins (-B and PATH); inputs are distinct files; one failure per run"]

if __name__ == "__main__": main(check, "C19", "model_checking")
