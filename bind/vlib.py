"""Shared binding machinery: builds ucc from /repo's working tree, runs TLC on the
specification, compiles/runs rendered cases, reports violations and evidence."""
import atexit, concurrent.futures as cf, fcntl, hashlib, json, os, random, re, resource
import shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 4)
JARS = "/opt/veriftools/tla/tla2tools.jar"
T0 = time.time()

for _k in ("MAKEFLAGS", "CC", "CFLAGS", "CPPFLAGS", "LDFLAGS", "CDPATH", "C_INCLUDE_PATH"):
    os.environ.pop(_k, None)
os.environ["LC_ALL"] = "C.UTF-8"
os.umask(0o022)
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

class CheckError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp")
        try:
            if shutil.disk_usage(base).free < (1 << 30): base = "/tmp"
        except OSError: base = "/tmp"
        _scratch = tempfile.mkdtemp(prefix="uccv-", dir=base)
        pid = os.getpid()
        def rm():
            if os.getpid() == pid and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
        tmp = os.path.join(_scratch, "tmp"); os.mkdir(tmp)
        os.environ["TMPDIR"] = tmp
    return _scratch

def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d

# ------------------------------------------------------------------ building ucc
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

def run(cmd, timeout=20, input=None, cwd=None, env=None, merge=False):
    """(returncode, stdout, stderr) as bytes; rc = 'timeout' on timeout, -sig on signal."""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         cwd=cwd, env=env, start_new_session=True, preexec_fn=_limits)
    try:
        o, e = p.communicate(input, timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        rc = "timeout"
    return rc, o, e

def build_ucc():
    """Builds cpp, cc1, ucc and rt from the working tree of /repo in scratch; returns its root."""
    root = os.path.join(scratch(), "ucc")
    if os.path.isdir(root): return root
    def ign(d, names):
        return [n for n in names if n.endswith((".o", ".d", ".d.tmp")) or n in ("config.custom.mk",)]
    os.makedirs(root)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(root, "src"), ignore=ign, symlinks=True)
    for b in ("src/cc1/cc1", "src/cc1/test", "src/cpp2/cpp", "src/ucc/ucc", "src/ucc/test", "src/util/test"):
        p = os.path.join(root, b)
        if os.path.exists(p): os.remove(p)
    shutil.copy2(os.path.join(REPO, "configure"), root)
    os.makedirs(os.path.join(root, "lib"))
    env = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    steps = [["./configure", "CC=gcc"],
             ["make", "-j8", "-C", "src/util", "-f", "/opt/vp/util.mk", "vp-util"],
             ["make", "-j8", "-C", "src/cc1", "cc1"],
             ["make", "-j8", "-C", "src/cpp2", "cpp"],
             ["make", "-j8", "-C", "src/ucc", "ucc"],
             ["make", "-C", "src/rt"]]
    if not os.path.exists("/opt/vp/util.mk"):
        mk = os.path.join(root, "util.mk")
        open(mk, "w").write("include Makefile\nvp-util: ${OBJ}\n.PHONY: vp-util\n")
        steps[1][5] = mk
    for s in steps:
        p = subprocess.run(s, cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError("building ucc failed: %s\n%s" % (" ".join(s), p.stdout.decode(errors="replace")[-3000:]))
    return root

def ucc():
    return os.path.join(build_ucc(), "src/ucc/ucc")

RT_C = r'''
#include <stdio.h>
#include <string.h>
static char buf[1<<16]; static unsigned n;
#include <unistd.h>
static void fl(void){ unsigned o=0; while(o<n){ long k=write(1,buf+o,n-o); if(k<=0) _exit(99); o+=k; } n=0; }
static void put(const char *s){ while(*s){ if(n==sizeof buf) fl(); buf[n++]=*s++; } }
void out(int id, unsigned long v){ char t[64]; sprintf(t,"%d %lx\n",id,v); put(t); }
void out2(int id, int sub, unsigned long v){ char t[64]; sprintf(t,"%d.%d %lx\n",id,sub,v); put(t); }
void outmem(int id, const void *p, unsigned long len){ char t[64]; const unsigned char*c=p; sprintf(t,"%d ",id); put(t);
  for(unsigned long i=0;i<len;i++){ sprintf(t,"%02x",c[i]); put(t);} put("\n"); }
int ev(int k){ char t[64]; sprintf(t,"%d\n",k); put(t); return k; }
int ev2(int k,int v){ char t[64]; sprintf(t,"%d:%d\n",k,v); put(t); return v; }
void flush_out(void){ fl(); }
int vl2 = 2;
void vinit(int k, unsigned char *p, unsigned long n, int pat){ char t[80]; sprintf(t,"%d:%lu:%p\n",k,n,(void*)p); put(t); memset(p,pat,n); }
int vchk(unsigned char *p, unsigned long n){ for(unsigned long i=1;i<n;i++) if(p[i]!=p[0]) return 999; return p[0]; }
void vfill(unsigned char *p, unsigned long n, int v){ memset(p,v,n); }
void sep(int id){ char t[64]; fl(); sprintf(t,"@%d\n",id); put(t); fl(); }
__attribute__((destructor)) static void fin(void){ fl(); }
'''
def rt_obj():
    o = os.path.join(scratch(), "rt.o")
    if not os.path.exists(o):
        c = os.path.join(scratch(), "rt.c")
        open(c, "w").write(RT_C)
        subprocess.run(["gcc", "-O1", "-w", "-c", "-fPIE", "-o", o, c], check=True)
    return o

def compile_ucc(src, out, opts=(), timeout=30):
    return run([ucc(), "-w", *opts, "-o", out, src], timeout=timeout, merge=True)

_ctr = 0
def newdir(prefix="d"):
    global _ctr
    _ctr += 1
    d = os.path.join(scratch(), "%s%d.%d" % (prefix, os.getpid(), _ctr))
    os.makedirs(d)
    return d

def build_run(text, opts=(), extra_objs=(), timeout=20, run_timeout=20, stdin=None, keep=None, args=()):
    """compile C text with ucc, link with the runtime, run. -> dict(stage, rc, out, err)"""
    ucc(); rt = rt_obj()
    d = tempfile.mkdtemp(prefix="r", dir=scratch())
    try:
        c = os.path.join(d, "a.c"); o = os.path.join(d, "a.o"); x = os.path.join(d, "a.out")
        open(c, "w").write(text)
        rc, so, se = run([ucc(), "-w", *opts, "-c", "-o", o, c], timeout=timeout, merge=True, cwd=d)
        if rc != 0: return {"stage": "compile", "rc": rc, "out": so.decode(errors="replace"), "err": ""}
        rc, so, se = run(["gcc", "-no-pie" if "-fno-pic" in opts else "-pie", "-o", x, o, rt, *extra_objs], timeout=timeout, merge=True, cwd=d)
        if rc != 0: return {"stage": "link", "rc": rc, "out": so.decode(errors="replace"), "err": ""}
        rc, so, se = run([x, *args], timeout=run_timeout, cwd=d, input=stdin)
        return {"stage": "run", "rc": rc, "out": so.decode(errors="replace"), "err": se.decode(errors="replace")}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def pmap(fn, items, n=None):
    with cf.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))

# ------------------------------------------------------------------ TLC
STATS = {"states": 0, "transitions": 0, "tlc_runs": 0, "tlc_s": 0.0}

def tlc(module, cfg_text, env=None, workers=NCPU, timeout=800, simulate=None, heap="6g", extra=(), expect_ok=True):
    """Runs TLC on spec/<module>.tla with the given cfg. Returns (list of parsed @@-records, raw output)."""
    d = newdir("tlc")
    cfg = os.path.join(d, module + ".cfg")
    open(cfg, "w").write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + d,
           "-cp", JARS + ":/opt/veriftools/tla/CommunityModules-deps.jar",
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-config", cfg]
    if simulate: cmd += simulate
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    outp = os.path.join(d, "out")
    with open(outp, "wb") as f:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, cwd=d, env=e, start_new_session=True)
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
    STATS["tlc_runs"] += 1; STATS["tlc_s"] += time.time() - t
    raw = open(outp, errors="replace").read()
    recs = []
    for line in raw.splitlines():
        if line.startswith('"@@'):
            recs.append(json.loads(json.loads(line)[2:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", raw)
    if m:
        STATS["transitions"] += int(m[-1][0]); STATS["states"] += int(m[-1][1])
    if expect_ok and rc != 0:
        raise CheckError("TLC on %s ended with %s\n%s\n%s" % (module, rc, "\n".join(raw[m.start():m.start()+800] for m in re.finditer("Error:", raw)), raw[-2500:]))
    shutil.rmtree(d, ignore_errors=True)
    return recs, raw

def tlc_cases(module, cases, cfg=None, env=None, timeout=800, workers=NCPU, key="CASES", spec="Spec", inv=(), props=(), **kw):
    """Evaluates the cases (list of JSON values) with the spec's case runner; returns {index: result} (0-based)."""
    d = newdir("cases")
    path = os.path.join(d, "cases.ndjson")
    with open(path, "w") as f:
        for c in cases: f.write(json.dumps(c) + "\n")
    e = {key: path}; e.update(env or {})
    cfg = cfg or ("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec + "".join("INVARIANT %s\n" % i for i in inv) + "".join("PROPERTY %s\n" % i for i in props))
    recs, raw = tlc(module, cfg, env=e, timeout=timeout, workers=workers, **kw)
    res = {}
    for r in recs:
        res.setdefault(r[0] - 1, []).append(r[1])
    shutil.rmtree(d, ignore_errors=True)
    return res

# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.violations = []      # (signature, description, files)
        self.known = []
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.kf = load_known(prop)

    def sample(self, s):
        if len(self.samples) < 4: self.samples.append(s)

    def violation(self, sig, desc, files=None):
        """sig identifies the failing input; a known finding matches on it exactly."""
        for k in self.kf:
            if k["sig"] == sig or (k.get("sig_prefix") and sig.startswith(k["sig_prefix"])):
                if not any(x[0] == k["sig"] for x in self.known): self.known.append((k["sig"], k["what"]))
                return
        if any(v[0] == sig for v in self.violations): return
        self.violations.append((sig, desc, files or {}))

    def finish(self):
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": dict(self.cov, samples=self.samples), "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        if self.level == "model_checking":
            ev["coverage"].setdefault("states", STATS["states"])
            ev["coverage"].setdefault("transitions", STATS["transitions"])
        ev["coverage"]["tlc_runs"] = STATS["tlc_runs"]; ev["coverage"]["tlc_seconds"] = round(STATS["tlc_s"], 1)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for sig, what in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if not self.violations:
            print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float))})))
            return 0
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        for n, (sig, desc, files) in enumerate(self.violations[:5]):
            p = os.path.join(rd, "%s-%d.txt" % (self.prop, n))
            with open(p, "w") as f:
                f.write("property %s\nsignature: %s\n%s\n" % (self.prop, sig, desc))
                for k, v in files.items(): f.write("\n----- %s -----\n%s\n" % (k, v))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + (sig + ": " + desc).replace("\n", "\n  ")[:1500])
        print("%d violation(s)" % len(self.violations))
        return 1

def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l: continue
            k = json.loads(l)
            if k.get("property") == prop and k.get("status") == "known": r.append(k)
    return r

def main(fn, prop, level):
    rep = Report(prop, level)
    try:
        scratch()
        fn(rep)
        rc = rep.finish()
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e)); rc = 3
    sys.stdout.flush()
    sys.exit(rc)

def rng(*tags):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, tags))))
