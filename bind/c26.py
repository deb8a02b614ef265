"""C26: the utility containers, decided by spec/Containers.tla: histories explored by TLC
(all of them up to a depth, and long random ones) are replayed on the real containers."""
from vlib import *

DRV = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dynmap.h"
#include "dynarray.h"
#include "alloc.h"
static char *keys[64]; static unsigned hashes[64]; static int ncls[64]; static int nk, strk;
static int idx(const void *p){ for(int i = 1; i <= nk; i++) if(keys[i] == p) return i; return 0; }
static unsigned hs(const void *p){ return strk ? dynmap_strhash(p) : hashes[idx(p)]; }
static int cm(void *a, void *b){ return strk ? strcmp(a, b) : ncls[idx(a)] != ncls[idx(b)]; }
static int freed;
static void onfree(void *p){ freed++; }
#define V(x) ((void *)(long)((x) * 16))
static long un(void *p){ return p == DYNARRAY_NULL ? -1 : (long)p / 16; }
static void arr(void **a){ size_t n = dynarray_nochk_count(a); printf(" %zu", n); for(size_t j = 0; j < n; j++) printf(" %ld", un(a[j])); }
int main(void){
  int nh; if(scanf("%d", &nh) != 1) return 2;
  while(nh--){
    int cmp, nops; dynmap *m; void **a = 0, **x = 0;
    if(scanf("%d %d %d", &cmp, &strk, &nk) != 3) return 2;
    for(int i = 1; i <= nk; i++){ unsigned h; int c; scanf("%d %u", &c, &h); ncls[i] = c; hashes[i] = h; keys[i] = malloc(32); sprintf(keys[i], "key%u_%d", h, c); }
    m = dynmap_nochk_new(cmp ? cm : 0, hs);
    scanf("%d", &nops);
    while(nops--){
      char o[16]; int k, v, i; long r = 0; void *p;
      if(scanf("%15s %d %d %d", o, &k, &v, &i) != 4) return 2;
      if(!strcmp(o, "set")) r = un(dynmap_nochk_set(m, keys[k], V(v)));
      else if(!strcmp(o, "get")) r = un(dynmap_nochk_get(m, keys[k]));
      else if(!strcmp(o, "exists")) r = !!dynmap_nochk_exists(m, keys[k]);
      else if(!strcmp(o, "mrm")) r = un(dynmap_nochk_rm(m, keys[k]));
      else if(!strcmp(o, "add")) dynarray_nochk_add(&a, V(v));
      else if(!strcmp(o, "prepend")) dynarray_nochk_prepend(&a, V(v));
      else if(!strcmp(o, "insert")) dynarray_nochk_insert(&a, i, V(v));
      else if(!strcmp(o, "pop")) r = un(dynarray_nochk_pop(&a));
      else if(!strcmp(o, "arm")) dynarray_nochk_rm(&a, V(v));
      else if(!strcmp(o, "pad")){ size_t n = dynarray_nochk_count(a), n0 = n; p = dynarray_nochk_padinsert(&a, i, &n, V(v)); r = un(p); if(n != dynarray_nochk_count(a)) r = -1000 - (long)n; }
      else if(!strcmp(o, "aux")) dynarray_nochk_add(&x, V(v));
      else if(!strcmp(o, "join")) dynarray_nochk_add_array(&a, x);
      else if(!strcmp(o, "tmpjoin")){ dynarray_nochk_add_tmparray(&a, x); x = 0; }
      else if(!strcmp(o, "joinself")){ void **t = 0; dynarray_nochk_add_array(&t, a); dynarray_nochk_add_array(&a, t); dynarray_nochk_free(&t, 0); if(t) r = -77; }
      else if(!strcmp(o, "free")){ freed = 0; dynarray_nochk_free(&a, onfree); r = freed; if(a) r = -77; }
      else return 3;
      printf("%ld |", r);
      for(int j = 0; ; j++){ void *kk = dynmap_nochk_key(m, j); if(!kk) break; printf(" %d:%ld", idx(kk), un(dynmap_nochk_value(m, j))); }
      printf(" |"); arr(a); printf(" |"); arr(x); printf("\n");
    }
    puts("."); fflush(stdout);
    dynmap_free(m); dynarray_nochk_free(&a, 0); dynarray_nochk_free(&x, 0);
    for(int i = 1; i <= nk; i++) free(keys[i]);
  }
  return 0;
}
'''
def op(o, k=1, v=1, i=0): return {"o": o, "k": k, "v": v, "i": i}
def cases():
    r = rng("c26"); L = []
    D = 6 if THOROUGH else 5
    # every history over small alphabets; hash values that share a bucket, directly and after folding
    H = [[0, 0, 0], [5, 5, 5], [1, 256, 65536], [7, 0x700, 9], [255, 0xff00, 0x00ff0000]]
    for cmp, cls, hs in ((True, [1, 2, 1], H[0]), (False, [1, 1, 1], H[1]), (True, [1, 2, 3], H[2]), (False, [1, 2, 3], H[4])):
        L.append({"cmp": cmp, "cls": cls, "ops": [op("set", k, 10 + k) for k in (1, 2, 3)] + [op("mrm", k) for k in (1, 2, 3)] + [op("set", 2, 20)], "all": True, "depth": D, "hash": [hs[c - 1] if cmp else h for c, h in zip(cls, hs)]})
    A = [[op("add", v=1), op("add", v=2), op("prepend", v=3), op("pop"), op("arm", v=1), op("insert", v=2, i=1)],
         [op("add", v=1), op("aux", v=2), op("join"), op("tmpjoin"), op("pop"), op("arm", v=2)],
         [op("pad", v=1, i=0), op("pad", v=2, i=2), op("pad", v=3, i=3), op("arm", v=2), op("pop"), op("add", v=4)],
         [op("add", v=1), op("add", v=2), op("joinself"), op("arm", v=1), op("free"), op("insert", v=3, i=0)]]
    for a in A: L.append({"cmp": True, "cls": [1], "ops": a, "all": True, "depth": D, "hash": [0]})
    for k in range(1500 if THOROUGH else 250):
        nk = r.choice([2, 4, 8, 20, 40]); cmp = r.random() < .6
        cls = [r.randrange(1, max(2, nk * 3 // 4)) for _ in range(nk)]
        span = r.choice([[0], [3, 3 + 256, 700], [r.randrange(1 << 32) for _ in range(30)], [255, 256, 65535, 65536, (1 << 32) - 1, 0x01010101]])
        ch = {c: r.choice(span) for c in range(1, nk + 2)}
        hs = [ch[c] if cmp else r.choice(span) for c in cls]
        ops = []
        w = r.choice([["set"] * 3 + ["mrm", "get", "exists"], ["set", "mrm"], ["add", "prepend", "insert", "pop", "arm", "pad"], ["add", "aux", "join", "tmpjoin", "arm", "pop", "free"],
                      ["set", "get", "mrm", "exists", "add", "prepend", "insert", "pop", "arm", "pad", "aux", "join", "tmpjoin", "joinself", "free"]])
        for _ in range(r.choice([10, 30, 60])):
            o = r.choice(w)
            if o == "joinself" and r.random() < .7: o = "pop"
            ops.append(op(o, r.randrange(1, nk + 1), r.randrange(1, 9), r.choice([0, 0, 1, 2, 3, 5, 9])))
        L.append({"cmp": cmp, "cls": cls, "ops": ops, "all": False, "depth": 0, "hash": hs, "str": cmp and r.random() < .4})
    return L

def build():
    d = sub("cont"); src = os.path.join(d, "drv.c"); open(src, "w").write(DRV)
    u = os.path.join(build_ucc(), "src/util")
    exe = os.path.join(d, "drv")
    need = [f for f in sorted(os.listdir(u)) if f.endswith(".c") and f != "test.c"]
    p = subprocess.run(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-U_FORTIFY_SOURCE", "-no-pie", "-fno-pie", "-Wl,--unresolved-symbols=ignore-all", "-D_GNU_SOURCE", "-iquote", u, "-o", exe, src] + [os.path.join(u, f) for f in need], capture_output=True, text=True)
    if p.returncode: raise CheckError("building the container driver failed\n" + p.stderr[-2000:])
    return exe

def check(rep):
    L = cases(); exe = build()
    res = tlc_cases("Containers", [{k: c[k] for k in ("cmp", "cls", "ops", "all", "depth")} for c in L], inv=["Unique", "LastSet"], props=["Frame", "Conserve"])
    jobs = [(i, h) for i in sorted(res) for h in res[i]]
    chunks = [jobs[k:k + 800] for k in range(0, len(jobs), 800)]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
    def text(i, h):
        c = L[i]; return "%d %d %d %s %d\n%s\n" % (c["cmp"], c.get("str", False), len(c["cls"]), " ".join("%d %d" % z for z in zip(c["cls"], c["hash"])), len(h), "\n".join("%(o)s %(k)d %(v)d %(i)d" % c["ops"][e["p"] - 1] for e in h))
    def want(h):
        o = []
        for e in h: o.append("%d |%s | %d%s | %d%s" % (e["r"], "".join(" %d:%d" % (x["k"], x["v"]) for x in sorted(e["m"], key=lambda z: z["k"])), len(e["a"]), "".join(" %d" % v for v in e["a"]), len(e["x"]), "".join(" %d" % v for v in e["x"])))
        return o
    def norm(l):
        f = l.split("|")
        if len(f) == 4: f[1] = "".join(" " + x for x in sorted(f[1].split(), key=lambda z: int(z.split(":")[0]))) + " "
        return "|".join(f)
    limit = lambda cmd, inp: subprocess.run(cmd, input=inp.encode(), capture_output=True, timeout=120, env=env)
    def go(ch):
        bad = []
        try: p = limit([exe], "%d\n" % len(ch) + "".join(text(i, h) for i, h in ch)); out = p.stdout.decode(errors="replace"); rc = p.returncode; err = p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e: out = (e.stdout or b"").decode(errors="replace"); rc = "timeout"; err = ""
        blocks = out.split(".\n")
        for n, (i, h) in enumerate(ch):
            if n >= len(blocks) - 1:
                bad.append((i, h, "driver ended with %s: %s" % (rc, err[:600]))); break
            got = [norm(l) for l in blocks[n].splitlines()]; w = want(h)
            if got != w:
                k = next((j for j in range(min(len(got), len(w))) if got[j] != w[j]), min(len(got), len(w)))
                bad.append((i, h[:k + 1], "after %s:\n got  %s\n want %s" % ("; ".join("%(o)s k%(k)d v%(v)d i%(i)d" % L[i]["ops"][e["p"] - 1] for e in h[:k + 1]), got[k] if k < len(got) else "-", w[k] if k < len(w) else "-")))
        return bad
    for b in pmap(go, chunks):
        for i, h, m in b: rep.violation("cont-%s" % hashlib.sha1(text(i, h).encode()).hexdigest()[:10], m + ("\nclasses %s hashes %s" % (L[i]["cls"], L[i]["hash"])), {"history": text(i, h)})
    rep.sample({"history": text(*jobs[0])})
    rep.cov.update(cases=len(L), histories=len(jobs), traces_validated_against_impl=len(jobs), exhaustive_depth=6 if THOROUGH else 5)
    rep.assumptions = ["equal keys have equal hashes; array elements are non-null"]

if __name__ == "__main__": main(check, "C26", "model_checking")
