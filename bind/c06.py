"""C06: leaving scopes (cleanup handlers, storage of variable-length arrays), decided by spec/StmtMachine.tla."""
from vlib import *
import cstmt

def go(rep):
    r = rng("C06")
    n = 5000 if THOROUGH else 800
    gs = []
    for k in range(n):
        m = k % 4
        gs.append(cstmt.SGen(r, k, cleanup=[.2, 0, .12, .25][m], vla=[0, .2, .12, 0][m], se=[.3, .2, .4, .1][m], size=r.choice([8, 14, 20, 30])).program())
    build_ucc(); rt_obj()
    cstmt.run_all(gs, lambda k: [(), ("-fno-pic",), (), ("-O2",), (), ("-fno-const-fold",), ("-fno-thread-jumps",)][k % 7], rep)

if __name__ == "__main__": main(go, "C06", "model_checking")
