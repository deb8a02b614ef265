"""C05: control flow, decided by spec/StmtMachine.tla."""
from vlib import *
import cstmt

def go(rep):
    r = rng("C05")
    n = 6000 if THOROUGH else 900
    gs = [cstmt.SGen(r, k, size=r.choice([8, 16, 24, 36])).program() for k in range(n)]
    build_ucc(); rt_obj()
    cstmt.run_all(gs, lambda k: [(), ("-fno-pic",), (), ("-O2",), (), ("-fno-const-fold",), ("-fno-thread-jumps",)][k % 7], rep)

if __name__ == "__main__": main(go, "C05", "model_checking")
