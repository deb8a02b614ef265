# one.py mod idx seed opts: print program
import sys,os; sys.path.insert(0,'/verif/bind')
mod,idx,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
os.environ['VERIF_SEED']=str(seed)
import vlib,cstmt,importlib
m=importlib.import_module(mod); cap=[]
cstmt.execute=lambda gs:(cap.extend(gs),[])[1]; cstmt.run_all=lambda gs,*a,**k:cap.extend(gs)
m.build_ucc=m.rt_obj=lambda *a:None
class R:
    cov={"traces_validated_against_impl":0}
    def __getattr__(s,n): return lambda *a,**k:None
try: m.go(R())
except BaseException as e: pass
g=next(x for x in cap if x.n==idx); cstmt.flatten(g)
print(cstmt.program([g],**({"quals":m.quals} if hasattr(m,"quals") else {})))
