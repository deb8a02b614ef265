"""tri2.py cNN [K]: all violations, grouped by the last line of their description"""
import os,sys; sys.path.insert(0,'/verif/bind')
import vlib, re, importlib, collections
mod=importlib.import_module(sys.argv[1]); rep=vlib.Report(sys.argv[1].upper(),"model_checking"); vlib.scratch(); mod.go(rep)
g=collections.defaultdict(list)
K=int(sys.argv[2]) if len(sys.argv)>2 else 2
for s,d,f in rep.violations:
    m=[l for l in d.split("\n") if re.search(r"expected|isn't|accepted|rejected|symbols|ended|ends with|error:|link|referenced|designate|status",l)]
    g[re.sub(r"\b\w?\d[\d_]*\b","N",(m or d.split("\n"))[-1])[:100]].append(d)
for k,v in sorted(g.items(),key=lambda x:-len(x[1])):
    print("=====",len(v),k)
    for d in sorted(v,key=len)[:K]: print(d[:900]); print("--")
print(rep.cov)
