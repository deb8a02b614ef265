import os,sys; sys.path.insert(0,'/verif/bind')
import vlib, re, importlib
mod=importlib.import_module(sys.argv[1])
rep=vlib.Report(sys.argv[1].upper(),"model_checking")
vlib.scratch()
mod.go(rep)
import collections
g=collections.defaultdict(list)
for sig,desc,f in rep.violations:
    m=re.search(r"(Assertion.*|Error:.*|error:.*|exit status .*|status.*)",desc)
    dd=re.sub(r"options [^:]*:","",desc)
    k=re.sub(r"\[[^]]*\]","[]",re.sub(r"0x[0-9a-f]+|\b[0-9a-f]+\b","N",re.sub(r"/\S*","",m.group(1) if m else dd[:80])))
    g[k[:90]].append((sig,desc,f))
for k,v in sorted(g.items(),key=lambda x:-len(x[1])):
    print("=====",len(v),k)
    if list(g).index(k)>25: continue
    for s,d,f in sorted(v,key=lambda x:len(x[0]))[:int(sys.argv[2]) if len(sys.argv)>2 else 4]: print("   ",s[:200],"\n       ",d.replace("\n"," | ")[:330])
print(rep.cov)
import os
os.makedirs(os.environ.get('TRI','/tmp/tri')+'',exist_ok=True)
for f in os.listdir(os.environ.get('TRI','/tmp/tri')+''): os.remove(os.environ.get('TRI','/tmp/tri')+'/'+f)
n=0
for k,v in g.items():
    for s,d,f in sorted(v,key=lambda x:min([len(t) for fn,t in x[2].items() if fn.endswith('.c')] or [0]))[:6]:
        n+=1
        for fn,t in f.items():
            if fn.endswith('.c'): open(os.environ.get('TRI','/tmp/tri')+'/%d.c'%n,'w').write('// '+d.replace('\n','\n// ')+'\n'+t)
