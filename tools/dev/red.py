#!/usr/bin/env python3
"""red.py module index seed [opts]: reduce program at node level, gcc as oracle"""
import sys,os; sys.path.insert(0,'/verif/bind')
mod,idx,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); opts=sys.argv[4:]
os.environ['VERIF_SEED']=str(seed)
import vlib, cstmt, importlib, subprocess, copy, tempfile, re
m=importlib.import_module(mod)
cap=[]
def ra(gs,*a,**k): cap.extend(gs)
cstmt.run_all=ra
cstmt.execute=lambda gs:(cap.extend(gs),[])[1]
vlib.build_ucc=lambda *a:None; vlib.rt_obj=lambda *a:None
m.build_ucc=m.rt_obj=lambda *a:None
class R:
    cov={"traces_validated_against_impl":0}
    def __getattr__(s,n): return lambda *a,**k:None
try: m.go(R())
except Exception as ex: print("stop",ex)
g=next(x for x in cap if x.n==idx)
d=tempfile.mkdtemp(dir='/dev/shm'); 
open(d+'/rt.c','w').write(vlib.RT_C)
subprocess.run(['gcc','-w','-c',d+'/rt.c','-o',d+'/rt.o'],check=True)
def run(c,tag):
    e=d+'/e'+tag
    r=subprocess.run(c+['-o',e+'.o','-c',d+'/a.c'],capture_output=True)
    if r.returncode: return ('cfail',r.stderr.decode(errors='replace'))
    r=subprocess.run(['gcc','-no-pie',e+'.o',d+'/rt.o','-o',e],capture_output=True)
    if r.returncode: return ('lfail',r.stderr.decode(errors='replace'))
    try: r=subprocess.run([e],capture_output=True,timeout=2)
    except subprocess.TimeoutExpired: return ('to','')
    return (r.returncode, re.sub(rb':0x[0-9a-f]+|(?m:(?<=\d):\d+$)',b'',r.stdout) if 0 else b'\n'.join(b':'.join(l.split(b':')[:2]) for l in r.stdout.split(b'\n')))
def bad():
    try:
        open(d+'/a.c','w').write(cstmt.program([g],**({"quals":m.quals} if hasattr(m,"quals") else {})) if (cstmt.flatten(g) or 1) else '')
    except Exception as ex: return False
    a=run(['gcc','-w','-O0','-ftrivial-auto-var-init=pattern'],'1')
    if a[0]!=0: return False
    u=run(['/repo/src/ucc/ucc','-w']+opts,'u')
    if u==a: return False
    if KIND and (u[0] in('cfail','lfail'))!=KIND[0]: return False
    b=run(['clang','-w','-O1','-ftrivial-auto-var-init=zero'],'2')
    if b!=a: return False
    bad.last=(u,a); return True
KIND=None
if not bad(): print('not bad?'); sys.exit(1)
KIND=[bad.last[0][0] in('cfail','lfail')]
def nodes():
    out=[]
    def w(x):
        out.append(x)
        for y in x['a']:
            if isinstance(y,cstmt.Node): w(y)
    for f in g.funcs: w(f)
    return out
EX={"lit","var","ev","asg","cas","inc","bin","and","or","cond","elvis","comma","not","call","se","vget","vsz"}
changed=True
while changed:
    changed=False
    # remove functions
    for x in nodes():
        for k in range(len(x['a'])-1,-1,-1):
            if k>=len(x['a']): continue
            y=x['a'][k]
            if not isinstance(y,cstmt.Node): continue
            cands=[]
            if x['k']=='blk': cands.append(None)
            if x['k']=='if' and k==2: cands.append(None)
            if y['k'] in EX:
                if y['k'] not in('lit',): cands+= [cstmt.nd('lit',x=0),cstmt.nd('lit',x=1)]
                cands+=[z for z in y['a'] if isinstance(z,cstmt.Node) and z['k'] in EX]
            else:
                cands+=[z for z in y['a'] if isinstance(z,cstmt.Node) and z['k'] not in EX]
                cands+=[cstmt.nd('es',[z]) for z in y['a'] if isinstance(z,cstmt.Node) and z['k'] in EX and y['k']!='es']
                if y['k']!='null' and x['k']!='fn': cands.append(cstmt.nd('null'))
            for c in cands:
                old=list(x['a'])
                if c is None: del x['a'][k]
                else: x['a'][k]=c
                if bad(): changed=True; break
                x['a'][:]=old
    for f in list(g.funcs):
        if f is not g.main:
            i=g.funcs.index(f); g.funcs.remove(f)
            if bad(): changed=True
            else: g.funcs.insert(i,f)
bad()
print(open(d+'/a.c').read()); u,a=bad.last if bad() else ('',''); print('ucc',u); print('gcc',a)
