#!/usr/bin/env python3
"""hc.py 'message' file[:regex] ... : commit only hunks (of -U1 diff) matching regex"""
import subprocess,sys,re
msg=sys.argv[1]
for spec in sys.argv[2:]:
    f,_,rx=spec.partition(':')
    d=subprocess.run(['git','diff','-U1','--',f],cwd='/repo',capture_output=True,text=True).stdout
    parts=re.split(r'(?m)^(?=@@ )',d)
    hd,hs=parts[0],parts[1:]
    sel=[h for h in hs if not rx or re.search(rx,h)]
    if not sel: print('NO HUNKS',spec); continue
    p=hd+''.join(sel)
    r=subprocess.run(['git','apply','--cached','--unidiff-zero','--recount','-'],cwd='/repo',input=p,text=True)
    if r.returncode: sys.exit('apply failed '+spec)
subprocess.run(['git','commit','-qm',msg],cwd='/repo',check=True)
print(subprocess.run(['git','log','--oneline','-1'],cwd='/repo',capture_output=True,text=True).stdout)
