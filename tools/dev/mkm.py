import sys
p='/verif/tools/mkmanifest.py'; s=open(p).read()
i,t,n=sys.argv[1:4]
assert '"%s": ("'%i not in s.split("NA = {")[0]
s=s.replace('}\nNA = {',' "%s": (%r,\n         %r),\n}\nNA = {'%(i,t,n),1)
open(p,'w').write(s)
