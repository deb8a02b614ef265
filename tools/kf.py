#!/usr/bin/env python3
"""kf.py fixed PROP COMMIT WHAT | kf.py known PROP SIG WHAT : append to known_findings.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st, prop, x, what = sys.argv[1:5]
d = {"property": prop, "status": st}
if st == "fixed": d.update(commit=x, what=what, record="fixed: property=%s %s %s" % (prop, x, what))
else: d.update(sig=x, what=what)
open(os.path.join(V, "known_findings.jsonl"), "a").write(json.dumps(d) + "\n")
