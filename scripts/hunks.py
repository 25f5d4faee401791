#!/usr/bin/env python3
"""list the hunks of /repo's working diff, or stage the ones named: hunks.py [n ...]"""
import subprocess,sys,re
d=subprocess.run(["git","-C","/repo","diff","-U3"],capture_output=True,text=True).stdout
files=re.split(r'(?m)^(?=diff --git )',d)[1:]
hs=[]
for f in files:
    parts=re.split(r'(?m)^(?=@@ )',f)
    for h in parts[1:]: hs.append((parts[0],h))
sel=[int(x) for x in sys.argv[1:]]
if not sel:
    for i,(h,b) in enumerate(hs):
        print(f"=== {i} {h.split()[3]}"); print("\n".join(l[:110] for l in b.splitlines() if l[:1] in "+-@")[:600])
else:
    out="";last=None
    for i in sel:
        if hs[i][0]!=last: out+=hs[i][0]; last=hs[i][0]
        out+=hs[i][1]
    r=subprocess.run(["git","-C","/repo","apply","--cached","--recount","-"],input=out,text=True)
    sys.exit(r.returncode)
