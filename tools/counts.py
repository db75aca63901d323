#!/usr/bin/env python3
"""Copies the numbers of cases of the checks into the table of DESIGN.md."""
import re,glob,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
c={}
for f in glob.glob(R+"/harness/c_*.go"):
    for m in re.finditer(r'ID: "(C\d+)", Quick: (\d+), Thorough: (\d+)',open(f).read()): c[m[1]]=(int(m[2]),int(m[3]))
def k(n): return f"{n//1000} k" if n>=1000 else str(n)
out=[]
for l in open(R+"/DESIGN.md").read().splitlines():
    m=re.match(r'\| (C\d+)(, C\d+)? \|',l)
    if m and m[1] in c and l.count("|")==5: l=re.sub(r'\| [^|]* \|$',f"| {k(c[m[1]][0])} / {k(c[m[1]][1])} |",l)
    out.append(l)
open(R+"/DESIGN.md","w").write("\n".join(out)+"\n")
