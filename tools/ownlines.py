#!/usr/bin/env python3
"""Lists the planted bugs all of whose removed lines come from our own commits in /repo."""
import os,re,subprocess,sys
R="/repo"; D=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","seeded")
root=subprocess.run(["git","-C",R,"rev-parse","e58c279~1"],capture_output=True,text=True,check=True).stdout.strip()
blame={}
def own(f):
    if f not in blame:
        o=subprocess.run(["git","-C",R,"blame","-s","-l","HEAD","--",f],capture_output=True,text=True,check=True).stdout.splitlines()
        # a line is original when it is not blamed on a commit after root
        new=set(subprocess.run(["git","-C",R,"rev-list",root+"..HEAD"],capture_output=True,text=True).stdout.split())
        blame[f]=[l.split()[0].lstrip("^") in new or any(c.startswith(l.split()[0].lstrip("^")) for c in new) for l in o]
    return blame[f]
for s in sorted(os.listdir(D)):
    f=None; n=0; orig=0; ours=0
    for l in open(os.path.join(D,s,"patch.diff")):
        if l.startswith("--- a/"): f=l[6:].strip().split("\t")[0]
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l).group(1)); 
        elif l.startswith("-") and not l.startswith("---"):
            if own(f)[n-1]: ours+=1
            else: orig+=1
            n+=1
        elif l.startswith(" "): n+=1
    if ours: print(s,"original lines removed:",orig,"ours:",ours)
