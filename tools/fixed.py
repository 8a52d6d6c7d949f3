#!/usr/bin/env python3
# usage: fixed.py P08 <n-back> "what failed": append a fixed entry for the /repo commit HEAD~n
import json,subprocess,sys
f='/verif/known_findings.json'; k=json.load(open(f))
h=subprocess.run(['git','-C','/repo','log','--format=%h','-1','--skip',sys.argv[2]],capture_output=True,text=True).stdout.strip()
k.append(f'fixed: property={sys.argv[1]} {h} {sys.argv[3]}'); json.dump(k,open(f,'w'),indent=1)
