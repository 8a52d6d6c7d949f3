#!/usr/bin/env python3
"""Development tool (no check uses it): turn an edit of /repo into /verif/seeded/<id>/ after confirming that it
builds, passes the stable tests, and that its demonstration passes without it and fails with it.
usage: mkseed.py SPEC.py   (SPEC defines ID, PROP, EDITS=[(file,old,new)], DEMO (C source), NEEDS, BREAKS)"""
import sys,os,subprocess,json
D='''#!/bin/bash
# compiles demo.c against the library built from /repo and runs it in a scratch directory
set -u
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
T=/repo/_build/tree
gcc -O1 -g -w -I/repo/src -I$T -I$T/src "$H/demo.c" -o "$W/demo" -Wl,--gc-sections $T/src/.libs/libnplCurve.a $T/src/.libs/libplCurve.a -lgsl -lgslcblas -lm -lncurses 2>"$W/err" || { cat "$W/err"; exit 2; }
cd "$W" && timeout 60 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
spec={}; exec(open(sys.argv[1]).read(),spec); ID=spec['ID']; d='/verif/seeded/'+ID; os.makedirs(d,exist_ok=True)
open(d+'/demo.c','w').write(spec['DEMO']); open(d+'/demo.sh','w').write(D); os.chmod(d+'/demo.sh',0o755)
assert sh('git -C /repo status --porcelain').stdout.strip()=='' ,'dirty /repo'
ok=True
try:
    r=sh('bash /opt/vp/build.sh >/tmp/b.log 2>&1; cd /repo && bash %s/demo.sh'%d); print('clean demo rc',r.returncode,r.stdout[-400:]); ok&=r.returncode==0
    for f,a,b in spec['EDITS']:
        p='/repo/'+f; s=open(p).read(); assert s.count(a)==1,(f,s.count(a),a); open(p,'w').write(s.replace(a,b))
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    r=sh('bash /opt/vp/build.sh >/tmp/b.log 2>&1'); print('build rc',r.returncode); ok&=r.returncode==0
    r=sh('cd /repo && bash %s/demo.sh'%d); print('patched demo rc',r.returncode,r.stdout[-400:]); ok&=r.returncode not in (0,2)
    sh('bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1'); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json')); miss=sorted(b-set(o['passed'])); print('tests missing',miss[:5]); ok&=not miss
    json.dump({"property":spec['PROP'],"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']},open(d+'/meta.json','w'),indent=1)
    if ok and '--nocheck' not in sys.argv:
        r=sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s quick'%spec['PROP']); print('check rc',r.returncode,r.stdout[-500:])
finally:
    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh >/tmp/b.log 2>&1')
print('OK' if ok else 'NOT KEPT'); 
if not ok: sh('rm -rf '+d)
