#!/usr/bin/env python3
"""Generates DESIGN.md (run by hand; no check uses it)."""
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V+'/tools/oracles.py').read())
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
m=json.load(open(V+'/MANIFEST.json')); na={x['property']:x['reason'] for x in m.get('not_applicable',[])}
out=[open(V+'/tools/design_head.md').read()]
out.append('## 3. The properties\n\n')
for d in sorted(props,key=lambda d:d['id']):
    i=d['id']; out.append('### %s %s\n\n'%(i,d['title']))
    if i in na: out.append('Not applicable: %s\n\n'%na[i]); continue
    src=open('%s/checks/%s.c'%(V,i)).read()
    get=lambda k:re.findall(r'^//%s (.*)$'%k,src,re.M)
    fn=', '.join('`%s`'%x['name'] for x in d['anchors']['mechanism'])
    out.append('Symbolically executed: %s and everything they call. %s\n\n'%(fn,O.get(i,'')))
    for b in get('BOUND'): out.append('- Bounds: %s\n'%b)
    for b in get('STUB'): out.append('- Stub: %s\n'%b)
    ent=sorted(set(re.findall(r'^//JOB (\w+)',src,re.M)))
    out.append('- Entry points: %s\n\n'%', '.join('`%s`'%e for e in ent))
kf=json.load(open(V+'/known_findings.json'))
fixed=[x for x in kf if isinstance(x,str)]; known=[x for x in kf if not isinstance(x,str)]
out.append('## 4. Defects found on the original tree\n\nAll %d were shown with a failing input on the real code and repaired by one small `fix:` commit each; %s.\n\n'%(len(fixed),'none is left as a known finding' if not known else '%d are left as known findings'%len(known)))
for x in fixed: out.append('- '+re.sub(r'^fixed: property=(\S+) (\S+) ',r'\1 (`\2`): ',x)+'\n')
for x in known: out.append('- known finding, %s: %s\n'%(x['property'],x['what']))
out.append('\n## 5. Planted bugs and which checks catch them\n\n| change | property | needs | caught by |\n|---|---|---|---|\n')
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); out.append('| %s | %s | %s | %s |\n'%(os.path.basename(os.path.dirname(f)),d['property'],d['needs'].replace('|','/'),d.get('caught','%s (quick)'%d['property'])))
out.append('\n'+open(V+'/tools/design_tail.md').read())
open(V+'/DESIGN.md','w').write(''.join(out))
