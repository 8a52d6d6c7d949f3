#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from the list below (run by hand; checks do not use it)."""
import json
SRC='src/'
P=[]   # (id,title,statement,over,qtext,why,files,mech,observe,level_note)
NA=[]
def p(id,title,statement,qtext,why,files,mech,observe,note='',over=('inputs',)):
    P.append(dict(id=id,title=title,statement=statement,over=list(over),qtext=qtext,why=why,files=files,mech=mech,observe=observe,note=note))
def na(id,title,statement,qtext,why,files,mech,observe,reason,over=('inputs',)):
    P.append(dict(id=id,title=title,statement=statement,over=list(over),qtext=qtext,why=why,files=files,mech=mech,observe=observe,note=None)); NA.append((id,reason))
exec(open(__file__.replace('props.py','proplist.py')).read())
if __name__=='__main__':
    with open('/verif/properties.jsonl','w') as f:
        for x in P:
            assert len(x['title'])<=80,x['id']
            f.write(json.dumps(dict(id=x['id'],title=x['title'],statement=x['statement'],quantifier=dict(over=x['over'],text=x['qtext']),why_tests_cant=x['why'],
              anchors=dict(files=x['files'],mechanism=[dict(name=a,where=b) for a,b in x['mech']],observe_at=x['observe'],hook_needed=None)))+'\n')
    na_ids={i for i,_ in NA}
    m=dict(version=1,setup_cmd='bash setup.sh',hooks=dict(guard='none (no hooks were needed: the checks compile the unmodified sources to LLVM IR)',enable='nothing to enable',source_commits=[]),
      checks=[dict(property=x['id'],quick_cmd='python3 run.py %s quick'%x['id'],thorough_cmd='python3 run.py %s thorough'%x['id'],
        technique='symbolic execution of the LLVM IR compiled from the current sources, assertions decided by z3, counterexamples replayed natively',level='model_checking',
        level_note='Holds for every value of the symbolic inputs within the bounds listed in the evidence (and at the top of checks/%s.c). Trusts clang -O0/-O1 IR generation, the executor in engine/, z3, and the C-library model in engine/rt.c; floating point is interpreted as exact real arithmetic where inputs are symbolic reals. %s'%(x['id'],x['note'])) for x in P if x['id'] not in na_ids],
      not_applicable=[dict(property=i,reason=r) for i,r in NA])
    json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
    print(len(P),'properties',len(m['checks']),'claimed')
