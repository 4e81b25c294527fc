#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the properties registered in harness/*.go."""
import json,re,glob,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
reg=set()
for f in glob.glob('harness/*.go'):
    reg|=set(re.findall(r'register(?:\[[^\]]*\])?\("(P\d+)"',open(f).read()))
NOTE={
 'default':'Searched, not proved: the number of generated cases is in the evidence file. The oracle is independent of the code under test; trusted are the Go toolchain, rapid and the harness.',
 'gnu':'Searched, not proved. Trusts the installed GNU gettext 0.21 as reference, restricted to content it represents faithfully.',
}
GNU={'P02','P08'}
TECH={'P02':'property-based testing: differential against GNU gettext','P08':'property-based testing: differential against GNU gettext, both directions',
 'P04':'structured fuzzing of text and byte inputs against crash, determinism and reporting invariants','P09':'structured fuzzing of MO bytes with an allocation bound',
 'P13':'property-based testing with injected write faults','P32':'stateful model-based property testing','P27':'stateful model-based property testing','P33':'stateful property-based testing against fresh instances',
 'P39':'property-based testing under the race detector against sequential results'}
checks=[];na=[]
for l in open('properties.jsonl'):
    p=json.loads(l);i=p['id']
    if i in reg:
        checks.append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {i}','evidence_file':f'evidence/{i}.json',
          'technique':TECH.get(i,'property-based testing: generated cases against an independent oracle, with shrinking'),
          'level':'exploration','level_note':NOTE['gnu' if i in GNU else 'default']})
    else: na.append({'property':i,'reason':'check not built yet'})
m={'version':1,'setup_cmd':'./setup.sh','hooks':{'guard':'none','enable':'no hooks: the checks use the public API and the built tools','source_commits':[]},'checks':checks,'not_applicable':na}
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False);print(len(checks),'claimed',len(na),'not')
