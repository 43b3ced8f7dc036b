#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the checks which exist under harness/checks (run by hand).
import json, os, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props=[json.loads(l) for l in open('properties.jsonl')]
tech={
 'default':('property-based testing: generated inputs and operation sequences against an explicit oracle (independent encoder/decoder or reference model) under ASan+UBSan, with shrinking','exploration'),
 'C10':('property-based testing with enumerated fault and abort injection: every abort checkpoint and write position of generated saves','fault_enumeration'),
 'C13':('structure-aware fuzzing: generated files of every format, truncated, mutated and spliced, parsed under ASan+UBSan with time/memory/read-only oracles','exploration'),
 'C14':('structure-aware fuzzing: mutated generated files edited and saved under ASan+UBSan with size/backup oracles','exploration'),
}
notes={}
if os.path.exists('tools/notes.json'): notes=json.load(open('tools/notes.json'))
m={'version':1,'setup_cmd':'python3 build.py','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if os.path.exists(f'harness/checks/{i}.cpp'):
        t=tech.get(i,tech['default'])
        m['checks'].append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {i}','evidence_file':f'evidence/{i}.json','technique':t[0],'level':t[1],'level_note':notes.get(i,'generated cases within the bounds given in DESIGN.md; no exhaustive claim')})
    else:
        m['not_applicable'].append({'property':i,'reason':'the technique applies but the check has not been built yet (see DESIGN.md); not claimed'})
m['notes']='Checks are built from the current working tree of /repo into /verif/build (git-ignored) by build.py. No hooks in /repo are needed.'
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
print(len(m['checks']),'checks')
