#!/usr/bin/env python3
# Generates /verif/known_findings.txt from tools/fixed.tsv (repaired defects) and tools/known.txt (recorded ones).
import subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
log={}
for l in subprocess.check_output(['git','-C','/repo','log','--format=%h\t%s'],text=True).splitlines():
    h,s=l.split('\t',1); log.setdefault(s,h)
out=['# Defects found by the checks. "fixed:" lines record repairs and suppress nothing; "known:" lines are findings which are','# reported as KNOWN-FINDING and identified by the check\'s failure key for the recorded input.']
used=set()
for l in open('tools/fixed.tsv'):
    l=l.rstrip('\n')
    if not l: continue
    p,s=l.split('\t',1)
    assert s in log,s
    used.add(s)
    out.append(f'fixed: property={p} {log[s]} {s[5:]}')
for s in log:
    if s.startswith('fix:') and s not in used: print('unrecorded:',s)
if os.path.exists('tools/known.txt'):
    out+= [l.rstrip('\n') for l in open('tools/known.txt') if l.strip()]
open('known_findings.txt','w').write('\n'.join(out)+'\n')
