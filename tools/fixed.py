#!/usr/bin/env python3
# Rewrites the "fixed:" lines of known_findings.txt from the fix: commits of /repo (run by hand; checks never do).
import subprocess,re,os
here=os.path.dirname(os.path.abspath(__file__))
F=os.path.join(here,'..','known_findings.txt')
prop=[l.rstrip('\n').split('\t') for l in open(os.path.join(here,'fixprops.tsv'))]
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]
    for pre,p in prop:
        if s.startswith(pre): break
    else: raise SystemExit('no property for: '+s)
    out.append(f'fixed: property={p} {h} {s}')
keep=[l.rstrip('\n') for l in open(F) if not l.startswith('fixed:')] if os.path.exists(F) else ['# Known findings (KNOWN-FINDING lines are matched by checks) and repaired defects (fixed: lines suppress nothing).']
open(F,'w').write('\n'.join(keep+out)+'\n')
