#!/usr/bin/env python3
import json,glob,re,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
D='tools/design/'
head,pm,tail=(open(D+f).read() for f in('head.md','P.md','tail.md'))
prose={m[1]:m[2].strip() for m in re.finditer(r'^## (P\d\d)\n(.*?)(?=^## |\Z)',pm,re.S|re.M)}
props=[json.loads(l) for l in open('properties.jsonl')]
seeds={}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append((f.split('/')[1],m))
fixes={}
for l in open('known_findings.txt'):
    m=re.match(r'fixed: property=(P\d\d) (\w+) (.*)',l)
    if m: fixes.setdefault(m[1],[]).append((m[2],m[3]))
def one(s): return re.sub(r'\s+',' ',str(s)).replace('|','\\|').strip()
out=[head]
for p in props:
    i=p['id']; c=json.load(open(f'checks/{i}.json'))
    out.append(f"### {i} — {p['title']}\n\n{prose[i]}\n\n| harness | bounds | quick | thorough |\n|---|---|---|---|\n")
    for h in c['harnesses']:
        q=h.get('quick') or {}; t=h.get('thorough') or {}
        s=lambda d:', '.join(f'{k}={v}' for k,v in d.items()) or '–'
        out.append(f"| {h['pkg']}.{h['func']} | {one(h.get('bounds',''))} | {'–' if h.get('thorough_only') else s(q)} | {s(t)} |\n")
    if c.get('assumptions'): out.append('\nAssumptions: '+'; '.join(c['assumptions'])+'.\n')
    if i in fixes: out.append('\nDefects found and repaired: '+'; '.join(f'`{a}` {one(b)}' for a,b in fixes[i])+'.\n')
    if i in seeds: out.append('\nPlanted bugs caught: '+', '.join(a for a,_ in seeds[i])+'.\n')
    out.append('\n')
n=sum(map(len,seeds.values()))
out.append(f"## 6. Planted bugs\n\n{n} planted bugs are kept in `seeded/`, each written from a property's text and the code. `tools/seed.py` validates each one (applies, builds,\nstable tests pass, demonstration passes on the clean tree and fails on the changed one) and runs the check. All are caught by the quick check of their property; those missed at first led to stronger checks (further harnesses, longer bounds, new models) and were run again.\n\n| id | property | needs |\n|---|---|---|\n")
for i in sorted(seeds):
    for a,m in seeds[i]: out.append(f"| {a} | {i} | {one(m['needs'])} |\n")
out.append('\n'+tail)
open('DESIGN.md','w').write(''.join(out))
