#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*.json and tools/na.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
na = json.load(open(root + '/tools/na.json')) if os.path.exists(root + '/tools/na.json') else {}
checks, nas = [], []
for p in props:
    i = p['id']
    f = f'{root}/checks/{i}.json'
    if os.path.exists(f) and i not in na:
        c = json.load(open(f))
        bounds = '; '.join(f"{h['func']}: {h.get('bounds','')}" for h in c['harnesses'])
        checks.append({
            'property': i,
            'quick_cmd': f'./run.sh check {i} quick',
            'thorough_cmd': f'./run.sh check {i} thorough',
            'technique': 'symbolic execution of the Go SSA of /repo with an SMT solver (z3), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': ('Exhaustive over symbolic inputs within bounds, not beyond. ' + c.get('note', '') + ' Bounds: ' + bounds).strip(),
        })
    else:
        nas.append({'property': i, 'reason': na.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './run.sh setup', 'checks': checks, 'not_applicable': nas,
     'notes': 'Engine in engine/ (Go SSA symbolic executor); harnesses in harness/, injected into /repo with go build -overlay; bounds per check in checks/*.json.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(nas), 'not claimed')
