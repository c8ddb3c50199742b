#!/usr/bin/env python3
"""Plants a bug and confirms it.

seed.py SPEC.json [--check]   SPEC: {id, property, pkg, edits:[[file, old, new],...], demo (Go test source), needs, what_it_breaks}
Writes /verif/seeded/<id>/ when the change builds, the affected repository's stable tests pass, and the demo
passes without and fails with the change.  Runs the property's check on the changed scratch copy and prints whether it was caught.
"""
import json, os, subprocess, sys, shutil
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', GO111MODULE='on', TZ='UTC')
W = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# Demonstration: runs the Go test beside this file inside package {pkg} of the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on TZ=UTC
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{pkg}/zz_demo_test.go" "$D/demo_test.go" > "$T/ov.json"
go test -vet=off -count=1 -timeout 120s {race}-overlay "$T/ov.json" -run '^TestZZDemo$' "./{pkg}"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    sh(f'rm -rf {W}; cp -a /repo {W}')
def main():
    spec = json.load(open(sys.argv[1])) if sys.argv[1] != '-' else json.load(sys.stdin)
    sid = spec['id']
    d = f'/verif/seeded/{sid}'
    scratch()
    os.makedirs(d, exist_ok=True)
    open(d + '/demo_test.go', 'w').write(spec['demo'])
    open(d + '/demo.sh', 'w').write(DEMO.format(pkg=spec['pkg'], race='-race ' if spec.get('race') else ''))
    os.chmod(d + '/demo.sh', 0o755)
    r = sh(f'bash {d}/demo.sh', cwd=W)
    if r.returncode != 0:
        print('demo fails on the unchanged tree:\n' + r.stdout[-3000:]); return 1
    for f, old, new in spec['edits']:
        p = f'{W}/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            print(f'{f}: {s.count(old)} occurrences of {old!r}'); return 1
        open(p, 'w').write(s.replace(old, new))
    sh('git diff > /tmp/seed.diff', cwd=W)
    base_rev = sh('git rev-list --max-parents=0 HEAD', cwd=W).stdout.split()[0]
    old = set(sh('git ls-files | grep "[.]go$" | while read f; do git show %s:"$f"; done' % base_rev, cwd=W).stdout.splitlines())
    gone = [l[1:] for l in open('/tmp/seed.diff') if l.startswith('-') and not l.startswith('---')]
    new = [l for l in gone if l.rstrip('\n') not in old]
    if not gone or new:
        print('changed lines that are not of the original:', new or 'none changed'); return 1
    r = sh('go build ./... && go vet -vettool=/bin/true ./... ; go build ./...', cwd=W)
    if r.returncode != 0:
        print('build fails:\n' + r.stdout[-3000:]); return 1
    r = sh(f'bash {d}/demo.sh', cwd=W)
    if r.returncode == 0:
        print('demo passes with the change'); return 1
    demo_out = r.stdout[-600:]
    r = sh("go test -json -vet=off -count=1 -timeout 5m ./... > /tmp/seed.log; python3 /opt/vp/results.py /tmp/seed.out gojson:/tmp/seed.log", cwd=W)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    got = set(json.load(open('/tmp/seed.out'))['passed'])
    miss = [t for t in base if t not in got]
    if miss:
        print('stable tests fail with the change:', miss[:10]); return 1
    shutil.copy('/tmp/seed.diff', d + '/patch.diff')
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(f'{sid}: confirmed. demo says: {demo_out.strip()[-300:]}')
    return check(sid, spec['property'])
def check(sid, prop):
    e = dict(ENV, XTV_REPO=W)
    r = subprocess.run(['/verif/run.sh', 'check', prop, 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd='/verif')
    caught = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
    print(f'{sid} {prop}:', 'CAUGHT' if caught else f'MISSED (rc={r.returncode})')
    v = [l for l in r.stderr.splitlines() if 'VIOLATION' in l]
    print((v[0] if v else r.stderr[-1500:])[:400])
    return 0
def recheck(ids):
    for sid in ids:
        scratch()
        d = f'/verif/seeded/{sid}'
        r = sh(f'git apply {d}/patch.diff', cwd=W)
        if r.returncode:
            print(sid, 'does not apply', r.stdout); continue
        check(sid, json.load(open(d + '/meta.json'))['property'])
if __name__ == '__main__':
    if sys.argv[1] == '--recheck':
        recheck(sys.argv[2:] or sorted(os.listdir('/verif/seeded')))
    else:
        sys.exit(main())
