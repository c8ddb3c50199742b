#!/usr/bin/env python3
"""mutants.py N OUT [pkg...]: tries N random small changes of each package that its tests do not notice against the checks of its properties.
Works in /tmp/mutrepo, a copy of /repo; prints those that no check notices.  A tool for finding gaps; no check uses it."""
import json,os,random,subprocess,sys,glob
PK={'textpos':'P01 P02 P03','sexpr':'P05 P04','rdf/iri':'P07 P06 P08','rdf/ntriples':'P10 P09 P11','rdf/rdfxml':'P13 P14 P12','recordinfer':'P15 P30 P16','csvinfer':'P16',
'csvtoproto':'P24 P23','csvtoprotoparse':'P25','textcoder':'P18 P19','csvcoder':'P17','wirepath':'P20 P21','codegen':'P22','service':'P27','protocp':'P26','xmlinfer':'P28','internal/protoreflectcmp':'P29'}
ENV=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOWORK='off',GO111MODULE='on',TZ='UTC')
W='/tmp/mutrepo'
def sh(c,t=600,**k):
    try:
        r=subprocess.run(c,shell=True,env=dict(ENV,**k),cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return 99,'timeout'
n=int(sys.argv[1]); out=open(sys.argv[2],'a'); pk=sys.argv[3:] or list(PK)
subprocess.run(f'rm -rf {W}; cp -a /repo {W}; cd /verif/tools/mutate && go build -o /tmp/mutate .',shell=True,env=ENV,check=True)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
random.seed(int(os.environ.get('MSEED','1')))
for p in pk:
    files=[f for f in glob.glob(f'{W}/{p}/*.go') if not f.endswith(('_test.go','.pb.go','_list_impl.go'))]
    ms=[json.loads(l) for l in subprocess.run(['/tmp/mutate']+files,stdout=subprocess.PIPE,text=True,check=True).stdout.splitlines()]
    random.shuffle(ms); k=0
    _,o=sh(f'go test -json -vet=off -count=1 ./... > /tmp/mut.log; python3 /opt/vp/results.py /tmp/mut.out gojson:/tmp/mut.log')
    basefail=set(json.load(open('/tmp/mut.out'))['failed'])
    for m in ms:
        if k>=n: break
        src=open(m['File'],'rb').read()
        open(m['File'],'wb').write(src[:m['Start']]+m['New'].encode()+src[m['End']:])
        try:
            rc,_=sh('go build ./...',120)
            if rc: continue
            rc,_=sh('timeout 60 go test -json -vet=off -count=1 -timeout 50s ./... > /tmp/mut.log; python3 /opt/vp/results.py /tmp/mut.out gojson:/tmp/mut.log',120)
            r=json.load(open('/tmp/mut.out'))
            if base-set(r['passed']): continue
            k+=1; res='SURVIVED'; log=[]
            for c in PK[p].split():
                rc,o=sh(f'cd /verif && timeout 240 /tmp/xtv check {c} quick',300,XTV_REPO=W,XTV_VERIF='/tmp/mutverif')
                log.append(f'{c}:{rc}')
                if rc==1 and 'VIOLATION' in o: res='killed'; break
            out.write(f"{res} {' '.join(log)} {m['File'][len(W)+1:]}:{m['Line']} {m['Func']} {m['What']!r} -> {m['New']!r}\n"); out.flush()
        finally: open(m['File'],'wb').write(src)
