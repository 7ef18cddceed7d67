#!/usr/bin/env python3
"""Makes planted bugs: seed.py SPECFILE[:ID,ID...]...

A spec file is Python defining SEEDS, a list of dicts with ID, PROPERTY, NEEDS,
BREAKS, DIR (package directory of the demonstration), EDITS = [(file, old,
new)...], DEMO (Go test source with TestDemo) and optionally FLAGS and ENVS. The change is made in a scratch copy of /repo,
confirmed (builds, stable tests pass, the demonstration passes without and
fails with it), and stored in /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile
BASE='1c95dec'
ENV=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOFLAGS='-mod=mod', GOTOOLCHAIN='local', GOPROXY='off', HOME='/root', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=ENV, text=True, capture_output=True, **k)
DEMO='''#!/bin/bash
# Runs the test beside this file inside the package %(dir)s.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
%(envs)sexport GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d /tmp/rapdemo.XXXXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(dir)s/zz_demo_test.go" "$D/demo_test.go.txt" >"$T/overlay.json"
export TMPDIR=$T
go test -overlay "$T/overlay.json" -run '^TestDemo$' -count=1 %(flags)s ./%(dir)s
'''
def main(ns):
    out='/verif/seeded/'+ns['ID']
    wt=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    try:
        subprocess.check_call(['cp','-a','/repo/.',wt])
        sh(['git','checkout','-q','--','.'],wt)
        for f,a,b in ns['EDITS']:
            p=os.path.join(wt,f); s=open(p).read()
            if s.count(a)!=1: return f'{ns["ID"]}: {f}: pattern occurs {s.count(a)} times: {a[:60]!r}'
            open(p,'w').write(s.replace(a,b))
        r=sh(['gofmt','-l']+[f for f,_,_ in ns['EDITS']],wt)
        if r.stdout.strip() or r.returncode: return f'{ns["ID"]}: gofmt {r.stdout} {r.stderr}'
        diff=sh(['git','diff'],wt).stdout
        # at least one removed line stems from the original repository
        orig=0
        blame={}
        for l in diff.splitlines():
            if l.startswith('--- a/'): f=l[6:]
            elif l.startswith('@@'): n=int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and not l.startswith('---'):
                b=sh(['git','blame','-s','-L',f'{n},{n}','HEAD','--',f],wt).stdout
                if b.startswith('^'+BASE[:6]) or b[:7]==BASE: orig+=1
                n+=1
            elif not l.startswith('+'): 
                try: n+=1
                except NameError: pass
        if not orig: return f'{ns["ID"]}: no original line changed'
        os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        open(out+'/demo_test.go.txt','w').write(ns['DEMO'])
        open(out+'/demo.sh','w').write(DEMO%dict(dir=ns['DIR'],flags=ns.get('FLAGS',''),envs=''.join('export %s\n'%e for e in ns.get('ENVS',[]))))
        os.chmod(out+'/demo.sh',0o755)
        json.dump(dict(property=ns['PROPERTY'],needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(out+'/meta.json','w'),indent=1)
        def fail(m):
            shutil.rmtree(out); return f'{ns["ID"]}: {m}'
        r=sh(['bash',out+'/demo.sh'],wt,timeout=280)
        if r.returncode==0: return fail('demo passes with the patch')
        if 'build failed' in r.stdout or 'setup failed' in r.stdout: return fail('demo does not build: '+r.stdout+r.stderr)
        why=r.stdout
        r=sh(['env','GODEBUG=randautoseed=0','go','test','-json','-vet=off','-count=1','./...'],wt,timeout=600)
        failed=set()
        passed=set()
        for l in r.stdout.splitlines():
            try: e=json.loads(l)
            except ValueError: continue
            if 'Test' in e and e['Action'] in('pass','fail'):
                (passed if e['Action']=='pass' else failed).add(e['Package']+'/'+e['Test'])
        stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        bad=sorted(stable-passed)
        if bad: return fail(f'tests fail: {bad[:4]} ({len(bad)})\n'+why[-600:])
        sh(['git','checkout','-q','--','.'],wt)
        r=sh(['bash',out+'/demo.sh'],wt,timeout=280)
        if r.returncode!=0: return fail('demo fails without the patch: '+r.stdout[-1500:]+r.stderr[-500:])
        return f'{ns["ID"]}: ok ({ns["PROPERTY"]}) '+' '.join(x.strip() for x in why.splitlines() if 'demo_test' in x or 'panic:' in x)[:150]
    finally:
        shutil.rmtree(wt)
if __name__=='__main__':
    import concurrent.futures as cf
    todo=[]
    for a in sys.argv[1:]:
        f,_,ids=a.partition(':')
        ns={}
        exec(open(f).read(),ns)
        todo+=[x for x in ns['SEEDS'] if not ids or x['ID'] in ids.split(',')]
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(main,todo): print(r,flush=True)
