"""Plants a bug: plant(id, property, edits, pkg, test, needs, breaks, mod='.')
edits: [(file, old, new)]; writes /verif/seeded/<id>/ and verifies it."""
import os, subprocess, json, shutil, sys
R='/repo'
DEMO='''#!/bin/sh
# Runs the demonstration test in the module of the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap '/bin/rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOENV=off CGO_ENABLED=%(cgo)s GO111MODULE=on
export HOME=${HOME:-/root}
printf 'go 1.25\\n\\nuse (\\n\\t%%s\\n\\t%%s/autoversion\\n)\\n' "$R" "$R" > "$T/go.work"
export GOWORK="$T/go.work"
GO=/opt/veriftools/go%(go)s/bin/go
[ -x "$GO" ] || GO=go
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/zz_demo_test.go"}}' "$R" "$T" > "$T/ov.json"
cd "$R/%(pkg)s" || exit 1
timeout 250 "$GO" test %(flags)s -vet=off -count=1 -timeout 200s -overlay "$T/ov.json" -run '^TestVerifDemo' . > "$T/out" 2>&1
rc=$?
tail -n 15 "$T/out"
exit $rc
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def plant(id, prop, edits, pkg, test, needs, breaks, go='1.27.3', flags='', cgo='0'):
    d=f'/verif/seeded/{id}'
    assert sh('git','-C',R,'status','--porcelain').stdout=='' , 'dirty repo'
    os.makedirs(d,exist_ok=True)
    open(d+'/demo_test.go.txt','w').write(test)
    open(d+'/demo.sh','w').write(DEMO%dict(pkg=pkg,go=go,flags=flags,cgo=cgo)); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    msgs=[]
    p=sh('sh',d+'/demo.sh',cwd=R)
    if p.returncode: msgs.append('DEMO FAILS ON CLEAN: '+(p.stdout+p.stderr)[-1500:])
    try:
        for f,old,new in edits:
            s=open(f'{R}/{f}').read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(f'{R}/{f}','w').write(s.replace(old,new))
        for f in {e[0] for e in edits}:
            if f.endswith('.go'):
                g=sh('gofmt','-l',f'{R}/{f}').stdout
                if g: msgs.append('gofmt '+g)
        open(d+'/patch.diff','w').write(sh('git','-C',R,'diff').stdout)
        b=sh('bash','/opt/vp/build.sh')
        if b.returncode: msgs.append('BUILD FAILS '+(b.stdout+b.stderr)[-800:])
        sh('bash','/opt/vp/test.sh','/tmp/plant_out.json')
        o=json.load(open('/tmp/plant_out.json'))
        if o['failed']: msgs.append('TESTS FAIL: %d %s'%(len(o['failed']),o['failed'][:3]))
        p=sh('sh',d+'/demo.sh',cwd=R)
        if p.returncode==0: msgs.append('DEMO PASSES WITH PATCH')
        out=(p.stdout)[-300:]
    finally:
        sh('git','-C',R,'checkout','--','.')
    print(id, 'OK' if not msgs else msgs)
    if not msgs: print('   ',out.replace('\n',' | ')[:250])
    return not msgs
