#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py [-n] NAME...  (NAME: a file in tools/plants, without .py, or all)
Each file in tools/plants defines: prop, edits=[(file, old, new)], pkg (the
package directory the demonstration is compiled into, by overlay), demo (Go
test source with TestDemo*), needs, breaks; optionally script (instead of
demo). The result is seeded/NAME. Works on /repo, which is put back."""
import os, sys, json, subprocess, glob, runpy, shutil, tempfile
home=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH='''#!/bin/bash
# run in the root of the repository; fails when the property is broken
. /opt/vp/env.sh 2>/dev/null || true
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$w/overlay.json"
go test -overlay "$w/overlay.json" -vet=off -count=1 %(flags)s -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
def clean(): sh('git -C /repo checkout -- . && git -C /repo clean -fdq -e tmp')
def plant(name):
    d=runpy.run_path(f'{home}/tools/plants/{name}.py')
    out=f'{home}/seeded/{name}'; os.makedirs(out,exist_ok=True)
    if sh('git -C /repo status --short').stdout: sys.exit('/repo is not clean')
    here=os.path.dirname(__file__)
    demo=d.get('demo')
    if demo: 
        open(out+'/demo_test.go','w').write(demo.lstrip())
        open(out+'/demo.sh','w').write(SH%{'pkg':d['pkg'],'flags':d.get('flags','')})
    else: open(out+'/demo.sh','w').write(d['script'].lstrip())
    for n,t in d.get('files',{}).items(): open(out+'/'+n,'w').write(t.lstrip())
    os.chmod(out+'/demo.sh',0o755)
    tmp=tempfile.mkdtemp(); shutil.copytree(out,tmp+'/x'); dm=f'cd /repo && bash {tmp}/x/demo.sh'
    ok=True; msg=[]
    try:
        r=sh(dm); 
        if r.returncode: ok=False; msg.append('demo fails on the clean tree:\n'+r.stdout[-1500:]+r.stderr[-1500:])
        for f,o,n in d['edits']:
            p='/repo/'+f; s=open(p).read()
            if s.count(o)!=1: clean(); return False,f'{f}: {s.count(o)} matches of {o!r}'
            open(p,'w').write(s.replace(o,n))
        open(out+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: ok=False; msg.append('does not build:\n'+r.stderr[-1500:])
        r=sh(dm)
        if r.returncode==0: ok=False; msg.append('demo passes with the patch')
        elif '-v' in sys.argv: msg.append(r.stdout[-800:])
        sh('git -C /repo checkout -- go.sum go.mod')
        j='/tmp/plant.json'
        sh(f'bash /opt/vp/test.sh {j}')
        base=json.load(open('/opt/vp/BASELINE.json')); now=json.load(open(j))
        want=base.get('stable') or base.get('passed') or base
        got=set(now.get('passed',[]))
        miss=[t for t in want if t not in got] if isinstance(want,list) else ['?']
        if miss: ok=False; msg.append('tests broken: '+', '.join(map(str,miss[:5])))
        r=sh(f'cd {home} && timeout 900 ./check.sh {d["prop"]}')
        v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        caught=r.returncode==1 and bool(v)
        det=[l for l in r.stdout.splitlines() if l and 'VIOLATION' not in l][-3:]
        msg.append(('CAUGHT ' if caught else 'MISSED ')+d['prop']+': '+' | '.join(x[:220] for x in det))
        if '-a' in sys.argv:
            r=sh(f'cd {home} && VERIF_HOME={home} timeout 900 bin/chk all')
            msg.append('  all: '+' '.join(sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})))
    finally:
        clean(); shutil.rmtree(tmp)
    json.dump({"property":d['prop'],"needs":d['needs'],"what_it_breaks":d['breaks']},open(out+'/meta.json','w'),indent=1)
    return ok,'\n'.join(msg)
names=[a for a in sys.argv[1:] if a[0]!='-']
if names==['all']: names=sorted(os.path.basename(f)[:-3] for f in glob.glob(home+'/tools/plants/*.py'))
for n in names:
    ok,m=plant(n); print('==',n,'ok' if ok else 'REJECTED'); print(m)
