#!/usr/bin/env python3
"""Runs the analyser on edited copies of /repo: mutate.py [-b] [-j N] [REGEX]
tools/mutants/*.py call bug(name, "C01 C02", (file, old, new)...) for an edit
that must be reported by these properties, and same(name, (file, old, new)...)
for one that changes no behaviour, on which all claimed ones must be quiet."""
import os, sys, re, glob, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
home=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L=[]
def bug(name,props,*edits): L.append((name,props.split(),edits))
def same(name,*edits): L.append((name,None,edits))
for f in sorted(glob.glob(home+'/tools/mutants/*.py')): exec(compile(open(f).read(),f,'exec'),{'bug':bug,'same':same})
args=sys.argv[1:]; jobs=6
verbose='-v' in args
if verbose: args.remove('-v')
if '-j' in args: i=args.index('-j'); jobs=int(args[i+1]); del args[i:i+2]
rx=re.compile(args[0]) if args else re.compile('')
chk=tempfile.mkdtemp(prefix='mut')+'/chk'
subprocess.check_call(['go','build','-o',chk,'.'],cwd=home+'/checker')
allp=[json.loads(l)['id'] for l in open(home+'/properties.jsonl')]
have=subprocess.run([chk,'-list'],capture_output=True,text=True).stdout.split()
allp=[p for p in allp if p in have]
def run(m):
    name,props,edits=m
    d=tempfile.mkdtemp(prefix='mut')
    try:
        r=d+'/repo'; shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('.git','tmp'))
        for f,o,n in edits:
            p=r+'/'+f
            if o=='' : open(p,'a').write(n); continue
            s=open(p).read()
            if s.count(o)!=1: return name,'EDIT',f'{f}: {s.count(o)} matches of {o[:60]!r}'
            open(p,'w').write(s.replace(o,n))
        b=subprocess.run(['go','vet' if False else 'build','./...'],cwd=r,capture_output=True,text=True,env={**os.environ,'GOFLAGS':'','GOPROXY':'off','GOWORK':'off','GOTOOLCHAIN':'local'})
        if b.returncode: return name,'BUILD',b.stderr[-400:]
        os.makedirs(d+'/home')
        shutil.copy(home+'/known-findings.txt',d+'/home')
        want=props or allp
        x=subprocess.run([chk]+want,capture_output=True,text=True,timeout=1500,env={**os.environ,'VERIF_REPO':r,'VERIF_HOME':d+'/home'})
        viol=re.findall(r'^VIOLATION property=(\S+)',x.stdout,re.M)
        det=[l.replace(r,'') for l in x.stdout.splitlines() if l.startswith(('rule','   '))]
        if x.returncode not in (0,1) or x.stderr.strip(): return name,'BROKEN',(x.stderr+x.stdout)[-600:]
        if props:
            miss=[p for p in props if p not in viol]
            return name,('MISSED '+' '.join(miss)) if miss else 'ok', '' if miss else (det[-1][:200] if det else '')
        return name,('ALARM '+' '.join(viol)) if viol else 'ok','\n'.join(x[:260] for x in det[:12])
    except Exception as e: return name,'ERROR',repr(e)
    finally: shutil.rmtree(d,ignore_errors=True)
todo=[m for m in L if rx.search(m[0])]
bad=0
with ThreadPoolExecutor(jobs) as ex:
    for name,st,det in ex.map(run,todo):
        if st!='ok': bad+=1
        if st!='ok' or verbose: print(f'{st:12} {name}: {det}')
        sys.stdout.flush()
print(f'{len(todo)} edits, {bad} not as expected')
shutil.rmtree(os.path.dirname(chk))
