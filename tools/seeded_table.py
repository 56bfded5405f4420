#!/usr/bin/env python3
"""Which checks report which planted change: rewrites the table in DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chk = os.path.join(root, 'bin', 'chk') if len(sys.argv) < 2 else sys.argv[1]

def one(name):
    d = os.path.join(root, 'seeded', name)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seeded-')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
        home = os.path.join(tmp, 'home')
        os.mkdir(home)
        shutil.copy(os.path.join(root, 'known-findings.txt'), home)
        out = subprocess.run([chk, 'all'], env=dict(os.environ, VERIF_HOME=home, VERIF_REPO=repo, GOMAXPROCS='3'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    return name, meta, sorted(set(re.findall(r'VIOLATION property=(C\d+)', out)))

with ThreadPoolExecutor(3) as ex:
    rows = list(ex.map(one, sorted(os.listdir(os.path.join(root, 'seeded')))))
lines = ['| change | breaks | needs | reported by |', '|---|---|---|---|']
for name, meta, by in rows:
    own = meta['property']
    lines.append('| %s | %s: %s | %s | %s |' % (name, own, meta['what_it_breaks'], meta['needs'], ', '.join(('**%s**' % p) if p == own else p for p in by) or 'nothing'))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
begin, end = '<!-- seeded -->\n', '<!-- /seeded -->\n'
if 'SEEDED-TABLE\n' in s:
    s = s.replace('SEEDED-TABLE\n', begin + end)
i, j = s.index(begin) + len(begin), s.index(end)
open(p, 'w').write(s[:i] + '\n'.join(lines) + '\n' + s[j:])
print(len(rows), 'changes;', [r[0] for r in rows if r[1]['property'] not in r[2]], 'not reported by their own check')
