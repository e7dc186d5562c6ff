#!/usr/bin/env python3
"""mut.py FILE PIDS [nth] < 'OLD\n====\nNEW' : run checks against a scratch copy of the sources with one textual change (many changes: separated by lines '########')"""
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
f, pids = sys.argv[1], sys.argv[2].split(',')
RP = os.environ.get('R', '/repo')
muts = sys.stdin.read().split('########\n')
def one(k):
    m = muts[k]; a = m.split('\n====\n'); old = a[0].strip('\n'); new = a[1].rstrip('\n') if len(a) > 1 else ''
    ff = f
    if old.startswith('@'): l, old = old.split('\n', 1); ff = l[1:].strip()
    s = open(RP + '/src/' + ff).read()
    if s.count(old) < 1: return '%d: NOT FOUND %r' % (k, old[:60])
    d = tempfile.mkdtemp(prefix='mut'); shutil.copytree(RP + '/src', d + '/src', ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    open(d + '/src/' + ff, 'w').write(s.replace(old, new, 1))
    out = []
    for p in pids:
        r = subprocess.run([sys.executable, os.environ.get('V', '/verif') + '/check.py', p], env=dict(os.environ, PNUMPY_REPO=d, PNUMPY_CACHE=d + '/c'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out.append('%s rc=%d %s' % (p, r.returncode, ' | '.join(l.strip()[:230] for l in r.stdout.splitlines() if ': [' in l or 'undecided [' in l or 'Error' in l or 'error' in l)[:480]))
    shutil.rmtree(d)
    return '%d (%d uses) [%s]: %s' % (k, s.count(old), new.strip()[:70].replace('\n', ' '), '\n     '.join(out))
with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for r in ex.map(one, range(len(muts))): print(r, flush=True)
