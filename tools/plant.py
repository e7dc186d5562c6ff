#!/usr/bin/env python3
"""plant.py new <id> <property> <file> <<< 'OLD\n====\nNEW\n====\nneeds\n====\nwhat\n====\ndemo python'   make a seeded bug
   plant.py run [--tests] <id>...   apply each to /repo, build, run demo, (stable tests,) its property's check; undo."""
import sys, os, json, subprocess as sp, glob
V = '/verif/seeded'; R = os.environ.get('R', '/repo')
def sh(c, **k): return sp.run(c, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)
def clean(): return sh('git -C %s status --porcelain' % R + '').stdout.strip() == ''
def new(a):
    id, pid, fn = a[:3]; t = sys.stdin.read().split('\n====\n'); d = V + '/' + id; os.makedirs(d, exist_ok=True)
    assert clean()
    p = os.path.join(R, fn); s = open(p, newline='').read(); crlf = '\r\n' in s
    old, newt = t[0].lstrip('\n'), t[1]
    nth = int(a[3]) if len(a) > 3 else 0
    if crlf: old = old.replace('\n', '\r\n'); newt = newt.replace('\n', '\r\n')
    c = s.count(old)
    assert c > nth, ('occurrences', c)
    if c > 1 and len(a) <= 3: print('ambiguous', c); return
    k = -1
    for _ in range(nth + 1): k = s.index(old, k + 1)
    open(p, 'w', newline='').write(s[:k] + newt + s[k + len(old):])
    diff = sp.run('git -C %s diff --binary' % R, shell=True, stdout=sp.PIPE).stdout
    sh('git -C %s checkout -- .' % R)
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': pid, 'needs': t[2].strip(), 'what_it_breaks': t[3].strip()}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(t[4].strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec timeout 250 python "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    print('made', id)
def run(a):
    tests = '--tests' in a; nodemo = '--nodemo' in a; a = [x for x in a if not x.startswith('--')]
    if a == ['all']: a = sorted(os.path.basename(x) for x in glob.glob(V + '/*'))
    if not nodemo:
        b = sh('bash /opt/vp/build.sh')
        assert b.returncode == 0
        for i in a:
            r = sh('cd /repo && bash %s/%s/demo.sh' % (V, i))
            print('%-32s unchanged demo rc=%d %s' % (i, r.returncode, '' if r.returncode == 0 else '!!!! ' + r.stdout[-300:])); sys.stdout.flush()
    for i in a:
        assert clean()
        m = json.load(open('%s/%s/meta.json' % (V, i)))
        r = sh('git -C /repo apply %s/%s/patch.diff' % (V, i))
        if r.returncode: print(i, 'does not apply', r.stdout); continue
        try:
            line = '%-32s ' % i
            if not nodemo:
                r = sh('bash /opt/vp/build.sh')
                if r.returncode: print(i, 'BUILD', r.stdout[-600:]); continue
                r = sh('cd /repo && bash %s/%s/demo.sh' % (V, i)); line += 'demo rc=%d%s ' % (r.returncode, ' !!!!' if r.returncode == 0 else '')
                if tests:
                    r = sh('bash /opt/vp/test.sh /tmp/plant.json'); o = json.load(open('/tmp/plant.json')); base = json.load(open('/opt/vp/BASELINE.json'))
                    bl = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
                    miss = [x for x in bl if x not in o['passed']]; line += 'tests lost %d%s ' % (len(miss), ' !!!!' + str(miss[:2]) if miss else '')
            r = sh('cd /verif && python3 check.py ' + m['property']); v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + m['property'])]
            line += 'check %s rc=%d %s' % (m['property'], r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'missed')
            print(line)
            if r.returncode not in (0,): print('      ' + '\n      '.join(l[:220] for l in r.stdout.splitlines()[-4:-1]))
            sys.stdout.flush()
        finally: sh('git -C %s checkout -- .' % R)
    if not nodemo: sh('bash /opt/vp/build.sh')
{'new': new, 'run': run}[sys.argv[1]](sys.argv[2:])
