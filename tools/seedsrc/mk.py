#!/opt/venv/bin/python
"""Make and confirm the planted changes: mk.py [ID...]."""
import sys, os, json, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
OUT = '/verif/seeded'
W = '/tmp/scratch/seedwt'
base = json.load(open('/opt/vp/BASELINE.json'))

def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)

todo = sys.argv[1:] or [s['id'] for s in SEEDS]
os.makedirs('/tmp/scratch', exist_ok=True)
for s in SEEDS:
    if s['id'] not in todo:
        continue
    shutil.rmtree(W, True)
    sh('git clone -q /repo %s' % W, '/')
    p = os.path.join(W, 'freesif', s['file'])
    t = open(p).read()
    n = t.count(s['old'])
    if n != s.get('count', 1):
        print(s['id'], 'OLD TEXT COUNT', n); continue
    if s.get('all'):
        t = t.replace(s['old'], s['new'])
    else:
        i = -1
        for _ in range(s.get('nth', 1)):
            i = t.index(s['old'], i + 1)
        t = t[:i] + s['new'] + t[i+len(s['old']):]
    open(p, 'w').write(t)
    for f2, o2, n2 in s.get('also', ()):
        p2 = os.path.join(W, 'freesif', f2)
        t = open(p2).read(); assert t.count(o2) == 1, (s['id'], o2)
        open(p2, 'w').write(t.replace(o2, n2))
    diff = sh('git diff', W).stdout
    # removed lines must be original ones
    blame = sh('git diff -U0 --stat', W)
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(HERE + '/sif.py', d)
    open(d + '/demo.py', 'w').write('from sif import *\n' + s['demo'])
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'],
               'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok = sh('bash %s/demo.sh' % d, '/repo')
    bad = sh('bash %s/demo.sh' % d, W)
    tests = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | grep -E "passed|failed" | tail -1', W,
               env=dict(os.environ, PYTHONPATH=W))
    orig = []
    import re
    for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0', W).stdout, re.M):
        a, c = int(m.group(1)), int(m.group(2) or 1)
        if c:
            b = sh('git blame -s -L %d,%d HEAD -- freesif/%s' % (a, a + c - 1, s['file']), W).stdout
            orig.append(all(l.startswith('^b5ab21a') or not l.split()[0].lstrip('^') in FIXES for l in b.splitlines()) if 0 else b[:9])
    print(s['id'], 'demo ok' if ok.returncode == 0 else 'DEMO FAILS ON CLEAN ' + ok.stderr[-600:],
          '| with patch:', 'fails' if bad.returncode else 'DEMO PASSES',
          '|', tests.stdout.strip().splitlines()[-1:], '| blame', orig)
    if bad.returncode:
        print('      ', bad.stderr.strip().splitlines()[-1:][:1])
shutil.rmtree(W, True)
