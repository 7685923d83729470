#!/usr/bin/env python3
"""plant.py NAME...: confirm the planted bugs of /verif/seeded one after another in /repo (apply, build, stable tests, demo, checks, undo)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def sh(cmd, cwd='/repo', t=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(S))
assert not sh('git status --porcelain')[1].strip(), '/repo is not clean'
if '--clean' in sys.argv:
    rc, o = sh('bash /opt/vp/build.sh')
    assert rc == 0
    for n in names:
        rc, o = sh('bash %s/%s/demo.sh' % (S, n))
        print('clean demo', n, rc, '' if rc == 0 else o[-600:], flush=True)
for n in names:
    d = os.path.join(S, n)
    meta = json.load(open(d + '/meta.json'))
    try:
        rc, o = sh('git apply %s/patch.diff' % d)
        if rc:
            print(n, 'PATCH FAILS', o)
            continue
        rc, o = sh('bash /opt/vp/build.sh')
        b = rc
        if rc:
            print(n, 'BUILD FAILS', o[-800:])
            continue
        rc, o = sh('bash /opt/vp/test.sh /tmp/plant.json')
        t = json.load(open('/tmp/plant.json'))
        rc2, o2 = sh('bash %s/demo.sh' % d)
        out = []
        ps = [meta['property']] if '--all' not in sys.argv else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
        for p in ps:
            rc3, o3 = sh('python3 check.py %s' % p, V)
            v = [l for l in o3.splitlines() if l.startswith('VIOLATION')]
            out.append('%s rc=%d viol=%d' % (p, rc3, len(v)))
            if rc3 != 1:
                out.append('\n    '.join([l[:300] for l in o3.splitlines() if 'UNDECIDED' in l or 'BROKEN' in l][:6]))
        print(n, 'failed tests', t.get('failed'), 'demo', rc2, '' if rc2 else 'DEMO DOES NOT FAIL', ' '.join(out), flush=True)
    finally:
        sh('git checkout -- .')
sh('bash /opt/vp/build.sh')
