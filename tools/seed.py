#!/usr/bin/env python3
"""seed.py SPEC.py: write planted bugs (patch.diff, demo.sh, meta.json) described in a python file with BUGS = {name: dict(property, file, edits, needs, breaks, demo | sh)}."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
for n, b in spec['BUGS'].items():
    if len(sys.argv) > 2 and n not in sys.argv[2:]:
        continue
    d = os.path.join(V, 'seeded', n)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in b['edits']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (n, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'demo' in b:
        open(d + '/demo.cc', 'w').write(b['demo'])
        shutil.copy(V + '/tools/demo/build_demo.sh', d + '/build_demo.sh')
        if 'run.h' in b['demo']:
            shutil.copy(V + '/tools/demo/run.h', d + '/run.h')
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds demo.cc against the library in ./_build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
bash "$here/build_demo.sh" "$here/demo.cc" "$w/demo" || exit 99
export REPO="$PWD"
cd "$w" && timeout 200 ./demo
''')
    if 'sh' in b:
        open(d + '/demo.sh', 'w').write(b['sh'])
    for f, t in b.get('files', {}).items():
        open(os.path.join(d, f), 'w').write(t)
    print('seeded', n)
