#!/usr/bin/env python3
"""writes DESIGN.md from the text below, the rule descriptions in the evidence files and the planted bugs"""
import json, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HEAD = open('tools/design_head.md').read()
METHOD = json.load(open('tools/design_method.json'))
TAIL = open('tools/design_tail.md').read()
props = [json.loads(l) for l in open('properties.jsonl')]
man = json.load(open('MANIFEST.json'))
na = {x['property']: x['reason'] for x in man.get('not_applicable', [])}
fixed = {}
for l in open('known_findings.txt'):
    if l.startswith('fixed: '):
        a = l[7:].strip().split(' ', 2)
        fixed.setdefault(a[0].split('=')[1], []).append((a[1], a[2]))
bugs = {}
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m)); bugs.setdefault(d['property'], []).append((m.split('/')[1], d))
out = [HEAD]
out.append('\n## 4. Property by property\n')
for p in props:
    i = p['id']
    if i in na:
        continue
    out.append('### %s. %s\n' % (i, p['title']))
    out.append(METHOD.get(i, '') + '\n')
    ef = 'evidence/%s.json' % i
    if os.path.exists(ef):
        d = json.load(open(ef))
        out.append('Rules (obligations on the current tree; %d functions analysed, about %d s):\n' % (len(d['coverage']['functions']), max(1, round(d['wall_s']))))
        for r, x in d['coverage']['rules'].items():
            out.append('* `%s` (%d): %s' % (r, x['ok'] + x['bad'] + x['undecided'], x['description']))
        out.append('')
    for c, t in fixed.get(i, []):
        out.append('* defect found and repaired in `%s`: %s' % (c, t))
    if fixed.get(i):
        out.append('')
    if bugs.get(i):
        out.append('Planted bugs (all caught by this check): ' + '; '.join('`%s` (%s)' % (n, d['what_it_breaks']) for n, d in bugs[i]) + '.\n')
out.append(TAIL)
if na:
    out.append('\n## 7. Not applicable\n')
    for p in props:
        if p['id'] in na:
            out.append('* %s %s: %s' % (p['id'], p['title'], na[p['id']]))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
