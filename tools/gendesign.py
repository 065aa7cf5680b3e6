#!/usr/bin/env python3
"""Write DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
props = [json.loads(l) for l in open('properties.jsonl')]
checks = json.load(open('checks.json'))
na = json.load(open('not_applicable.json'))
oracle = json.load(open('tools/oracles.json'))
out = []
def par(d):
    return ', '.join('%s=%s' % kv for kv in sorted(d.items()))
for p in props:
    i = p['id']
    if i not in checks:
        continue
    out.append('### %s %s\n' % (i, p['title']))
    out.append('*Method.* ' + oracle.get(i, '') + '\n')
    out.append('*Why tests cannot settle it.* ' + p['why_tests_cant'] + '\n')
    for h in checks[i]['harnesses']:
        q, t = h['quick'].get('params', {}), h['thorough'].get('params', {})
        s = par(q) + (' → ' + par(t) if t != q else '')
        mode = h.get('mode') or 'sequential'
        out.append('* `%s.%s` (%s): %s%s' % (h['pkg'], h['fn'], mode, h.get('bounds') or 'see parameters', ' [' + s + ']' if s else ''))
    out.append('')
text = open('tools/design.md').read()
text = text.replace('@@PROPS@@', '\n'.join(out).strip())
text = text.replace('@@NA@@', '\n'.join('* %s (%s): %s' % (k, next(p['title'] for p in props if p['id'] == k), v) for k, v in sorted(na.items())))
fx = []
for l in open('known_findings.txt'):
    if l.startswith('fixed: property='):
        pid, commit, what = l[len('fixed: property='):].strip().split(' ', 2)
        fx.append('* %s `%s`: %s' % (pid, commit, what))
text = text.replace('@@FIXES@@', '\n'.join(fx))
res = {}
if os.path.exists('tools/seed_results.txt'):
    for l in open('tools/seed_results.txt'):
        f = l.split()
        if len(f) >= 3:
            res[f[0]] = 'yes' if f[2] == 'rc=1' else 'no'
rows = ['| change | property | caught | needs | breaks |', '|---|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    n = d.split('/')[1]
    rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], res.get(n, '?'), m['needs'], m['what_it_breaks']))
text = text.replace('@@SEEDS@@', '\n'.join(rows))
open('DESIGN.md', 'w').write(text)
