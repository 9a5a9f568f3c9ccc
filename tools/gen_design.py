#!/usr/bin/env python3
"""writes DESIGN.md"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/notes.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
hs = {}
for f in sorted(glob.glob(V + '/harness/*/*.go')):
    for n, i in re.findall(r'^func (H_(C\d\d)_\w+)\(', open(f).read(), re.M):
        hs.setdefault(i, set()).add(f[len(V) + 1:].replace('harness/', ''))
o = [open(V + '/tools/design_head.md').read()]
o.append('## Properties\n')
o.append('Cost: seconds of wall time of the quick check on 8 cores.\n')
cost = {}
for l in open(V + '/tools/costs.txt'):
    a, b = l.split(); cost[a] = b
for p in props:
    i = p['id']
    d = D[i]
    o.append(f"### {i} {p['title']}\n")
    o.append(f"- Harness: {', '.join(sorted(hs[i]))}. Code: {', '.join(p['anchors']['files'])}.")
    o.append(f"- Decides: {d[0]}.")
    o.append(f"- Bounds (quick/thorough): {d[1]}. Outside: {d[2]}.")
    o.append(f"- Why tests cannot: {p['why_tests_cant']}. Cost: {cost.get(i, '?')} s.\n")
o.append('## Genuine defects found and repaired\n')
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(C\d\d) (\w+) (.*)', l)
    if m: o.append(f'- {m[1]} ({m[2]}): {m[3]}')
o.append('\nNo finding is left unrepaired.\n' if not re.search(r'^(?!fixed:|#|\s*$)', open(V + '/known_findings.txt').read(), re.M) else '')
o.append('## Planted changes and what catches them\n')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    o.append(f"- {os.path.basename(os.path.dirname(d))}: {m['what_it_breaks'].rstrip('.')}. Needs: {m['needs'].rstrip('.')}. Caught by {m['property']}.")
o.append('')
o.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
