#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, re, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
how = {}
if os.path.exists(V + '/tools/design/how.md'):
    for b in re.split(r'^## ', rd('tools/design/how.md'), flags=re.M)[1:]:
        k, t = b.split('\n', 1); how[k.strip()] = t.strip()
out = [rd('tools/design/head.md'), '## 2. The properties\n']
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in how: out.append(how[i] + '\n')
    ents, bounds, assume = [], [], []
    for h in sorted(glob.glob(V + '/harness/' + i.lower() + '*.cpp')):
        t = open(h).read()
        ents += re.findall(r'^// @entry (\w+)', t, re.M); bounds += re.findall(r'^// @bound (.*)', t, re.M); assume += re.findall(r'^// @assume (.*)', t, re.M)
    out.append('* Decided by: ' + ', '.join('`%s`' % e for e in ents) + ' in `harness/' + i.lower() + '*.cpp`.')
    out.append('* Bounds: ' + '; '.join(bounds) + '.')
    if assume: out.append('* Assumed: ' + '; '.join(assume) + '.')
    cost = json.load(open(V + '/tools/design/cost.json')) if os.path.exists(V + '/tools/design/cost.json') else {}
    if i in cost: out.append('* Cost of the quick tier: about %d s on 8 cores.' % cost[i])
    out.append('')
kf = json.load(open(V + '/known_findings.json'))
fixes = '\n'.join('* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 (`\2`): ', x) for x in kf['fixed'])
res = json.load(open(V + '/tools/design/trials.json')) if os.path.exists(V + '/tools/design/trials.json') else {}
rows = ['| bug | property | needs | breaks | verdict |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], res.get(i, 'not tried')))
t = rd('tools/design/tail.md').replace('FIXES', fixes).replace('MATRIX', '\n'.join(rows))
out.append(t)
open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
