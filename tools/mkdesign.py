#!/usr/bin/env python3
"""Writes DESIGN.md: prose from tools/design.md, tables from the manifest, the seeds and the known findings."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + '/MANIFEST.json'))
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
text = open(V + '/tools/design.md').read()
seeds = ['| change | property | what it needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.append('| %s | %s | %s | check %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['property']))
fixes = {}
for l in open(V + '/known_findings.txt'):
    m = re.match(r'(fixed|known): property=(\w+) (\S+) (.*)', l)
    if m: fixes.setdefault(m[2], []).append((m[1], m[3], m[4]))
out = []
for p in sorted(fixes):
    out.append('\n%s\n' % p)
    out += ['- %s (%s)' % (t, k if s == 'fixed' else 'known, not repaired: ' + k) for s, k, t in fixes[p]]
na = ['- **%s** %s: %s' % (x['property'], props[x['property']]['title'], x['reason']) for x in man['not_applicable']]
text = text.replace('@SEEDS@', '\n'.join(seeds)).replace('@FINDINGS@', '\n'.join(out)).replace('@NA@', '\n'.join(na))
open(V + '/DESIGN.md', 'w').write(text)
