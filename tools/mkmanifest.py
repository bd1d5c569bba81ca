#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present in props/."""
import glob, importlib, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'props')]
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')) and i not in NA:
        m = importlib.import_module(i.lower())
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique=m.TECHNIQUE, level=getattr(m, 'LEVEL', 'model_checking'), level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--oneline'], capture_output=True, text=True).stdout.split('\n')
         if ' hook:' in l]
man = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
           hooks=dict(guard='AVIAN_VERIF', enable='make extra-cflags=-DAVIAN_VERIF (lib/vm.py, configurations whose name starts with "hook")',
                      source_commits=hooks),
           notes='TLA+ with TLC; see DESIGN.md')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
