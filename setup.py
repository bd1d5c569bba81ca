#!/usr/bin/env python3
"""Builds everything the checks need from the committed files and /repo, into .cache."""
import glob, importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'props')]
import vm
from concurrent.futures import ThreadPoolExecutor
configs = set()
mods = []
for p in sorted(glob.glob(os.path.join(HERE, 'props', 'c[0-9]*.py'))):
    m = importlib.import_module(os.path.basename(p)[:-3])
    mods.append(m)
    configs |= set(getattr(m, 'CONFIGS', ['jit', 'interp']))
vm.tree_hash()
with ThreadPoolExecutor(3) as ex:
    list(ex.map(vm.get, sorted(configs)))
for m in mods:
    if hasattr(m, 'setup'):
        m.setup()
print('built', sorted(configs))
