#!/usr/bin/env python3
"""onlyweak.py PROP [regex]: run the second-opinion (weak/twin/fallback) harnesses of a property on the current tree."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, types
from concurrent.futures import ThreadPoolExecutor
reg = check.registry()
m, e = check.select(reg, sys.argv[1])
hs = [h for h in e if re.search(sys.argv[2] if len(sys.argv) > 2 else '.', h['fn'])]
hs = [h for h in hs if not h['twin_of']] if '-t' not in sys.argv else hs
a = types.SimpleNamespace(timeout=0, verbose=True)
s = check.Session(a, 'quick', hs)
try:
    with ThreadPoolExecutor(8) as ex:
        r = list(ex.map(s.run, hs))
    for b in s.bundles.values():
        if b.dropped or b.lost: print('dropped', b.dropped, b.lost, b.droplog)
    if any(x['status'] != 'PROVED' for x in r): print('NOT ALL PROVED')
finally:
    for b in s.bundles.values(): b.close()
