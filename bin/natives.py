#!/usr/bin/env python3
"""natives.py [regex]: run the native stand-ins by themselves."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, types
rx = sys.argv[1] if len(sys.argv) > 1 else '.'
hs = [h for h in check.registry().values() if h['native'] and re.search(rx, h['fn'])]
s = check.Session(types.SimpleNamespace(timeout=0, verbose=True), 'quick', hs)
for h in hs:
    r = s.run(h)
    if r['status'] != 'PROVED':
        print(r['out'][-3000:])
for b in s.bundles.values():
    b.close()
