#!/usr/bin/env python3
"""runseeds.py [id-regex] [-p PROP]: run the property's check against each planted bug, on a scratch copy (VERIF_REPO)."""
import json, os, re, shutil, subprocess, sys, time, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rx = sys.argv[1] if len(sys.argv) > 1 else '.'
for d in sorted(glob.glob(V + '/seeded/*')):
    i = os.path.basename(d)
    if not re.search(rx, i):
        continue
    m = json.load(open(d + '/meta.json'))
    c = '/tmp/runseed%d' % os.getpid()
    shutil.rmtree(c, ignore_errors=True); shutil.rmtree(c + '-ev', ignore_errors=True)
    os.makedirs(c)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/patch.diff' % (c, c, d), shell=True, check=True)
    t = time.time()
    r = subprocess.run([sys.executable, V + '/bin/check.py', m['property']], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=c, VERIF_EVIDENCE=c + '-ev'))
    v = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
    print('%-28s %s rc=%d %s %.0fs %s' % (i, m['property'], r.returncode, 'CAUGHT' if v else 'MISSED', time.time() - t, 'unconfirmed' if v and 'no-failing-input-found' in v[0] else ''), [x[:150] for x in r.stdout.splitlines() if x.startswith('failed')][:3], flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-1500:], r.stderr[-1500:])
    shutil.rmtree(c, ignore_errors=True); shutil.rmtree(c + '-ev', ignore_errors=True)
