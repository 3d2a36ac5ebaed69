#!/usr/bin/env python3
"""runrefs.py [id-regex]: run the checks named against edits that change no behaviour (docs/refactors.py), on a scratch copy."""
import os, re, shutil, subprocess, sys, time, runpy, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rx = sys.argv[1] if len(sys.argv) > 1 else '.'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for s in runpy.run_path(V + '/docs/refactors.py')['REFS']:
    if not re.search(rx, s['id']):
        continue
    c = '/tmp/runref%d' % os.getpid()
    shutil.rmtree(c, ignore_errors=True)
    os.makedirs(c)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/' % (c, c), shell=True)
    bad = False
    for f, old, new in s['edits']:
        t = open(c + '/' + f).read()
        if old not in t:
            print(s['id'], 'does not apply', repr(old[:60]), flush=True)
            bad = True
            break
        open(c + '/' + f, 'w').write(t.replace(old, new))
    if bad:
        continue
    for p in s['props'].split():
        t = time.time()
        r = subprocess.run([sys.executable, V + '/bin/check.py', p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=c, VERIF_EVIDENCE=c + '-ev'))
        v = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
        print('%-22s %s rc=%d %s %.0fs' % (s['id'], p, r.returncode, 'ok' if r.returncode == 0 else 'UNCONFIRMED' if v and 'no-failing-input-found' in v[0] else 'ALARM', time.time() - t),
              [x[:140] for x in r.stdout.splitlines() if x.startswith('failed')][:3] if r.returncode else [x[:100] for x in r.stdout.splitlines() if x.startswith('note')][:4], flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-800:], r.stderr[-800:])
    shutil.rmtree(c, ignore_errors=True)
