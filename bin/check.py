#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current tree.

Places the contracts of /verif/kani on a fresh copy of /repo/src, has Kani
discharge every obligation of the property's harnesses, replays counterexamples
against the real code, writes evidence/<property>.json.
Exit 0: every obligation discharged. Exit 1 + VIOLATION line otherwise."""
import json, os, re, shlex, sys, time, glob, argparse, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kanirun
from kanirun import Bundle, VERIF, OV, REPO

JOBS = 8
EVD = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


def registry():
    """Harnesses of every overlay, from the `//#` lines in front of them."""
    reg = {}
    for p in sorted(glob.glob(os.path.join(OV, '*.rs'))):
        o = os.path.basename(p)[:-3].replace('__', '/')
        if o == 'vkp':
            continue
        src = kanirun.overlay_text(o)
        for m in re.finditer(r'(?m)^//# (.*)\n((?:#\[.*\]\n)*)pub fn (\w+)', src):
            w = shlex.split(m.group(1))
            h = dict(overlay=o, fn=m.group(3), props=[], twin_of=None, weak_of=[], fallback_of=[], native=False, opts={}, line=src[:m.start()].count('\n') + 1)
            attrs = m.group(2)
            c = re.search(r'proof_for_contract\((.*)\)\]', attrs)
            h['contract'] = c.group(1) if c else None
            h['stubs'] = re.findall(r'kani::stub\(([^,]+),\s*([^)]+)\)', attrs)
            h['stub_verified'] = re.findall(r'kani::stub_verified\((.*)\)\]', attrs)
            u = re.search(r'kani::unwind\((\d+)\)', attrs)
            h['unwind'] = int(u.group(1)) if u else None
            s = re.search(r'kani::solver\((\w+)\)', attrs)
            h['solver_attr'] = s.group(1) if s else 'cadical'
            role = None
            for x in w:
                if x in ('twin', 'weak', 'fallback'):
                    role = x
                elif '=' in x:
                    k, v = x.split('=', 1)
                    h['opts'][k] = v
                elif x == 'native':
                    h['native'] = True
                elif role == 'twin':
                    h['twin_of'] = x
                elif role == 'fallback':
                    h['fallback_of'].append(x)
                elif role == 'weak':
                    h['weak_of'].append(x)
                else:
                    h['props'].append(x)
            mod = o.replace('/mod', '').replace('/', '::')
            h['key'] = (o, h['fn'])
            h['prop_module'] = not os.path.exists(os.path.join(REPO, 'src', o + '.rs'))
            h['name'] = (o if h['prop_module'] else mod + '::vk') + '::' + h['fn']
            if o == 'lib':
                h['name'] = 'vk::' + h['fn']
            reg[h['key']] = h
    return reg


def falls(x, h, prop):
    """x stands in for h: named, or by property and module."""
    return h['fn'] in x['fallback_of'] or not h['native'] and prop in h['props'] and '%s@%s' % (prop, h['overlay']) in x['fallback_of']


def select(reg, prop):
    main = [h for h in reg.values() if prop in h['props']]
    extra, todo = [], list(main)
    while todo:
        h = todo.pop()
        for x in reg.values():
            if (x['twin_of'] == h['fn'] and x['overlay'] == h['overlay'] or h['fn'] in x['weak_of'] or falls(x, h, prop)) and x not in extra and x not in main:
                extra.append(x)
                todo.append(x)
    return main, extra


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--only', default='')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--timeout', type=int, default=0)
    a = ap.parse_args()
    prop = a.property
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    reg = registry()
    main_h, extra = select(reg, prop)
    if tier == 'quick':
        main_h = [h for h in main_h if h['opts'].get('tier') != 'thorough']
    if a.only:
        main_h = [h for h in main_h if re.search(a.only, h['fn'])]
    if not main_h:
        print('no harness for', prop)
        return 2
    evd = EVD
    os.makedirs(evd, exist_ok=True)
    ses = Session(a, tier, main_h + extra)
    try:
        return decide(a, prop, tier, seed, t0, ses, main_h, extra)
    finally:
        for b in ses.bundles.values():
            if a.keep:
                print('kept', b.dir)
            else:
                b.close()


class Session:
    """The copies of /repo's tree the harnesses run on: with or without the
    contracts in place, as it is or with a constant replaced (variant)."""

    def __init__(self, a, tier, hs):
        self.a, self.tier, self.hs = a, tier, hs
        self.bundles, self.lock, self.locks = {}, threading.Lock(), {}
        self.t0 = time.time()
        self.limit = 800 if tier == 'quick' else 3300

    @staticmethod
    def where(h):
        return ('native' if h['native'] else h['opts'].get('variant', ''), bool(h['contract'] or h['stub_verified']))

    def bundle(self, w):
        with self.lock:
            l = self.locks.setdefault(w, threading.Lock())
        with l:
            if w not in self.bundles:
                hs = [h for h in self.hs if self.where(h) == w]
                b = Bundle(sorted({h['overlay'] for h in hs}), keep={h['key'] for h in hs}, variant=w[0],
                           natives={o: [h['fn'] for h in hs if h['native'] and h['overlay'] == o] for o in {h['overlay'] for h in hs}},
                           contracts={(h['overlay'], t) for h in hs for t in [h['contract']] + h['stub_verified'] if t})
                self.bundles[w] = b
                t = time.time()
                b.ok = b.build()
                b.build_s = time.time() - t
            return self.bundles[w]

    def usable(self, h):
        b = self.bundle(self.where(h))
        return b.ok and h['overlay'] not in b.dropped

    def timeout(self, h):
        if self.a.timeout:
            return self.a.timeout
        t = int(h['opts'].get('timeout', '0')) or 240
        if self.tier == 'thorough':
            t *= 3
        return max(20, min(t, self.limit - (time.time() - self.t0)))

    def run(self, h, playback=False):
        b = self.bundle(self.where(h))
        if not b.ok or h['overlay'] in b.dropped:
            return dict(name=h['name'], status='DROPPED', checks=[], covers=[], failed=[], vtime=0, stime=0, wall=0,
                        out='the contracts of src/%s.rs do not compile against the current source:\n%s' % (h['overlay'], b.droplog.get(h['overlay'], b.log[-6000:])))
        if h['contract'] and any(kanirun.path_is(h['contract'], i, f) for o, i, f in b.lost if o == h['overlay']):
            return dict(name=h['name'], status='LOST', checks=[], covers=[], failed=[], vtime=0, stime=0, wall=0, out='no single function %s in src/%s.rs' % (h['contract'], h['overlay']))
        if h['native']:
            r = b.native(h, self.timeout(h))
            if self.a.verbose:
                print('%-40s %-13s %6.1fs native %s' % (h['fn'], r['status'], r['wall'], r['native']), flush=True)
                if r['status'] == 'INCONCLUSIVE':
                    print(r['out'][-3000:])
            return r
        r = b.run(h, self.timeout(h) + (60 if playback else 0), playback=playback)
        if r['status'] == 'PROVED' and not playback and (not r['checks'] or any(s != 'SATISFIED' for _, s in r['covers'])):
            r['status'] = 'VACUOUS'
        if self.a.verbose:
            print('%-40s %-13s %6.1fs solver %6.1fs checks %d covers %s %s' % (h['fn'], r['status'], r['wall'], r['stime'], len(r['checks']), [c[1] for c in r['covers']], [(f['desc'], f['loc']) for f in r['failed']][:3]), flush=True)
            if r['status'] == 'INCONCLUSIVE':
                print('   ', ' | '.join(x for x in r['out'][-20000:].splitlines() if re.search(r'(?i)error|FAILURE|unsupported|panicked|limit', x))[:600])
        return r


def decide(a, prop, tier, seed, t0, ses, main_h, extra):
    evd = EVD
    notes = []
    results = []      # (harness, result) that count

    def twin(h):
        c = [x for x in extra if x['twin_of'] == h['fn'] and x['overlay'] == h['overlay']]
        return c[0] if c else None

    order = sorted(main_h, key=lambda h: -int(h['opts'].get('cost', '1')))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(ses.bundle, sorted({ses.where(h) for h in main_h})))
        tb = time.time() - t0
        res = dict(zip([h['key'] for h in order], ex.map(ses.run, order)))

        # an obligation that is not discharged: let the exact-arithmetic
        # harnesses behind it decide, where it has them
        undecided, ran = [], {}
        bad_main = [h for h in order if res[h['key']]['status'] != 'PROVED']
        ws = {}
        for h in bad_main:
            st = res[h['key']]['status']
            w = [x for x in extra + main_h if h['fn'] in x['weak_of'] and ses.usable(x)]
            if st == 'LOST' and twin(h) and ses.usable(twin(h)):
                w.append(twin(h))
            if st != 'FAILED' and not w:
                w = [x for x in extra + main_h if falls(x, h, prop) and ses.usable(x)]
            elif w:
                w += [x for x in extra if x['native'] and x not in w and falls(x, h, prop) and ses.usable(x)]
            ws[h['key']] = w
        # a run of the real code that fails settles it: what stands behind the others is not needed
        if any(h['native'] and res[h['key']]['status'] == 'FAILED' for h in bad_main):
            bad_main = [h for h in bad_main if h['native'] and res[h['key']]['status'] == 'FAILED']
            notes += ['%s not discharged (%s)' % (h['fn'], res[h['key']]['status']) for h in order if res[h['key']]['status'] != 'PROVED' and h not in bad_main]
            ws = {h['key']: [] for h in bad_main}
        todo = {x['key']: x for w in ws.values() for x in w}
        todo = {k: x for k, x in todo.items() if k not in res}
        ran = dict(zip(todo, ex.map(ses.run, todo.values())))
        both = {**res, **ran}
        for h in order:
            r = res[h['key']]
            results.append((h, r))
            if r['status'] == 'PROVED' or h not in bad_main:
                continue
            w = ws[h['key']]
            bad = [(x, both[x['key']]) for x in w if both[x['key']]['status'] != 'PROVED']
            # one that ran out of time says nothing where a run of the real code can be judged
            if any(x['native'] and both[x['key']]['status'] == 'PROVED' for x in w):
                bad = [(x, y) for x, y in bad if y['status'] != 'TIMEOUT' or x['native']]
            if w and not bad:
                notes.append('%s not discharged (%s); decided by %s' % (h['fn'], r['status'], ', '.join(x['fn'] for x in w)))
            elif w:
                undecided += [(h, x, y) for x, y in bad]
            else:
                undecided.append((h, h, r))
        results += [(todo[k], r) for k, r in ran.items()]

        # a state the proof fails on may be one that is never reached: where the
        # property can be judged from outside, only what fails there is confirmed
        reach = {}
        for h, x, r in undecided:
            if not x['native'] and r['status'] == 'FAILED':
                reach[h['key']] = [y for y in extra if y['native'] and falls(y, h, prop) and ses.usable(y)]
        todo2 = {y['key']: y for l in reach.values() for y in l if y['key'] not in both}
        both.update(zip(todo2, ex.map(ses.run, todo2.values())))
        results += [(y, both[k]) for k, y in todo2.items()]

        # counterexamples, replayed against the real code
        def ce(t):
            h, x, r = t
            if r['status'] != 'FAILED' or x['native']:
                return []
            y = twin(x) or x
            if any(z['native'] and both[z['key']]['status'] == 'FAILED' for _, z, _ in undecided) or any(both[z['key']]['status'] == 'FAILED' for l in reach.values() for z in l):
                return []
            if y['contract'] or y['stub_verified'] or not ses.usable(y):
                return []
            rr = ses.run(y, playback=True)
            return [(y, s) for s in kanirun.playback_tests(rr['out'])]
        tests = list(ex.map(ce, undecided))

    viol = []
    if undecided:
        rep = {}
        for w in {ses.where(y) for ts in tests for y, _ in ts}:
            r, _ = ses.bundle(w).replay([(y['overlay'], s) for ts in tests for y, s in ts if ses.where(y) == w])
            rep.update(r)
        for (h, x, r), ts in zip(undecided, tests):
            conf = [(n, s) for o, s in ts for n in re.findall(r'fn (kani_concrete_playback_\w+)', s) if rep.get(n, (False,))[0]]
            if reach.get(h['key']):
                conf = []
                for y in reach[h['key']]:
                    if both[y['key']]['status'] == 'FAILED':
                        n = both[y['key']]['name'] + ' (run natively)'
                        conf, rep = conf + [(n, '')], {**rep, n: (True, both[y['key']]['native'])}
            if x['native'] and r['status'] == 'FAILED':
                n = x['name'] + ' (run natively)'
                conf, rep = [(n, '')], {**rep, n: (True, r['native'])}
            viol.append((h, x, r, ts, conf, rep))

    # evidence
    obl = sum(len(r['checks']) for _, r in results)
    dis = sum(1 for _, r in results for c in r['checks'] if c['status'] in ('SUCCESS', 'UNREACHABLE'))
    fns = sorted({'%s: %s%s' % ('src/%s.rs' % o, (i + ' :: ') if i else '', f) for b in ses.bundles.values() for o, i, f in b.contracts})
    stubs = sorted({'%s replaced by %s' % s for h, _ in results for s in h['stubs']})
    assumptions = sorted({x for h, _ in results for x in assumes(h)})
    assumptions += ['stub: ' + s for s in stubs]
    bounded = ['%s: %s' % (h['fn'], h['opts']['bounded']) for h, _ in results if 'bounded' in h['opts']]
    ev = dict(property=prop, tier=tier, seed=seed, level=level_of(main_h), wall_s=round(time.time() - t0, 1), violations=len(viol), assumptions=assumptions,
              coverage=dict(
                  obligations=obl, discharged=dis,
                  checker_cmd='cargo kani --lib %s --exact --harness <harness>  (on a copy of /repo/src with the contracts of /verif/kani placed)' % ' '.join(kanirun.KFLAGS),
                  trusted_base=['rustc nightly front end and Kani 0.68 MIR translation', 'CBMC 6.11 symbolic execution and bit-blasting, IEEE-754 round-to-nearest', 'CaDiCaL/kissat', 'bin/rustscan.py (placing contracts), std and crate dependencies as compiled'],
                  functions_under_contract=fns, contracts_lost=['%s %s %s' % x for b in ses.bundles.values() for x in b.lost], overlays_dropped=[x for b in ses.bundles.values() for x in b.dropped],
                  harnesses=[dict(harness=r['name'], kind='contract of ' + h['contract'] if h['contract'] else ('bounded, executed natively: ' + h['opts']['bounded'] if h['native'] else 'bounded: ' + h['opts']['bounded'] if 'bounded' in h['opts'] else 'lemma'), status=r['status'],
                                  obligations=len(r['checks']), discharged=sum(c['status'] in ('SUCCESS', 'UNREACHABLE') for c in r['checks']), unreachable=sum(c['status'] == 'UNREACHABLE' for c in r['checks']),
                                  covers=['%s: %s' % c for c in r['covers']], back_end='none (execution)' if h['native'] else h['solver_attr'], solver_s=round(r['stime'], 2), verification_s=round(r['vtime'], 2), wall_s=round(r['wall'], 1)) for h, r in results],
                  bounded_not_proved=bounded, solver_s=round(sum(r['stime'] for _, r in results), 2), build_s=round(tb, 1), notes=notes,
                  unsafe_in_src=unsafe_sites(),
                  explanation=EXPL))
    if ev['level'] != 'proof':
        ev['coverage']['evaluations'] = len(results)
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)

    for n in notes:
        print('note:', n)
    if not viol:
        print('%s: %d obligations in %d harnesses discharged, %.0f s' % (prop, dis, len(results), time.time() - t0))
        return 0
    rp = os.path.join(evd, prop + '.replay.txt')
    confirmed = False
    with open(rp, 'w') as f:
        for h, x, r, ts, conf, rep in viol:
            f.write('OBLIGATION NOT DISCHARGED: harness %s (%s), status %s\n' % (r['name'], 'contract of ' + h['contract'] if h['contract'] else 'lemma', r['status']))
            for c in r['failed']:
                f.write('  %s: %s\n     at %s\n' % (c['name'], c['desc'], c['loc']))
            if conf:
                confirmed = True
                f.write('\nCOUNTEREXAMPLE, replayed natively against the real code and failing:\n')
                for n, s in conf:
                    f.write(s + '\n' + rep[n][1] + '\n')
            elif ts:
                f.write('\nverifier counterexample (did not fail when replayed natively):\n' + '\n'.join(s for _, s in ts) + '\n')
            f.write('\nverifier output:\n' + r['out'][-12000:] + '\n' + '=' * 70 + '\n')
            print('failed: %s %s %s' % (r['name'], r['status'], '; '.join(c['desc'] for c in r['failed'][:4])))
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if confirmed else ' no-failing-input-found'))
    return 1


EXPL = ('Every obligation is a CBMC check of a Kani harness over fully symbolic arguments/state of the real functions. '
        'Harnesses of kind `contract of` check a requires/ensures/modifies contract placed on the function; `lemma` harnesses check the property-level statement over the code; '
        '`bounded` ones hold up to the stated bound only and are not proofs.')


def level_of(hs):
    return 'proof' if any('bounded' not in h['opts'] for h in hs) else 'other'


def assumes(h):
    """The kani::assume lines of a harness: a mechanical scan."""
    src = kanirun.overlay_text(h['overlay'])
    m = re.search(r'pub fn %s\b' % h['fn'], src)
    e = src.find('\n}', m.start())
    return ['%s: assume %s' % (h['fn'], x) for x in re.findall(r'kani::assume\((.*)\);', src[m.start():e])]


def unsafe_sites():
    import rustscan
    n = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.rs') and re.search(r'\bunsafe\b', rustscan.mask(open(os.path.join(d, f)).read())):
                n.append(os.path.relpath(os.path.join(d, f), REPO))
    return n


if __name__ == '__main__':
    sys.exit(main())
