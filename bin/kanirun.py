"""Place the contracts of /verif/kani on a copy of /repo's current source, let
Kani (CBMC) discharge every obligation, and replay counterexamples natively."""
import json, os, re, shlex, shutil, subprocess, sys, tempfile, time, zlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustscan

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OV = os.path.join(VERIF, 'kani')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', HOME='/root', CARGO_TERM_COLOR='never',
           PATH='/root/.cargo/bin:' + os.environ['PATH'])
for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS'):
    ENV.pop(k, None)
KFLAGS = ['-Z', 'function-contracts', '-Z', 'stubbing', '-Z', 'unstable-options',
          '--no-overflow-checks', '--no-memory-safety-checks']


def overlay_text(o):
    """Text of an overlay; `//@GEN <props> names.. key=val..` lines written out:
    a harness s_<name> on the full domain and w_<name> on the exact integers."""
    s = open(os.path.join(OV, o.replace('/', '__') + '.rs')).read()

    def gen(m):
        props, names, at, opt, dom, sol, wsol, weak = [], [], '', '', 'All', '', '', True
        for w in shlex.split(m.group(1)):
            k, _, v = w.partition('=')
            if k == 'unwind':
                at += '#[kani::unwind(%s)]\n' % v
            elif k == 'solver':
                sol = '#[kani::solver(%s)]\n' % v
            elif k == 'weaksolver':
                wsol = '#[kani::solver(%s)]\n' % v
            elif k == 'weak' and v == 'no':
                weak = False
            elif k == 'dom':
                dom = v
            elif k == 'stub':
                at += '#[kani::stub(%s)]\n' % v
            elif v:
                opt += ' %s=%s' % (k, shlex.quote(v))
            elif re.fullmatch(r'[A-Z]\d\d', w):
                props.append(w)
            else:
                names.append(w)
        t = ''
        for n in names:
            t += '//# %s%s\n#[kani::proof]\n%spub fn s_%s() { %s(Dom::%s) }\n' % (' '.join(props), opt, at + sol, n, n, dom)
            t += '' if not weak else '//# weak s_%s\n#[kani::proof]\n%spub fn w_%s() { %s(Dom::Int) }\n' % (n, at + wsol, n, n)
        return t
    def tw(m):
        # the body behind a contract harness: full domain (twin, for replay) and exact grid (weak)
        w = m.group(2).split()
        tiny = '//# weak {0}\n#[kani::proof]\n{2}pub fn v_{1}() {{ {1}(Dom::Tiny) }}\n' if m.group(1) else ''
        at = ''.join('#[kani::%s]\n' % x for x in w[2:])
        return ('//# twin %s\n#[kani::proof]\n%spub fn t_%s() { %s(Dom::All) }\n//# weak %s\n#[kani::proof]\n%spub fn w_%s() { %s(Dom::Int) }\n' % (w[0], at, w[1], w[1], w[0], at, w[1], w[1])) + tiny.format(w[0], w[1], at)
    s = re.sub(r'(?m)^//@TW(\+?) (.*)\n', tw, s)
    return ghosts(re.sub(r'(?m)^//@GEN (.*)\n', gen, s), o)


def ghosts(s, salt):
    """Kani 0.68 lets a mutable static share its memory with constants of the same
    contents: give every static of the contracts contents of its own."""
    names = re.findall(r'static mut (\w+): ', s)
    if names:
        s = re.sub(r'(?<!static mut )(?<!\w::)\b(%s)\b(?!\s*[:!(])' % '|'.join(names), r'\1.v', s)
        n = [0]

        def decl(m):
            n[0] += 1
            return 'static mut %s: crate::vkp::Ghost<%s> = crate::vkp::Ghost { magic: 0x5eed_%08x_%04x, v: %s };' % (m.group(1), m.group(2), zlib.crc32(salt.encode()), n[0], m.group(3))
        s = re.sub(r'static mut (\w+): ([^=]*?) = (.*);(?=\n)', decl, s)
    return re.sub(r'\bqueue::(HEAD|LEN|POS|VAL|OTHER)\b', r'queue::\1.v', s)


class Bundle:
    """A scratch copy of /repo with contracts in place."""

    def __init__(self, overlays, keep=None, contracts=None, variant='', natives={}):
        self.natives = natives  # overlay: functions to be run natively
        self.dir = tempfile.mkdtemp(prefix='vk-', dir='/tmp')
        self.root = os.path.join(self.dir, 'bae')
        self.target = os.path.join(self.dir, 'target')
        self.overlays = list(overlays)
        self.keep = keep        # harnesses to compile: (overlay, fn); None: all
        self.droplog = {}
        self.variant = variant
        self.want = contracts   # contracts to place: (overlay, text of the path); None: all
        self.lost = []          # (impl, fn) whose anchor is gone
        self.contracts = []     # contracts placed
        self.dropped = []       # overlays that no longer compile
        self.log = ''
        os.makedirs(self.root)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(self.root, 'src'))
        lock = os.path.join(REPO, 'Cargo.lock')     # not tracked in /repo
        shutil.copy(lock if os.path.exists(lock) else os.path.join(OV, 'repo.Cargo.lock'), os.path.join(self.root, 'Cargo.lock'))
        t = open(os.path.join(REPO, 'Cargo.toml')).read()
        # version-sync is used by tests/version_numbers.rs only
        t = re.sub(r'(?m)^version-sync\s*=.*\n', '', t)
        t += '\n[workspace]\n[lints.rust]\nunexpected_cfgs = "allow"\n'
        open(os.path.join(self.root, 'Cargo.toml'), 'w').write(t)
        self.orig = {}
        lib = os.path.join(self.root, 'src/lib.rs')
        s = open(lib).read()
        s = s.replace('#![warn(missing_docs)]', '')
        s = '#![cfg_attr(kani, feature(allocator_api))]\n' + s if not s.startswith('#!/') else s
        s += '\n#[cfg(kani)] #[allow(warnings)] pub mod vkp;\n'
        open(os.path.join(self.root, 'src/vkp.rs'), 'w').write(ghosts(open(os.path.join(OV, 'vkp.rs')).read(), 'vkp'))
        open(lib, 'w').write(s)
        for o in overlays:
            self.inject(o)

    def path(self, o):
        return os.path.join(self.root, 'src', o + '.rs')

    def inject(self, o, playback=''):
        ov = overlay_text(o)
        if self.keep is not None:
            ov = re.sub(r'(?m)^//# .*\n((?:#\[.*\]\n)+)(pub fn (\w+))',
                        lambda m: m.group(0) if (o, m.group(3)) in self.keep else m.group(2), ov)
        p = self.path(o)
        if o not in self.orig:
            self.orig[o] = open(p).read() if os.path.exists(p) else None
        src = self.orig[o]
        if src is None:
            # a property-level module of its own, public API only
            lib = os.path.join(self.root, 'src/lib.rs')
            s = open(lib).read()
            decl = '#[cfg(kani)] #[allow(warnings)] pub mod %s;\n' % o
            if decl not in s:
                open(lib, 'w').write(s + decl)
            open(p, 'w').write(ov + ''.join('#[test] fn nt_%s() { %s() }\n' % (f, f) for f in self.natives.get(o, [])) + playback)
            return
        body, attrs = [], []
        for m in re.finditer(r'(?m)^//@ subst(\*?) (\w+) `([^`]*)` `([^`]*)`\n', ov):
            if m.group(2) == self.variant:
                new, k = re.subn(m.group(3), m.group(4), src)
                if k < 1 or k > 1 and not m.group(1):
                    self.log = 'no single `%s` in src/%s.rs to instantiate' % (m.group(3), o)
                    return self.drop(o)
                src = new
        ov = re.sub(r'(?m)^//@ subst.*\n', '', ov)
        for line in ov.splitlines():
            m = re.match(r'//@ (?:in `([^`]+)` )?fn (\w+)\s*$', line)
            if m:
                attrs.append((m.group(1), m.group(2), []))
                continue
            m = re.match(r'//@\s+(requires|ensures|modifies)\((.*)\)\s*$', line)
            if m:
                attrs[-1][2].append((m.group(1), m.group(2)))
                continue
            assert not line.startswith('//@'), line
            body.append(line)
        ins = []
        for impl, fn, cl in attrs:
            if self.want is not None and not any(x == o and path_is(t, impl, fn) for x, t in self.want):
                continue
            loc = rustscan.find_fn(src, impl, fn)
            if loc is None:
                self.lost.append((o, impl, fn))
                continue
            t = ''.join('#[cfg_attr(kani, kani::%s(%s))] ' % c for c in cl)
            ins.append((loc[0], t))
            if (o, impl, fn) not in self.contracts:
                self.contracts.append((o, impl, fn))
        for pos, t in sorted(ins, reverse=True):
            src = src[:pos] + t + src[pos:]
        body += ['#[test] fn nt_%s() { %s() }' % (f, f) for f in self.natives.get(o, [])]
        src += '\n#[cfg(kani)] #[allow(warnings)]\npub mod vk {\nuse super::*;\n' + '\n'.join(body) + '\n' + playback + '\n}\n'
        open(p, 'w').write(src)

    def drop(self, o):
        e = re.findall(r'(?m)^error.*\n(?:(?!error|warning).*\n)*', self.log)
        self.droplog[o] = ''.join(e)[-6000:] or self.log[-6000:]
        self.dropped.append(o)
        self.overlays = [x for x in self.overlays if x != o]
        if self.orig[o] is None:
            lib = os.path.join(self.root, 'src/lib.rs')
            s = open(lib).read().replace('#[cfg(kani)] #[allow(warnings)] pub mod %s;\n' % o, '')
            open(lib, 'w').write(s)
            os.unlink(self.path(o))
        else:
            open(self.path(o), 'w').write(self.orig[o])

    def build(self):
        """Compile; an overlay the code no longer fits is dropped. Returns (ok, log)."""
        while True:
            r = subprocess.run(['cargo', 'kani', '--target-dir', self.target, '--only-codegen', '--lib'] + KFLAGS,
                               cwd=self.root, env=ENV, capture_output=True, text=True, errors='replace')
            self.log = re.sub(r'(?m)^warning: use of an unstable feature\n(?: .*\n|\s*\n)*', '', r.stdout + r.stderr)
            if r.returncode == 0:
                return True
            bad = None
            for m in re.finditer(r'(?m)^error.*(?:\n(?!error|warning).*)*?\n\s*--> src/([\w/]+)\.rs:(\d+)', self.log):
                if m.group(1) in self.overlays:
                    bad = m.group(1)
                    break
            if bad is None:
                for o in self.overlays:
                    if re.search(r'(?m)^\s*--> src/%s\.rs' % re.escape(o), '\n'.join(x for x in self.log.split('\n\n') if re.search(r'(?m)^error', x))):
                        bad = o
                        break
            if bad is None:
                # does the crate itself build?
                return False
            self.drop(bad)

    def run(self, h, timeout, playback=False):
        a = ['cargo', 'kani', '--target-dir', self.target, '--lib'] + KFLAGS + ['--exact', '--harness', h['name']]
        if h.get('solver'):
            a += ['--solver', h['solver']]
        if h.get('args'):
            a += h['args']
        if playback:
            a += ['-Z', 'concrete-playback', '--concrete-playback=print']
        t0 = time.time()
        pr = subprocess.Popen(['timeout', '-k', '2', str(int(timeout))] + a, cwd=self.root, env=ENV,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        out, _ = pr.communicate()
        res = parse(out)
        res.update(name=h['name'], rc=pr.returncode, wall=time.time() - t0, out=out)
        if pr.returncode == 124 or pr.returncode == 137:
            res['status'] = 'TIMEOUT'
        elif 'VERIFICATION:- SUCCESSFUL' in out:
            res['status'] = 'PROVED'
        elif res['failed']:
            res['status'] = 'FAILED'
        else:
            res['status'] = 'INCONCLUSIVE'
        if res['status'] == 'FAILED' and all(f['kind'] in ('unwind', 'unsupported') for f in res['failed']):
            res['status'] = 'INCONCLUSIVE'
        if res['status'] == 'PROVED' and h.get('should_fail'):
            res['status'] = 'INCONCLUSIVE'
        return res

    def native(self, h, timeout):
        """Run a bounded stand-in as compiled code, with the real dependencies."""
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(self.dir, 'ptarget'), RUST_BACKTRACE='0', CARGO_PROFILE_TEST_OPT_LEVEL='1', CARGO_PROFILE_DEV_OPT_LEVEL='1')
        i = h['name'].rindex('::') + 2
        name = h['name'][:i] + 'nt_' + h['name'][i:]
        t0 = time.time()
        r = subprocess.run(['timeout', '-k', '2', str(int(timeout)), 'cargo', 'kani', 'playback', '-Z', 'concrete-playback', '-Z', 'function-contracts',
                            '-Z', 'stubbing', '--lib', '--', '--exact', name], cwd=self.root, env=e, capture_output=True, text=True, errors='replace')
        out = r.stdout + r.stderr
        failed, msg = [], ''
        st = 'PROVED' if re.search(r'test \S+ \.\.\. ok\n', out) and r.returncode == 0 else 'INCONCLUSIVE'
        if re.search(r'test \S+ \.\.\. FAILED', out):
            st = 'FAILED'
            m = re.search(r'(?m)^---- \S+ stdout ----\n((?:.*\n)*?)(?=\n\n|\nfailures|note:)', out)
            msg = m.group(1).strip() if m else out[-1500:]
            failed = [dict(name=name, desc=msg.split('\n')[-1][:200], loc='', status='FAILURE', kind='native')]
        elif r.returncode == 124 or r.returncode == 137:
            st = 'TIMEOUT'
        return dict(name=h['name'], status=st, checks=[], covers=[], failed=failed, vtime=0, stime=0, wall=time.time() - t0, out=out, native=msg)

    def replay(self, tests):
        """tests: [(overlay, test text)] -> {test name: (failed, output)}"""
        by = {}
        for o, t in tests:
            by.setdefault(o, []).append(t)
        for o, ts in by.items():
            self.inject(o, playback='\n'.join(ts))
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(self.dir, 'ptarget'), RUST_BACKTRACE='0')
        r = subprocess.run(['timeout', '-k', '2', '300', 'cargo', 'kani', 'playback', '-Z', 'concrete-playback', '-Z', 'function-contracts',
                            '-Z', 'stubbing', '--lib', '--', 'kani_concrete_playback'],
                           cwd=self.root, env=e, capture_output=True, text=True, errors='replace')
        out = r.stdout + r.stderr
        if 'running ' not in out:
            r = subprocess.run(['timeout', '-k', '2', '300', 'cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--', 'kani_concrete_playback'],
                               cwd=self.root, env=e, capture_output=True, text=True, errors='replace')
            out = r.stdout + r.stderr
        res = {}
        for m in re.finditer(r'test (\S+) \.\.\. (ok|FAILED)', out):
            name = m.group(1).split('::')[-1]
            msg = ''
            k = re.search(r'---- %s stdout ----\n(.*?)(?=\n\n|\n----|\Z)' % re.escape(m.group(1)), out, re.S)
            if k:
                msg = k.group(1)
            res[name] = (m.group(2) == 'FAILED' and 'kani::assume should always hold' not in msg
                         and 'Not enough det vals' not in msg and 'Expected' not in msg, msg)
        return res, out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def path_is(text, impl, fn):
    """Does a path like `<ADSR as Modifier>::process` name this function?"""
    t = rustscan.norm(text).replace(' ', '')
    if impl is None:
        return t == fn
    m = re.match(r'impl(?:<[^>]*>)?\s*(?:(.*)\s+for\s+)?(.*)$', rustscan.norm(impl))
    tr, ty = m.group(1), m.group(2).strip()
    if tr:
        return t == '<%sas%s>::%s' % (ty.replace(' ', ''), tr.replace(' ', ''), fn)
    return t in ('%s::%s' % (ty, fn), '<%s>::%s' % (ty, fn))


def parse(out):
    checks, covers, failed = [], [], []
    for m in re.finditer(r'Check \d+: (.+?)\s*\n\s*- Status: (\S+)\s*\n\s*- Description: "(.*?)"\s*\n(?:\s*- Location: (.*))?', out):
        name, st, desc, loc = m.groups()
        if '.cover.' in name:
            covers.append((desc, st))
            continue
        c = dict(name=name, status=st, desc=desc, loc=loc or '')
        if 'unwinding assertion' in desc or '.unwind' in name or 'recursion unwinding' in desc:
            c['kind'] = 'unwind'
        elif 'not currently supported' in desc or 'unsupported' in desc.lower() or 'unsupported_construct' in name:
            c['kind'] = 'unsupported'
        elif 'kani_core' in c['loc']:
            c['kind'] = 'kani'
        else:
            c['kind'] = 'assert'
        checks.append(c)
        if st == 'FAILURE':
            failed.append(c)
    t = re.search(r'Verification Time: ([\d.]+)s', out)
    s = sum(float(x) for x in re.findall(r'Runtime Solver: ([\d.e+-]+)s', out))
    return dict(checks=checks, covers=covers, failed=failed, vtime=float(t.group(1)) if t else 0.0, stime=s)


def playback_tests(out):
    return re.findall(r'```\n(.*?)```', out, re.S)
