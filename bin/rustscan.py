"""A small Rust scanner: enough lexing to find items by their header in real
source text, whatever its formatting.  Used to place contracts on functions of
/repo mechanically (kani) and to cut functions out of it (verus)."""
import re


def mask(src):
    """Same length as src, with comments and string/char literals blanked."""
    out = list(src)
    i, n = 0, len(src)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"' or (c in 'br' and re.match(r'b?r?#*"', src[i:i + 8]) and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == '_'))):
            m = re.match(r'(b?)(r?)(#*)"', src[i:])
            if not m:
                i += 1
                continue
            j = i + m.end()
            if m.group(2):
                e = src.find('"' + m.group(3), j)
                j = n if e < 0 else e + 1 + len(m.group(3))
            else:
                while j < n and src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
            blank(i + 1, j - 1)
            i = j
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                blank(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return ''.join(out)


def close(msk, i):
    """Index just past the brace that closes the one at msk[i]."""
    d = 0
    pairs = {'{': '}', '(': ')', '[': ']'}
    o, c = msk[i], pairs[msk[i]]
    while i < len(msk):
        if msk[i] == o:
            d += 1
        elif msk[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError('unbalanced')


def norm(s):
    s = re.sub(r'\s+', ' ', s).strip()
    return re.sub(r'\s*([<>,:&(){}=+\[\]])\s*', r'\1', s)


def impls(src, msk, lo=0, hi=None):
    """(header, body_start, body_end) of every impl block."""
    hi = len(src) if hi is None else hi
    res = []
    for m in re.finditer(r'\bimpl\b', msk[lo:hi]):
        a = lo + m.start()
        if res and a < res[-1][2]:
            continue
        b = msk.find('{', a)
        # only item-level impls (not `impl Trait` in a signature)
        pre = msk[:a].rstrip()
        if pre and pre[-1] not in '};]' and not pre.endswith('unsafe'):
            continue
        if b < 0:
            continue
        e = close(msk, b)
        res.append((norm(msk[a:b]), b + 1, e - 1))
    return res


def fns(src, msk, lo=0, hi=None):
    """(name, decl_start, fn_kw, body_open, body_end) of fns directly in lo..hi."""
    hi = len(src) if hi is None else hi
    res, i, depth = [], lo, 0
    pat = re.compile(r'\bfn\s+([A-Za-z_][A-Za-z0-9_]*)')
    while i < hi:
        c = msk[i]
        if c == '{':
            i = close(msk, i)
            continue
        m = pat.match(msk, i) if c == 'f' and (i == 0 or not (msk[i - 1].isalnum() or msk[i - 1] == '_')) else None
        if m:
            # start of the declaration: after the previous ; } { or ]
            s = i
            while s > lo and msk[s - 1] not in ';}{]':
                s -= 1
            while s < i and msk[s].isspace():
                s += 1
            b = i
            while b < hi and msk[b] not in '{;':
                if msk[b] in '([':
                    b = close(msk, b)
                else:
                    b += 1
            if b < hi and msk[b] == '{':
                e = close(msk, b)
                res.append((m.group(1), s, i, b, e))
                i = e
                continue
            i = b
        i += 1
    return res


def find_fn(src, impl_header, name):
    """Locate fn `name` in the impl with the given header (None: free fn).
    Returns (decl_start, fn_kw, body_open, body_end) or None."""
    msk = mask(src)
    if impl_header is None:
        c = [f for f in fns(src, msk) if f[0] == name]
    else:
        want = norm(impl_header)
        c = []
        for h, a, b in impls(src, msk):
            hh = h.split(' where ')[0]
            hh = norm(re.sub(r'\b(std|core)::(ops|convert|clone|io)::', '', hh))
            if hh == want or h == want:
                c += [f for f in fns(src, msk, a, b) if f[0] == name]
    if len(c) != 1:
        return None
    return c[0][1:]
