"""Value-numbering domain for 32-bit data: XOR-of-AND normal forms (with per-bit masks and rotations)
combined with linear sums modulo 2**32.  Equal canonical forms => equal for every input."""

M32 = 0xffffffff


class Atoms:
    def __init__(self):
        self.ids = {}
        self.info = []

    def get(self, key):
        i = self.ids.get(key)
        if i is None:
            i = len(self.info)
            self.ids[key] = i
            self.info.append(key)
        return i


ATOMS = Atoms()


class Term:
    """a: ANF dict monomial(frozenset of atom*32+rot)->mask, or None;  l: (const, dict atom->coef) or None"""
    __slots__ = ('a', 'l', '_k')

    def __init__(self, a=None, l=None):
        self.a = a
        self.l = l
        self._k = None

    def key(self):
        if self._k is None:
            if self.a is not None:
                self._k = ('A', frozenset(self.a.items()))
            else:
                self._k = ('L', self.l[0], frozenset(self.l[1].items()))
        return self._k

    def __eq__(self, o):
        return self is o or (o is not None and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def const(self):
        """int value if constant, else None"""
        if self.a is None:
            return None
        if not self.a:
            return 0
        if len(self.a) == 1:
            return self.a.get(E0)
        return None

    def __repr__(self):
        c = self.const()
        return hex(c) if c is not None else 'T<%s>' % (str(self.key())[:60])


E0 = frozenset()
ZERO = Term({})


def rol(x, r):
    r %= 32
    return ((x << r) | (x >> (32 - r))) & M32


def const(v):
    v &= M32
    return Term({E0: v} if v else {})


def atom(key):
    return Term({frozenset((ATOMS.get(key) * 32,)): M32})


def _from_anf(a):
    if len(a) == 1:
        (m, mask), = a.items()
        if mask == M32 and len(m) == 1:
            x, = m
            if x % 32 == 0:
                k = ATOMS.info[x // 32]
                if k[0] == 's':
                    return k[2]
    elif len(a) == 2 and a.get(E0) == M32:
        (m, mask), = [x for x in a.items() if x[0]]
        if mask == M32 and len(m) == 1:
            x, = m
            if x % 32 == 0:
                k = ATOMS.info[x // 32]
                if k[0] == 's':  # ~L = -L-1
                    c, d = k[2].l
                    return Term(None, ((-c - 1) & M32, {v: (-w) & M32 for v, w in d.items()}))
    return Term(a)


def anf(t):
    if t.a is not None:
        return t.a
    c, d = t.l
    i = ATOMS.ids.get(('s', t.key()))
    if i is None:
        i = len(ATOMS.info)
        ATOMS.ids[('s', t.key())] = i
        ATOMS.info.append(('s', t.key(), t))
    return {frozenset((i * 32,)): M32}


def _xatom(t):
    i = ATOMS.ids.get(('x', t.key()))
    if i is None:
        i = len(ATOMS.info)
        ATOMS.ids[('x', t.key())] = i
        ATOMS.info.append(('x', t.key(), t))
    return i


def lin(t):
    if t.l is not None:
        return t.l
    a = t.a
    if not a:
        return (0, {})
    if len(a) == 1:
        (m, mask), = a.items()
        if not m:
            return (mask, {})
        if mask == M32 and len(m) == 1:
            x, = m
            if x % 32 == 0:
                return (0, {x // 32: 1})
    if a.get(E0) == M32:
        b = dict(a)
        del b[E0]
        c, d = lin(Term(b))
        return ((-c - 1) & M32, {v: (-w) & M32 for v, w in d.items()})
    return (0, {_xatom(t): 1})


def _from_lin(c, d):
    if not d:
        return const(c)
    if len(d) == 1:
        (v, w), = d.items()
        if (w == 1 and c == 0) or (w == M32 and c == M32):
            k = ATOMS.info[v]
            t = k[2] if k[0] == 'x' else Term({frozenset((v * 32,)): M32})
            return t if w == 1 else bnot(t)
    return Term(None, (c, d))


def xor(x, y):
    a, b = anf(x), anf(y)
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, k in b.items():
        v = r.get(m, 0) ^ k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return _from_anf(r)


def _and(a, b):
    r = {}
    for m1, k1 in a.items():
        for m2, k2 in b.items():
            k = k1 & k2
            if k:
                m = m1 | m2
                v = r.get(m, 0) ^ k
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    return r


def band(x, y):
    return _from_anf(_and(anf(x), anf(y)))


def bor(x, y):
    return xor(xor(x, y), band(x, y))


def bnot(x):
    return xor(x, const(M32))


def rotl(x, r):
    r %= 32
    if r == 0:
        return x
    out = {}
    for m, k in anf(x).items():
        out[frozenset((t & ~31) | ((t + r) & 31) for t in m)] = rol(k, r)
    return _from_anf(out)


def mask(x, k):
    if k == M32:
        return x
    return _from_anf({m: v & k for m, v in anf(x).items() if v & k})


def shl(x, r):
    if r >= 32:
        return ZERO
    return mask(rotl(x, r), (M32 << r) & M32)


def shr(x, r):
    if r >= 32:
        return ZERO
    return mask(rotl(x, 32 - r), M32 >> r)


def add(x, y):
    if x.a is not None and y.a is not None:
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            return const(cx + cy)
        if cx == 0:
            return y
        if cy == 0:
            return x
        if (len(x.a) * len(y.a) <= 64) and not _and(x.a, y.a):
            return xor(x, y)
    c1, d1 = lin(x)
    c2, d2 = lin(y)
    if len(d1) < len(d2):
        d1, d2 = d2, d1
    d = dict(d1)
    for v, w in d2.items():
        s = (d.get(v, 0) + w) & M32
        if s:
            d[v] = s
        else:
            d.pop(v, None)
    return _from_lin((c1 + c2) & M32, d)


def neg(x):
    c, d = lin(x)
    return _from_lin((-c) & M32, {v: (-w) & M32 for v, w in d.items()})


def sub(x, y):
    return add(x, neg(y))


def mul(x, n):
    c, d = lin(x)
    return _from_lin((c * n) & M32, {v: (w * n) & M32 for v, w in d.items() if (w * n) & M32})


def bswap(x):
    return xor(xor(mask(rotl(x, 24), 0xff000000), mask(rotl(x, 8), 0x00ff0000)),
               xor(mask(rotl(x, 24), 0x0000ff00), mask(rotl(x, 8), 0x000000ff)))


def select_bytes(srcs):
    """srcs: 4 entries (term, byte index) or None -> 32-bit term; entry j gives result byte j."""
    t0 = srcs[0]
    if t0 is not None and all(s is not None and s[0] is t0[0] and s[1] == j for j, s in enumerate(srcs)):
        return t0[0]
    r = ZERO
    for j, s in enumerate(srcs):
        if s is None:
            continue
        t, b = s
        r = xor(r, mask(rotl(t, 8 * (j - b)), 0xff << (8 * j)))
    return r


def atoms_of(t, seen=None):
    """All base atom keys reachable from a term."""
    seen = set() if seen is None else seen
    out = []
    st = [t]
    while st:
        x = st.pop()
        ids = set()
        if x.a is not None:
            for m in x.a:
                ids |= {i // 32 for i in m}
        else:
            ids |= set(x.l[1])
        for i in ids:
            if i in seen:
                continue
            seen.add(i)
            k = ATOMS.info[i]
            if k[0] in ('s', 'x'):
                st.append(k[2])
            else:
                out.append(k)
    return out


# ---- SHA-256 specification over terms (FIPS 180-4) ----
def _primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _frac_root(p, r):
    # first 32 bits of the fractional part of p**(1/r), exactly
    n = p << (32 * r)
    lo, hi = 0, 1 << 64
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** r <= n:
            lo = mid
        else:
            hi = mid - 1
    return lo & M32


K = [_frac_root(p, 3) for p in _primes(64)]
H0 = [_frac_root(p, 2) for p in _primes(8)]


def S0(x):
    return xor(xor(rotl(x, 30), rotl(x, 19)), rotl(x, 10))


def S1(x):
    return xor(xor(rotl(x, 26), rotl(x, 21)), rotl(x, 7))


def s0(x):
    return xor(xor(rotl(x, 25), rotl(x, 14)), shr(x, 3))


def s1(x):
    return xor(xor(rotl(x, 15), rotl(x, 13)), shr(x, 10))


def ch(e, f, g):
    return xor(xor(band(e, f), band(e, g)), g)


def maj(a, b, c):
    return xor(xor(band(a, b), band(a, c)), band(b, c))


def compress(h, w):
    w = list(w)
    for t in range(16, 64):
        w.append(add(add(s1(w[t - 2]), w[t - 7]), add(s0(w[t - 15]), w[t - 16])))
    a, b, c, d, e, f, g, hh = h
    for t in range(64):
        t1 = add(add(add(hh, S1(e)), ch(e, f, g)), add(const(K[t]), w[t]))
        t2 = add(S0(a), maj(a, b, c))
        hh, g, f, e, d, c, b, a = g, f, e, add(d, t1), c, b, a, add(t1, t2)
    return [add(x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]


def sha256_64(words_le):
    """digest of one 64-byte block, as 8 little-endian memory words; words_le: 16 little-endian memory words."""
    h = [const(x) for x in H0]
    h = compress(h, [bswap(x) for x in words_le])
    pad = [const(0x80000000)] + [ZERO] * 14 + [const(512)]
    h = compress(h, pad)
    return [bswap(x) for x in h]
