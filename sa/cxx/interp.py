"""Abstract interpreter over the extracted C++ syntax trees (trace-partitioned; see dom.py for the domain).

Traces are enumerated by re-running a root function with a recorded list of partition choices. Loops with concrete
conditions are unrolled; a loop whose condition depends on symbols is peeled up to `peel` times and then
summarised or cut."""
import os
import time
from .. import poly
from ..poly import Lin, INF
from .dom import *

MAXTRACES = 4000
MAXSTEPS = 4000000


class Frame:
    __slots__ = ('f', 'key', 'env', 'this', 'rec', 'line')

    def __init__(self, key, f, this, rec):
        self.f, self.key, self.this, self.rec = f, key, this, rec
        self.env = {}
        self.line = f.get('line', 0)


class Outcome:
    def __init__(self, kind, val, st, why=None):
        self.kind, self.val, self.st, self.why = kind, val, st, why

    def __repr__(self):
        return 'Outcome(%s,%s)' % (self.kind, self.val)


def isint(v):
    return isinstance(v, (int, Lin, Tab))


class Interp:
    # time limits: what is not explored when they run out is reported as undecided
    START = time.monotonic()
    TOTAL = 500
    EACH = 30

    def __init__(self, prog, peel=2, seg_limit=70000):
        self.P = prog
        self.peel = peel
        self.frames = []
        self.root = None          # Ptr of the object whose own SSZ methods are interpreted rather than assumed
        self.contracts = True
        self.obl = []
        self.oblex = set()             # failed obligations (tag, where, msg, exact)
        self.nobl = {}
        self.assumed_limit = 1 << 40
        self.max_len = (1 << 31) - 1
        self.hooks = {}           # qualified function name -> callable(interp, this, args, fn, node)
        self.steps = 0
        self.rkcache = {}
        self.sszcache = {}
        self.fieldcache = {}
        self.prove = False
        self.calllog = set()
        self.until = None

    # ------------------------------------------------------------------ types
    def ty(self, k):
        t = self.P.types.get(k)
        return t or {'k': 'other'}

    def reckey(self, tk):
        t = self.ty(tk)
        while t['k'] in ('ref', 'ptr'):
            t = self.ty(t['to'])
        return t['r'] if t['k'] == 'rec' else None

    def isrec(self, tk):
        return self.ty(tk)['k'] == 'rec'

    def rec(self, rk):
        return self.P.records.get(rk, {})

    def recqn(self, rk):
        return self.rec(rk).get('qn', '') if rk else ''

    def is_ssz(self, rk):
        if rk is None:
            return False
        c = self.sszcache.get(rk)
        if c is None:
            c = self.sszcache[rk] = self.recqn(rk) == 'ssz::Container' or any(self.is_ssz(self.reckey(b)) for b in self.rec(rk).get('bases') or ())
        return c

    def fields(self, rk):
        c = self.fieldcache.get(rk)
        if c is None:
            c = []
            for b in self.rec(rk).get('bases') or ():
                c += self.fields(self.reckey(b))
            c += [(f['n'], f['t']) for f in self.rec(rk).get('fields') or ()]
            self.fieldcache[rk] = c
        return c

    def irange(self, t):
        if t.get('bool') or t['k'] == 'bool':
            return 0, 1
        w = t.get('w', 64)
        if t.get('s'):
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return 0, (1 << w) - 1

    def width(self, tk):
        """size in bytes of an integer type, or of an array/record made of bytes; None if unknown"""
        t = self.ty(tk)
        if t['k'] == 'int':
            return max(1, t['w'] // 8)
        if t['k'] == 'arr':
            w = self.width(t['to'])
            return w and w * t['n']
        if t['k'] == 'rec' and self.recqn(t['r']) == 'std::array':
            f = self.rec(t['r']).get('fields')
            return self.width(f[0]['t']) if f else None
        return None

    # ------------------------------------------------------------------ traces
    exploring = False

    def explore(self, init, fn, cap=MAXTRACES):
        save = (getattr(self, 'trail', None), getattr(self, 'pos', None), getattr(self, 'st', None), self.frames)
        stack = [[]]
        outs = []
        n = 0
        outer = self.until
        was, self.exploring = self.exploring, True
        self.until = min(outer or 1e18, time.monotonic() + self.EACH, self.START + self.TOTAL)
        while stack:
            prefix = stack.pop()
            n += 1
            if time.monotonic() > self.until:
                outs.append(Outcome('giveup', None, init(), 'time limit'))
                break
            if n > cap:
                outs.append(Outcome('giveup', None, self.st, 'more than %d traces' % cap))
                break
            self.trail = list(prefix)
            self.pos = 0
            self.frames = []
            self.st = init()
            try:
                v = fn()
                o = Outcome('ret', v, self.st)
            except Thrown as e:
                o = Outcome('throw', e, self.st)
            except Prune as e:
                o = Outcome('prune', None, self.st, e.why)
            except GiveUp as e:
                o = Outcome('giveup', None, self.st, '%s at %s' % (e, self.where()))
            except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, RecursionError) as e:
                # a construct the interpreter mishandles is one it does not decide
                if os.environ.get('SA_STRICT'):
                    raise
                o = Outcome('giveup', None, self.st, 'internal %s: %s at %s' % (type(e).__name__, e, self.where()))
            outs.append(o)
            for i in range(len(prefix), len(self.trail)):
                c, k = self.trail[i]
                for alt in range(c + 1, k):
                    stack.append(self.trail[:i] + [(alt, k)])
        self.until = outer
        self.exploring = was
        self.trail, self.pos, self.st, self.frames = save
        return outs

    def choose(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
        else:
            c = 0
            self.trail.append((0, n))
        self.pos += 1
        return c

    def forced(self, fn):
        """record a deterministic decision so that re-runs do not recompute it"""
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
        else:
            c = fn()
            self.trail.append((c, 0))
        self.pos += 1
        return c

    def where(self, node=None):
        for fr in reversed(self.frames):
            if fr.f.get('repo') or fr.f['qn'].startswith('witness'):
                return '%s:%s (%s)' % (fr.f['file'], fr.line, fr.f['qn'])
        if self.frames:
            fr = self.frames[-1]
            return '%s:%s (%s)' % (fr.f['file'], fr.line, fr.f['qn'])
        return '?'

    def oblige(self, tag, ok, msg, need=None):
        """need: expressions that have to be >= 0; a failed obligation is exact only when an integer state refutes one"""
        self.nobl[tag] = self.nobl.get(tag, 0) + 1
        if not ok:
            w = self.where()
            if (tag, w) in self.oblex:
                return          # this construct is already shown wrong
            ex = self.st.imprecise is None and not self.st.meta.get('#summ')
            if ex and need is not None:
                ex = any(self.st.refuted_ge0(poly.L(e)) for e in need)
            elif ex:
                ex = self.st.point() is not None
            self.obl.append((tag, w, msg, ex))
            if ex:
                self.oblex.add((tag, w))

    def fresh(self, hint, lo=None, hi=None):
        self.st.next += 1
        v = '%s#%d' % (hint, self.st.next)
        self.st.declare(v, -INF if lo is None else lo, INF if hi is None else hi)
        return Lin.var(v)

    def alloc(self, name, val):
        self.st.next += 1
        k = '%s@%d' % (name, self.st.next)
        self.st.heap[k] = val
        return Ptr(k)

    def imprecise(self, why):
        if self.st.imprecise is None:
            self.st.imprecise = '%s at %s' % (why, self.where())

    def event(self, *a):
        self.st.events.append(a + (self.where(),))

    # ------------------------------------------------------------------ conditions
    def decide(self, c):
        """True/False if the state decides the condition, else None"""
        st = self.st
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        if c.op == 'ge':
            if st.ge0(c.a):
                return True
            if st.ge0(-c.a - 1):
                return False
            return None
        if c.op in ('eq', 'ne'):
            e = st.reduce(c.a)
            if e.is_const():
                r = e.k == 0
            elif e.k % poly.gcdl(e.c.values()):
                r = False
            else:
                lo, hi = st.quick(e)
                if lo > 0 or hi < 0 or e in st.ne or -e in st.ne:
                    r = False
                elif st.eq0(e):
                    r = True
                elif st.ge0(e - 1) or st.ge0(-e - 1):
                    r = False
                else:
                    # divisibility
                    r = None
                    if len(e.c) == 1:
                        (v, a), = e.c.items()
                        if e.k % a:
                            r = False
                        elif v in st.bset and (-e.k // a) not in st.bset[v]:
                            r = False
            if r is None:
                return None
            return r if c.op == 'eq' else not r
        if c.op == 'tab':
            d = self.domain(c.a.sym)
            vs = {bool(c.a.f[x]) for x in d if x in c.a.f}
            if len(vs) == 1:
                return vs.pop()
            return None
        if c.op in ('sym', 'nsym'):
            b = st.bools.get(c.a)
            if b is None:
                return None
            return b if c.op == 'sym' else not b
        return None

    def assume(self, c, val):
        if isinstance(c, (bool, int)):
            if bool(c) != val:
                raise Prune()
            return
        if not val:
            c = c.neg()
        st = self.st
        if c.op == 'ge':
            st.add_ge(c.a)
        elif c.op == 'eq':
            st.add_eq(c.a)
        elif c.op == 'ne':
            st.add_ne(c.a)
        elif c.op == 'tab':
            d = self.domain(c.a.sym)
            st.restrict(c.a.sym, [x for x in d if c.a.f.get(x)])
        elif c.op == 'sym':
            st.bools[c.a] = True
        elif c.op == 'nsym':
            st.bools[c.a] = False

    def branch(self, c):
        c = self.tocond(c)
        if isinstance(c, bool):
            return c
        if c.op == 'and':
            return self.branch(c.a[0]) and self.branch(c.a[1])
        if c.op == 'or':
            return self.branch(c.a[0]) or self.branch(c.a[1])
        if c.op == 'unk':
            self.imprecise('unknown condition: %s' % (c.a,))
            r = self.choose(2) == 0
            return r
        if self.pos < len(self.trail):
            ch, k = self.trail[self.pos]
            self.pos += 1
            val = ch == 0
            if k:
                self.assume(c, val)
                self.st.path.append((c, val))
            return val
        d = self.decide(c)
        if d is not None:
            self.trail.append((0 if d else 1, 0))
            self.pos += 1
            return d
        self.trail.append((0, 2))
        self.pos += 1
        self.assume(c, True)
        self.st.path.append((c, True))
        return True

    def tocond(self, v):
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Lin):
            if v.is_const():
                return v.k != 0
            return Cond('ne', v)
        if isinstance(v, Tab):
            return Cond('tab', v.map(bool))
        if v is NULL:
            return False
        if isinstance(v, (Ptr, FnPtr, StructV, MemFn)):
            return True
        if isinstance(v, ByteOf):
            return Cond('unk', 'byte')
        return Cond('unk', repr(v)[:40])

    # ------------------------------------------------------------------ integers
    def domain(self, sym):
        d = self.st.bset.get(sym)
        if d is None:
            lo, hi = self.st.rng.get(sym, (-INF, INF))
            if hi - lo > 300:
                raise GiveUp('domain of %s' % (sym,))
            d = frozenset(range(lo, hi + 1))
        else:
            lo, hi = self.st.rng.get(sym, (-INF, INF))
            d = frozenset(x for x in d if lo <= x <= hi)
        for s in self.st.meta.get(('rdef', sym), ()):
            lo, hi = self.st.quick(Lin.var(s))
            f = self.st.meta[('def', s)].f
            d = frozenset(x for x in d if x not in f or lo <= f[x] <= hi)
        return d

    def small(self, sym):
        if sym in self.st.bset:
            return True
        lo, hi = self.st.rng.get(sym, (-INF, INF))
        return hi - lo <= 256

    def astab(self, v):
        if isinstance(v, Tab):
            return v
        if isinstance(v, Lin) and len(v.c) == 1:
            (s, a), = v.c.items()
            if self.small(s):
                return Tab(s, {x: a * x + v.k for x in self.domain(s)})
        return None

    def normtab(self, t):
        """simplify a table: constant or affine"""
        d = self.domain(t.sym)
        items = [(x, t.f[x]) for x in sorted(d) if x in t.f]
        if not items:
            raise Prune()
        vals = {v for _, v in items}
        if len(vals) == 1:
            return vals.pop()
        if all(isinstance(v, int) and not isinstance(v, bool) for v in vals):
            (x0, y0), (x1, y1) = items[0], items[1]
            if (y1 - y0) % (x1 - x0) == 0:
                a = (y1 - y0) // (x1 - x0)
                if all(y == y0 + a * (x - x0) for x, y in items):
                    return Lin({t.sym: a}, y0 - a * x0)
        return Tab(t.sym, dict(items))

    def lin(self, v):
        """integer value as Lin or int"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Lin):
            return v.k if v.is_const() else v
        if isinstance(v, Cond):
            return 1 if self.branch(v) else 0
        if isinstance(v, Tab):
            n = self.normtab(v)
            if not isinstance(n, Tab):
                return n
            items = tuple(sorted(n.f.items()))
            key = ('tab', n.sym, items)
            s = self.st.divs.get(key)
            if s is None:
                vals = [y for _, y in items]
                distinct = sorted(set(vals))
                if len(distinct) <= 3:
                    for d in distinct[:-1]:
                        if self.branch(Cond('tab', n.map(lambda y, d=d: y == d))):
                            return d
                    return distinct[-1]
                s = self.fresh('tab(%s)' % (n.sym,), min(vals), max(vals))
                self.st.bset[next(iter(s.c))] = frozenset(vals)
                self.st.divs[key] = s
                self.st.meta[('def', next(iter(s.c)))] = n
                self.st.meta[('rdef', n.sym)] = self.st.meta.get(('rdef', n.sym), ()) + (next(iter(s.c)),)
            return s
        if isinstance(v, ByteOf):
            return self.bytesym(v.lin, v.i, v.w)
        if isinstance(v, Unk):
            return self.fresh('unk')
        raise GiveUp('not an integer: %r' % (v,))

    def bytesym(self, lin, i, w=8):
        key = ('byteof', lin, i)
        s = self.st.divs.get(key)
        if s is None:
            s = self.fresh('byte%d' % i, 0, 255)
            self.st.divs[key] = s
            self.st.meta[('def', next(iter(s.c)))] = ByteOf(lin, w, i)
        return s

    def bytesof(self, v):
        """the little-endian bytes of a non-negative value below 2^64 as symbols tied to it, or None"""
        if not isinstance(v, Lin):
            return None
        key = ('bytesof', v)
        if key not in self.st.divs:
            lo, hi = self.st.bounds(v)
            if lo < 0 or hi == INF or hi >= 1 << 64:
                return None
            d = len(v.c) == 1 and v.k == 0 and list(v.c.values()) == [1] and self.st.meta.get(('def', next(iter(v.c))))
            if d and isinstance(d, tuple) and d[0] == 'le':
                bs = [self.lin(b) for b in d[1]]
            else:
                bs = [self.bytesym(v, i) for i in range(max(1, (int(hi).bit_length() + 7) // 8))]
            tot = v
            for i, b in enumerate(bs):
                tot = tot - b * (1 << 8 * i)
            self.st.add_eq(tot)
            self.st.divs[key] = tuple(bs)
        return self.st.divs[key]

    def asbyte(self, b):
        """(value, i) when b is the i-th byte of the value"""
        if self.st is not None and isinstance(b, Lin) and len(b.c) == 1 and b.k == 0 and list(b.c.values()) == [1]:
            b = self.st.meta.get(('def', next(iter(b.c))))
        return (b.lin, b.i) if isinstance(b, ByteOf) else None

    def intbytes(self, bs):
        """(value, n) when bs are the n little-endian bytes of a value, followed by zeros only; or None"""
        a = self.asbyte(bs[0])
        if a is None or a[1] != 0 or not isinstance(a[0], Lin):
            return None
        n = 1
        while n < len(bs) and self.asbyte(bs[n]) == (a[0], n):
            n += 1
        if any(not (isinstance(b, int) and b == 0) for b in bs[n:]) or self.st.bounds(a[0])[1] >= 1 << 8 * n:
            return None
        return a[0], n

    def conc(self, v):
        """int if the state fixes the value"""
        if isinstance(v, Lin):
            lo, hi = self.st.bounds(v)
            if lo == hi:
                return lo
        return v

    def concretise(self, v, limit=64):
        """force a small integer to a constant by partitioning"""
        v = self.lin(v)
        if isinstance(v, int):
            return v
        v0 = v
        lo, hi = self.st.bounds(v)
        if lo == -INF or hi == INF or hi - lo > limit:
            return None
        for x in range(lo, hi):
            if self.branch(Cond('eq', v0 - x)):
                return x
        return hi

    def wrap(self, v, t):
        """conversion of an integer value to integer type t"""
        if isinstance(t, str):
            t = self.ty(t)
        if t['k'] != 'int':
            return v
        if t.get('bool'):
            return self.boolval(v)
        lo, hi = self.irange(t)
        m = hi - lo + 1
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return (v - lo) % m + lo
        if isinstance(v, Cond):
            return v
        if isinstance(v, Tab):
            return self.normtab(v.map(lambda x: (int(x) - lo) % m + lo))
        if isinstance(v, ByteOf):
            if hi >= 255:
                return v
            return self.wrap(self.lin(v), t)
        if isinstance(v, Lin):
            l, h = self.st.quick(v)
            if l >= lo and h <= hi:
                return v
            tab = self.astab(v)
            if tab is not None:
                return self.normtab(tab.map(lambda x: (x - lo) % m + lo))
            l, h = self.st.bounds(v)
            if l >= lo and h <= hi:
                return v
            if l == -INF or h == INF:
                self.imprecise('unbounded value converted')
                return self.fresh('conv', lo, hi)
            q0, q1 = (l - lo) // m, (h - lo) // m
            if m == 256 and lo == 0 and l >= 0 and q1 > 2:
                e = self.asbytes(v, 8, h)
                rest = Lin({x: a for x, a in e.c.items() if a % 256}, e.k % 256)
                l1, h1 = self.st.bounds(rest)
                if l1 >= 0 and h1 < 256:
                    return rest
            if q1 - q0 <= 2:
                for q in range(q1, q0, -1):
                    if self.branch(Cond('ge', v - lo - m * q)):
                        return v - m * q
                return v - m * q0
            key = ('wrap', v, lo, hi)
            if key not in self.st.divs:
                r = self.fresh('r', lo, hi)
                q = self.fresh('q', q0, q1)
                self.st.add_eq(v - r - q * m)
                self.st.divs[key] = r
            return self.st.divs[key]
        if isinstance(v, Unk):
            return self.fresh('unk', lo, hi)
        if isinstance(v, TermV):
            return v
        raise GiveUp('conversion of %r' % (v,))

    def boolval(self, v):
        c = self.tocond(v)
        if isinstance(c, bool):
            return int(c)
        if c.op == 'ne' and isinstance(v, Lin) and self.st.quick(v) == (0, 1):
            return v
        if c.op == 'tab':
            return self.normtab(c.a.map(int))
        return c

    def divmod(self, a, c):
        """truncated division of an integer value by a positive constant: (q, r)"""
        if isinstance(a, int):
            q = abs(a) // c * (1 if a >= 0 else -1)
            return q, a - q * c
        lo, hi = self.st.bounds(a)
        if lo < 0:
            if self.branch(Cond('ge', a)):
                return self.divmod(a, c)
            q, r = self.divmod(-a, c)
            return -q, -r
        if hi < c:
            return 0, a
        if all(x % c == 0 for x in a.c.values()):
            k = a.k % c
            return (Lin({v: x // c for v, x in a.c.items()}, (a.k - k) // c), k)
        # split the part divisible by c
        whole = {v: x // c for v, x in a.c.items() if x % c == 0}
        rest = Lin({v: x for v, x in a.c.items() if x % c}, a.k % c)
        base = Lin(whole, (a.k - a.k % c) // c)
        if whole:
            l, h = self.st.bounds(rest)
            if l >= 0 and h < c:
                return base, rest
        key = ('div', rest, c)
        if key not in self.st.divs:
            l, h = self.st.bounds(rest)
            q = self.fresh('q', l // c if l != -INF else None, h // c if h != INF else None)
            r = self.fresh('r', 0, c - 1)
            self.st.add_eq(rest - q * c - r)
            self.st.divs[key] = (q, r)
        q, r = self.st.divs[key]
        return q + base, r

    def arith(self, op, a, b, t):
        """integer operation; t is the result type record"""
        if op == ',':
            return b
        if isinstance(a, Unk) or isinstance(b, Unk):
            lo, hi = self.irange(t) if t['k'] == 'int' else (None, None)
            self.imprecise('arithmetic on an unknown value')
            return self.fresh('unk', lo, hi)
        if isinstance(a, Cond):
            a = self.boolval(a)
        if isinstance(b, Cond):
            b = self.boolval(b)
        if isinstance(a, Cond):
            a = self.lin(a)
        if isinstance(b, Cond):
            b = self.lin(b)
        if isinstance(a, int) and isinstance(b, int):
            a, b = int(a), int(b)
            try:
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                     '<<': lambda: a << b, '>>': lambda: a >> b,
                     '/': lambda: self.divmod(a, b)[0] if b > 0 else int(a / b), '%': lambda: self.divmod(a, b)[1] if b > 0 else a - b * int(a / b)}[op]()
            except ZeroDivisionError:
                self.oblige('div', False, 'division by zero')
                raise Prune('division by zero')
            except ValueError:
                self.oblige('shift', False, 'negative shift')
                raise Prune('shift')
            return self.wrap(r, t)
        # tables of the same byte
        if isinstance(a, Tab) or isinstance(b, Tab) or op in ('&', '|', '^', '>>', '<<', '/', '%'):
            ta = self.astab(a) if not isinstance(a, int) else None
            tb = self.astab(b) if not isinstance(b, int) else None
            f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y,
                 '<<': lambda x, y: x << y if 0 <= y < 200 else 0, '>>': lambda x, y: x >> y if y >= 0 else 0,
                 '/': lambda x, y: (abs(x) // abs(y)) * (1 if (x >= 0) == (y >= 0) else -1) if y else 0,
                 '%': lambda x, y: abs(x) % abs(y) * (1 if x >= 0 else -1) if y else 0}[op]
            r = None
            bits = op in ('|', '^', '+') and isinstance(a, (Lin, int)) and isinstance(b, (Lin, int))
            if bits and op != '+':
                r0 = self.bitor(a, b)
                if r0 is not None:
                    return self.wrap(r0, t)
            if ta is not None and isinstance(b, int):
                r = ta.map(lambda x: f(x, b))
            elif tb is not None and isinstance(a, int):
                if op in ('/', '%') and 0 in tb.f.values():
                    self.oblige('div', False, 'division by zero')
                r = tb.map(lambda y: f(a, y))
            elif ta is not None and tb is not None and ta.sym == tb.sym:
                r = Tab(ta.sym, {x: f(ta.f[x], tb.f[x]) for x in ta.f if x in tb.f})
            if r is not None:
                return self.wrap(self.normtab(r), t)
        if op == '&' and (isinstance(a, ByteOf) and b == 255 or isinstance(b, ByteOf) and a == 255):
            return a if isinstance(a, ByteOf) else b
        la, lb = self.lin(a), self.lin(b)
        if isinstance(la, int) and isinstance(lb, int):
            return self.arith(op, la, lb, t)
        r = None
        if op == '+':
            r = la + lb
        elif op == '-':
            r = la - lb
        elif op == '*':
            if isinstance(la, Lin) and isinstance(lb, Lin):
                la, lb = self.conc(la), self.conc(lb)
            if isinstance(la, int) or isinstance(lb, int):
                r = la * lb
            else:
                r = self.product(la, lb)
        elif op in ('/', '%'):
            lb = self.conc(lb)
            if isinstance(lb, int):
                if lb == 0:
                    self.oblige('div', False, 'division by zero')
                    raise Prune('division by zero')
                if lb > 0:
                    r = self.divmod(la, lb)[0 if op == '/' else 1]
            if r is None:
                r = self.opaque(op, la, lb, t)
        elif op == '<<':
            k = self.concretise(lb)
            if k is not None:
                r = la * (1 << k)
            else:
                r = self.opaque(op, la, lb, t)
        elif op == '>>':
            k = self.concretise(lb)
            if k is not None:
                la = self.lin(la)
                if isinstance(la, int):
                    r = la >> k
                else:
                    lo, hi = self.st.bounds(la)
                    if lo >= 0:
                        r = self.divmod(self.asbytes(la, k, hi), 1 << k)[0]
            if r is None:
                r = self.opaque(op, la, lb, t)
        elif op == '&':
            if isinstance(la, int):
                la, lb = lb, la
            if isinstance(lb, int) and lb >= 0 and (lb & (lb + 1)) == 0 and self.st.bounds(la)[0] >= 0:
                r = self.divmod(self.asbytes(la, 8, self.st.bounds(la)[1]) if lb == 255 else la, lb + 1)[1]
            elif isinstance(lb, int) and lb >= 0 and self.st.bounds(la)[0] >= 0:
                # contiguous mask
                lowbit = lb & -lb
                if lb and (((lb // lowbit) & (lb // lowbit + 1)) == 0):
                    hi = self.divmod(la, lowbit)[0]
                    r = self.divmod(hi, lb // lowbit + 1)[1] * lowbit
            if r is None:
                r = self.opaque(op, la, lb, t)
        elif op in ('|', '^'):
            r = self.bitor(la, lb)
            if r is None:
                r = self.opaque(op, la, lb, t)
        else:
            raise GiveUp('operator ' + op)
        return self.wrap(r, t)

    def asbytes(self, v, k, hi):
        """v, written as the sum of its bytes where a shift by k takes it apart at a byte"""
        if k >= 8 and k % 8 == 0 and hi >= 1 << k and isinstance(v, Lin):
            rest = Lin({x: a for x, a in v.c.items() if a % (1 << k)}, v.k % (1 << k))
            l, h = self.st.bounds(rest)
            if l < 0 or h >= 1 << k:
                bs = self.bytesof(v)
                if bs:
                    r = poly.L(0)
                    for i, b in enumerate(bs):
                        r = r + poly.L(b) * (1 << 8 * i)
                    return r
        return v

    def opaque(self, op, a, b, t):
        key = ('op', op, a, b)
        if key not in self.st.divs:
            lo, hi = self.irange(t)
            if op in ('&',):
                for x in (a, b):
                    l, h = self.st.bounds(x)
                    if l >= 0:
                        lo, hi = max(lo, 0), min(hi, h)
            if op in ('|', '^'):
                (l1, h1), (l2, h2) = self.st.bounds(a), self.st.bounds(b)
                if l1 >= 0 and l2 >= 0 and h1 != INF and h2 != INF:
                    lo, hi = max(lo, 0), min(hi, (1 << max(int(h1).bit_length(), int(h2).bit_length())) - 1)
            if op in ('/', '>>'):
                l, h = self.st.bounds(a)
                if l >= 0:
                    lo, hi = max(lo, 0), min(hi, h)
            s = self.fresh('op' + op, lo, hi)
            self.st.divs[key] = s
            self.st.meta[('def', next(iter(s.c)))] = key
        return self.st.divs[key]

    def product(self, a, b):
        key = ('mul',) + tuple(sorted((a, b), key=repr))
        if key not in self.st.divs:
            (l1, h1), (l2, h2) = self.st.bounds(a), self.st.bounds(b)
            if INF in (h1, h2) or -INF in (l1, l2):
                lo, hi = None, None
            else:
                c = [x * y for x in (l1, h1) for y in (l2, h2)]
                lo, hi = min(c), max(c)
            s = self.fresh('mul', lo, hi)
            self.st.divs[key] = s
            self.st.meta[('def', next(iter(s.c)))] = key
        return self.st.divs[key]

    def bitsof(self, v):
        """mask of bits an integer may have set, when it is a sum of constants and 2^k-scaled 0/1 or byte symbols with disjoint bits"""
        if isinstance(v, int):
            return v if v >= 0 else None
        m = v.k
        if m < 0:
            return None
        for s, a in v.c.items():
            lo, hi = self.st.rng.get(s, (-INF, INF))
            if a <= 0 or a & (a - 1) or lo < 0 or hi == INF:
                return None
            x = a * ((1 << int(hi).bit_length()) - 1)
            if m & x:
                return None
            m |= x
        return m

    def bitor(self, a, b):
        ma, mb = self.bitsof(a), self.bitsof(b)
        if ma is None or mb is None or ma & mb:
            return None
        return a + b

    def compare(self, op, a, b):
        """comparison of two scalar values: bool or Cond"""
        if isinstance(a, Cond):
            a = self.boolval(a)
        if isinstance(b, Cond):
            b = self.boolval(b)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)) or a is NULL or b is NULL:
            return self.cmpptr(op, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op in ('==', '!=') and isinstance(b, int):
                r = a if b == 1 else a.neg() if b == 0 else None
                if r is not None:
                    return r if op == '==' else r.neg()
            if op in ('==', '!=') and isinstance(a, int):
                return self.compare(op, b, a)
            a, b = self.lin(a), self.lin(b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Cond('unk', 'comparison with %r %r' % (a, b))
        if isinstance(a, (TermV, ByteOf)) or isinstance(b, (TermV, ByteOf)):
            if op in ('==', '!='):
                if a == b:
                    return op == '=='
                c = Cond('sym', ('eqv', repr(a), repr(b)))
                return c if op == '==' else c.neg()
            a, b = self.lin(a), self.lin(b)
        if isinstance(a, int) and isinstance(b, int):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}[op]
        if isinstance(a, Tab) or isinstance(b, Tab):
            ta = self.astab(a) if not isinstance(a, int) else None
            tb = self.astab(b) if not isinstance(b, int) else None
            if ta is not None and isinstance(b, int):
                return Cond('tab', ta.map(lambda x: f(x, b)))
            if tb is not None and isinstance(a, int):
                return Cond('tab', tb.map(lambda x: f(a, x)))
            if ta is not None and tb is not None and ta.sym == tb.sym:
                return Cond('tab', Tab(ta.sym, {x: f(ta.f[x], tb.f[x]) for x in ta.f if x in tb.f}))
            a, b = self.lin(a), self.lin(b)
        d = poly.L(a) - poly.L(b)
        if d.is_const():
            return f(d.k, 0)
        if op == '<':
            return Cond('ge', -d - 1)
        if op == '<=':
            return Cond('ge', -d)
        if op == '>':
            return Cond('ge', d - 1)
        if op == '>=':
            return Cond('ge', d)
        if op == '==':
            return Cond('eq', d)
        return Cond('ne', d)

    def split(self, p):
        """pointer as (object, prefix, index)"""
        if p.path and not isinstance(p.path[-1], str):
            return p.obj, p.path[:-1], p.path[-1]
        return p.obj, p.path, 0

    def norm_path(self, path):
        return tuple(self.conc(c) if isinstance(c, Lin) else c for c in path)

    def cmpptr(self, op, a, b):
        if a is NULL or b is NULL:
            r = (a is NULL) == (b is NULL) and (a is b)
            return r if op == '==' else (not r) if op == '!=' else Cond('unk', 'null order')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            r = a == b
            return r if op == '==' else not r
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            return Cond('unk', 'pointer comparison')
        oa, pa, ia = self.split(a)
        ob, pb, ib = self.split(b)
        if oa == ob and self.norm_path(pa) == self.norm_path(pb):
            return self.compare(op, ia, ib)
        if op in ('==', '!='):
            return op == '!='
        return Cond('unk', 'order of unrelated pointers')

    def padd(self, p, n, elw=None):
        if p is NULL:
            if n == 0:
                return p
            raise GiveUp('arithmetic on a null pointer')
        if not isinstance(p, Ptr):
            raise GiveUp('pointer arithmetic on %r' % (p,))
        n = self.lin(n)
        if isinstance(n, int) and n == 0:
            return p
        if p.path and not isinstance(p.path[-1], str):
            i = p.path[-1] + n
            if isinstance(i, Lin) and i.is_const():
                i = i.k
            return Ptr(p.obj, p.path[:-1] + (i,))
        return p + n

    def psub(self, a, b):
        if a is NULL and b is NULL:
            return 0
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise GiveUp('pointer difference')
        oa, pa, ia = self.split(a)
        ob, pb, ib = self.split(b)
        if oa != ob or self.norm_path(pa) != self.norm_path(pb):
            raise GiveUp('difference of unrelated pointers %r %r' % (a, b))
        d = ia - ib
        if isinstance(d, Lin) and d.is_const():
            d = d.k
        return d

    # ------------------------------------------------------------------ memory
    def typeval(self, tk, name):
        """arbitrary value of a type"""
        t = self.ty(tk)
        if t['k'] == 'int':
            lo, hi = self.irange(t)
            lo, hi = self.range_hook(tk, name, lo, hi)
            self.st.declare(name, lo, hi)
            return Lin.var(name)
        if t['k'] == 'rec':
            return LazyV(tk, name)
        if t['k'] == 'arr':
            return ArrV(t['n'], t['to'], ('lazy', name))
        if t['k'] == 'void':
            return VOID
        return Unk('value of %s' % name)

    def range_hook(self, tk, name, lo, hi):
        if name.endswith('limit_'):
            hi = min(hi, self.assumed_limit)
        return lo, hi

    def expand(self, v):
        if not isinstance(v, LazyV):
            return v
        t = self.ty(v.t)
        if t['k'] != 'rec':
            return self.typeval(v.t, v.name)
        rk = t['r']
        qn = self.recqn(rk)
        if qn in ('std::vector',):
            ta = self.rec(rk)['targs']
            n = self.veclen(v.name)
            return VecV(ta[0], [('op', v.name, 0, n)])
        if qn == 'std::basic_string':
            n = self.veclen(v.name)
            return StrV(self.rec(rk)['targs'][0], [('op', v.name, 0, n)])
        if qn == 'YAML::Node':
            return TermV('node', v.name)
        return v

    def veclen(self, name):
        s = name + '.n'
        self.st.declare(s, 0, self.max_len)
        return Lin.var(s)

    def elname(self, name, i):
        """name of an element; an element already named under an equal index keeps its first name"""
        key = ('els', name)
        seen = self.st.meta.get(key, ())
        if i in seen:
            return '%s[%s]' % (name, i)
        if isinstance(i, Lin):
            cand = [j for j in seen if isinstance(j, Lin) and not (i - j).is_const()]
        else:
            cand = [j for j in seen if isinstance(j, Lin)]
        if cand:
            def same():
                for k, j in enumerate(cand):
                    if self.st.eq0(poly.L(i) - j):
                        return k + 1
                return 0
            k = self.forced(same)
            if k:
                return '%s[%s]' % (name, cand[k - 1])
        if self.exploring:
            # two names of one element must not drift apart: decide whether the indices meet
            open_ = cand + ([j for j in seen if isinstance(j, int)] if isinstance(i, Lin) else [])
            for n, j in enumerate(open_):
                d = poly.L(i) - j
                if n >= 12:
                    self.imprecise('elements under many names')
                    break
                if self.branch(Cond('eq', d)):
                    return '%s[%s]' % (name, j)
        if isinstance(i, Lin) or any(isinstance(j, Lin) for j in seen):
            self.st.meta[key] = seen + (i,)
        elif not seen:
            self.st.meta[key] = (i,)
        elif len(seen) < 64:
            self.st.meta[key] = seen + (i,)
        return '%s[%s]' % (name, i)

    def deflt(self, d, el, i):
        if isinstance(d, tuple) and d and d[0] == 'lazy':
            return self.typeval(el, self.elname(d[1], i))
        return d

    def field(self, v, c):
        if isinstance(v, LazyV):
            v = self.expand(v)
        if isinstance(v, LazyV):
            for n, t in self.fields(self.ty(v.t)['r']):
                if n == c:
                    if self.ty(t)['k'] == 'ref':
                        return Unk('reference member')
                    return self.typeval(t, v.name + '.' + n)
            return Unk('no field %s' % c)
        if isinstance(v, StructV):
            if c in v.f:
                return v.f[c]
            return Unk('no field %s' % c)
        if isinstance(v, TermV):
            if v.t[0] == 'order' and c == '_M_value':
                return v.t[1]
            return TermV('fld', v, c)
        if v is UNINIT:
            return UNINIT
        return Unk('field %s of %r' % (c, v))

    def seglen(self, g):
        return 1 if g[0] == 'e' else g[-1]

    def vlen(self, v):
        n = v.ne()
        if n == len(v.segs):
            return n
        if v._len is not None:
            return v._len
        for g in v.segs[n:]:
            n = self.seglen(g) + n
        if isinstance(n, Lin) and n.is_const():
            n = n.k
        v._len = n
        return n

    def clen(self, v):
        if isinstance(v, LazyV):
            v = self.expand(v)
        if isinstance(v, ArrV):
            return v.n
        if isinstance(v, VecV):
            return self.vlen(v)
        return None

    def bounds_ok(self, i, n, w=1):
        """0 <= i and i+w <= n"""
        if isinstance(i, int) and isinstance(n, int) and isinstance(w, int):
            return 0 <= i and i + w <= n
        return self.st.ge0(poly.L(i)) and self.st.ge0(poly.L(n) - i - w)

    def check_index(self, v, i, w, obj, what):
        n = self.clen(v)
        def ok():
            return 0 if self.bounds_ok(i, n, w) else 1
        good = self.forced(ok) == 0
        self.oblige('oob', good, '%s of %s byte(s)/element(s) at index %s of %s is not inside its %s element(s)' % (what, w, i, obj, n), [i, poly.L(n) - i - w])
        if not good:
            # continue with the in-bounds part of the trace
            if isinstance(i, int) and isinstance(n, int) and isinstance(w, int):
                raise Prune('out of bounds')
            self.st.add_ge(poly.L(i))
            self.st.add_ge(poly.L(n) - i - w)

    def index_seg(self, v, i):
        """segment containing index i: (seg number, offset inside)"""
        off = 0
        if isinstance(i, int):
            if 0 <= i < v.ne():
                return i, 0
            for k, g in enumerate(v.segs):
                l = self.seglen(g)
                if isinstance(l, int) and isinstance(off, int):
                    if i < off + l:
                        return k, i - off
                    off += l
                else:
                    break
        off = 0
        for k, g in enumerate(v.segs):
            l = self.seglen(g)
            rel = poly.L(i) - off
            if k == len(v.segs) - 1 or self.branch(self.compare('<', rel, l)):
                if rel.is_const():
                    rel = rel.k
                return k, rel
            off = l + off
        raise Prune('index')

    def elem(self, v, i):
        if isinstance(v, ArrV):
            if isinstance(i, Lin):
                i = self.conc(i)
            if isinstance(i, int):
                if i in v.over:
                    return v.over[i]
                return self.deflt(v.default, v.el, i)
            if not v.over:
                if isinstance(v.default, tuple) and v.default and v.default[0] == 'lazy':
                    return self.deflt(v.default, v.el, i)
                return v.default
            t = self.astab(i)
            if t is not None and all(isinstance(v.over.get(x, v.default), int) for x in t.f.values()):
                return self.normtab(Tab(t.sym, {k: v.over.get(x, v.default) for k, x in t.f.items()}))
            c = self.concretise(i, 512)
            if c is None:
                return Unk('element at an unknown index')
            return self.elem(v, c)
        if isinstance(v, VecV):
            if isinstance(i, Lin):
                i = self.conc(i)
            for start, ln, content in reversed(v.cap or ()):
                rel = poly.L(i) - start
                c1 = self.compare('>=', rel, 0)
                if self.branch(c1) and self.branch(self.compare('<', rel, ln)):
                    return content(self, rel) if callable(content) else content
            if not v.segs:
                return Unk('element of an empty sequence')
            k, rel = self.index_seg(v, i)
            g = v.segs[k]
            if g[0] == 'e':
                return g[1]
            if g[0] == 'op':
                p = poly.L(rel) + g[2]
                return self.typeval(v.el, self.elname(g[1], p.k if p.is_const() else p))
            if g[0] == 'fill':
                return g[1]
            if g[0] == 'txt':
                return Unk('character of formatted text')
            if g[0] in ('ser', 'map'):
                return self.typeval(v.el, self.elname(repr(g[1]), rel))
            return self.unkel(v.el)
        return Unk('indexing %r' % (v,))

    def unkel(self, el):
        t = self.ty(el)
        if t['k'] == 'int':
            lo, hi = self.irange(t)
            self.imprecise('unknown element')
            return self.fresh('el', lo, hi)
        return Unk('element')

    def is_byte_el(self, el):
        t = self.ty(el)
        return t['k'] == 'int' and t['w'] == 8

    def get(self, p, what='read', tk=None):
        """value at a pointer"""
        if p is NULL:
            self.oblige('null', False, 'null pointer dereferenced')
            raise Prune('null')
        if not isinstance(p, Ptr):
            raise GiveUp('load through %r' % (p,))
        if p.obj not in self.st.heap:
            raise GiveUp('dangling object ' + p.obj)
        v = self.st.heap[p.obj]
        n = len(p.path)
        for k, c in enumerate(p.path):
            if isinstance(c, str):
                v = self.field(v, c)
                continue
            if isinstance(v, LazyV):
                v = self.expand(v)
            if isinstance(v, (ArrV, VecV)):
                w = 1
                if k == n - 1 and tk is not None and self.is_byte_el(v.el) and v.el != tk:
                    w = self.width(tk) or 1
                self.check_index(v, c, w, Ptr(p.obj, p.path[:k]), what)
                if w > 1:
                    return self.load_wide(v, c, w, tk)
                v = self.elem(v, c)
            elif c == 0 or v is UNINIT:
                pass
            else:
                # pointer past a single object
                ok = self.decide(self.compare('==', c, 0)) if not isinstance(c, int) else False
                self.oblige('oob', bool(ok), '%s at index %s of a single object %s' % (what, c, p.obj))
                if not ok:
                    raise Prune('out of bounds')
        return v

    def load_wide(self, v, i, w, tk):
        t = self.ty(tk)
        bs = []
        for k in range(w):
            bs.append(self.elem(v, poly.L(i) + k if isinstance(i, Lin) else i + k))
        return self.frombytes(bs, tk)

    def frombytes(self, bs, tk):
        """integer of type tk from little-endian bytes"""
        t = self.ty(tk)
        if t['k'] != 'int':
            # array or record of bytes
            return self.unflatten(bs, tk)
        if UNINIT in bs:
            return UNINIT
        if all(isinstance(b, int) for b in bs):
            return self.wrap(sum((b & 255) << (8 * k) for k, b in enumerate(bs)), t)
        b0 = bs[0]
        if len(bs) == 1 and isinstance(b0, (Lin, Tab)) and not t.get('bool'):
            return self.wrap(b0, t)
        if isinstance(b0, ByteOf) and all(isinstance(b, ByteOf) and b.lin == b0.lin and b.i == k for k, b in enumerate(bs)) and b0.w == len(bs):
            return b0.lin if isinstance(b0.lin, (int, Lin)) else self.lin(b0.lin)
        key = ('le', tuple(map(repr, bs)))
        if key not in self.st.divs:
            lo, hi = self.irange(t)
            s = self.fresh('le%d(%r)' % (len(bs), b0), lo, hi)
            self.st.divs[key] = s
            self.st.meta[('def', next(iter(s.c)))] = ('le', tuple(bs))
        return self.st.divs[key]

    def tobytes(self, v, w):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return [(v >> (8 * k)) & 255 for k in range(w)]
        if v is UNINIT:
            return [UNINIT] * w
        if w == 1:
            if isinstance(v, Cond):
                v = self.lin(v)
            return [v]
        if isinstance(v, (Tab, Cond)):
            v = self.lin(v)
            if isinstance(v, int):
                return self.tobytes(v, w)
        d = isinstance(v, Lin) and len(v.c) == 1 and v.k == 0 and self.st.meta.get(('def', next(iter(v.c))))
        if d and isinstance(d, tuple) and d[0] == 'le' and len(d[1]) == w and list(v.c.values()) == [1]:
            return list(d[1])
        return [ByteOf(v, w, k) for k in range(w)]

    def load(self, p, tk, node=None):
        v = self.get(p, 'read', tk)
        if isinstance(v, LazyV):
            v = self.expand(v)
        if v is UNINIT and self.ty(tk)['k'] != 'rec':
            self.oblige('uninit', False, 'indeterminate value of %s read' % (p,))
            return self.typeval(tk, 'uninit%s' % self.fresh('u'))
        if v is not UNINIT and self.ty(tk)['k'] != 'rec':
            self.nobl['uninit'] = self.nobl.get('uninit', 0) + 1
        t = self.ty(tk)
        if t['k'] == 'int' and isinstance(v, (ArrV, StructV)):
            # integer read over a byte array
            fl = self.flatten(v, tk)
            w = self.width(tk)
            if fl is not None and w:
                if len(fl) < w:
                    self.oblige('oob', False, 'read of %d bytes from a %d-byte object %s' % (w, len(fl), p))
                    raise Prune('out of bounds')
                return self.frombytes(fl[:w], tk)
        return v

    def flatten(self, v, tk=None):
        """bytes of a byte-array value"""
        if isinstance(v, StructV) and '_M_elems' in v.f:
            v = v.f['_M_elems']
        if isinstance(v, LazyV):
            v = self.expand(v)
            if isinstance(v, LazyV):
                f = self.fields(self.ty(v.t)['r'])
                if len(f) == 1:
                    return self.flatten(self.field(v, f[0][0]))
        if isinstance(v, ArrV) and self.is_byte_el(v.el) and isinstance(v.n, int) and v.n <= 4096:
            return [self.elem(v, i) for i in range(v.n)]
        if isinstance(v, TermV) and v.t[0] != 'fld':
            return [ByteOf(v, 32, i) for i in range(32)]
        return None

    def unflatten(self, bs, tk):
        t = self.ty(tk)
        if t['k'] == 'arr':
            w = self.width(t['to'])
            if w == 1:
                return ArrV(t['n'], t['to'], 0, dict(enumerate(bs)))
            if w:
                return ArrV(t['n'], t['to'], 0, {i: self.frombytes(bs[i * w:i * w + w], t['to']) for i in range(t['n'])})
        if t['k'] == 'rec':
            f = self.fields(t['r'])
            if len(f) == 1:
                return StructV(t['r'], {f[0][0]: self.unflatten(bs, f[0][1]) if self.ty(f[0][1])['k'] != 'int' else self.frombytes(bs, f[0][1])})
        return Unk('reinterpreted bytes')

    def put(self, p, val, tk=None):
        if p is NULL:
            self.oblige('null', False, 'null pointer written through')
            raise Prune('null')
        if not isinstance(p, Ptr):
            raise GiveUp('store through %r' % (p,))
        if p.obj not in self.st.heap:
            raise GiveUp('dangling object ' + p.obj)
        if p.obj.startswith('const:'):
            self.oblige('constwrite', False, 'write to a constant object %s' % p.obj)
        self.st.heap[p.obj] = self.put_in(self.st.heap[p.obj], p.path, val, p, 0, tk)
        if self.st.meta.get('#track') is not None:
            self.st.meta['#track'].add((p.obj, p.path))

    def put_in(self, v, path, val, p, k, tk):
        if k == len(path):
            if val is not UNINIT and tk is not None and isinstance(v, (ArrV, StructV)) and self.ty(tk)['k'] == 'int':
                fl = self.flatten(v)
                w = self.width(tk)
                if fl is not None and w and w <= len(fl):
                    fl[:w] = self.tobytes(val, w)
                    base = v
                    if isinstance(v, StructV):
                        return v.set('_M_elems', ArrV(v.f['_M_elems'].n, v.f['_M_elems'].el, 0, dict(enumerate(fl))))
                    return ArrV(v.n, v.el, 0, dict(enumerate(fl)))
            return val
        c = path[k]
        if isinstance(v, LazyV):
            v = self.expand(v)
        if isinstance(c, str):
            if isinstance(v, LazyV):
                rk = self.ty(v.t)['r']
                v = StructV(rk, {n: (self.typeval(t, v.name + '.' + n) if self.ty(t)['k'] != 'ref' else Unk('ref')) for n, t in self.fields(rk)})
            if isinstance(v, StructV):
                return v.set(c, self.put_in(v.f.get(c, UNINIT), path, val, p, k + 1, tk))
            if v is UNINIT:
                return StructV('?', {c: self.put_in(UNINIT, path, val, p, k + 1, tk)})
            if isinstance(v, TermV) and c == '_M_elems':
                fl = [ByteOf(v, 32, i) for i in range(32)]
                a = ArrV(32, 'b:unsigned char', 0, dict(enumerate(fl)))
                return StructV('?', {c: self.put_in(a, path, val, p, k + 1, tk)})
            return Unk('store into %r' % (v,))
        if isinstance(v, (ArrV, VecV)):
            w = 1
            last = k == len(path) - 1
            if last and tk is not None and self.is_byte_el(v.el) and v.el != tk and self.ty(tk)['k'] == 'int':
                w = self.width(tk) or 1
            self.check_index(v, c, w, Ptr(p.obj, path[:k]), 'write')
            if w > 1:
                for j, b in enumerate(self.tobytes(val, w)):
                    v = self.set_elem(v, c + j, b)
                return v
            cur = UNINIT if last else self.elem(v, c)
            return self.set_elem(v, c, self.put_in(cur, path, val, p, k + 1, tk))
        if isinstance(c, int) and c == 0:
            return self.put_in(v, path, val, p, k + 1, tk)
        if v is UNINIT:
            return Unk('store into indeterminate')
        self.oblige('oob', False, 'write at index %s of a single object %s' % (c, p.obj))
        raise Prune('out of bounds')

    def set_elem(self, v, i, x):
        if isinstance(i, Lin):
            i = self.conc(i)
        if isinstance(v, ArrV):
            if not isinstance(i, int):
                c = self.concretise(i, 64)
                if c is None:
                    self.imprecise('store at an unknown index')
                    return ArrV(v.n, v.el, Unk('array'))
                i = c
            return v.set(i, x)
        if isinstance(i, int) and not v.cap:
            if 0 <= i < v.ne():
                return type(v)(v.el, v.segs[:i] + (('e', x),) + v.segs[i + 1:], None, v.ne())
            off = 0
            for k, g in enumerate(v.segs):
                l = self.seglen(g)
                if not isinstance(l, int):
                    break
                if i < off + l:
                    if g[0] == 'e':
                        return type(v)(v.el, v.segs[:k] + (('e', x),) + v.segs[k + 1:])
                    if g[0] == 'fill':
                        a = [('fill', g[1], i - off)] if i > off else []
                        b = [('fill', g[1], off + l - i - 1)] if off + l - i - 1 else []
                        return type(v)(v.el, v.segs[:k] + tuple(a) + (('e', x),) + tuple(b) + v.segs[k + 1:])
                    break
                off += l
        return type(v)(v.el, v.segs, (v.cap or ()) + ((i, 1, x),))

    # ------------------------------------------------------------------ sequences
    def whole(self, p):
        """segments of the sequence a pointer points into: (value, index)"""
        o, path, i = self.split(p)
        v = self.get(Ptr(o, path))
        if isinstance(v, LazyV):
            v = self.expand(v)
        return v, i

    def slice(self, p, n, width=1):
        """segments of n elements starting at pointer p"""
        v, i = self.whole(p)
        n = self.conc(self.lin(n))
        if n == 0:
            return []
        if isinstance(v, (ArrV, VecV)):
            self.check_index(v, i, n, Ptr(*self.split(p)[:2]), 'read')
        if isinstance(v, ArrV):
            if isinstance(n, int) and isinstance(i, int) and n <= 1024:
                return [('e', self.elem(v, i + k)) for k in range(n)]
            if not v.over and isinstance(v.default, tuple) and v.default and v.default[0] == 'lazy':
                return [('op', v.default[1], i, n)]
            if not v.over:
                return [('fill', v.default, n)]
            return [('unk', n)]
        if isinstance(v, VecV) and not v.cap:
            segs = self.cutsegs(v, i, n)
            if segs is not None:
                return segs
            if isinstance(n, int) and n <= 1024:
                return [('e', self.elem(v, i + k if isinstance(i, int) else i + k)) for k in range(n)]
        elif isinstance(v, VecV) and isinstance(n, int) and n <= 1024:
            return [('e', self.elem(v, i + k)) for k in range(n)]
        elif not isinstance(v, (VecV, ArrV)) and n == 1:
            return [('e', v)]
        self.imprecise('slice')
        return [('unk', n)]

    def cutsegs(self, v, i, n):
        """sub-segments [i, i+n) when the cut points are decidable"""
        out = []
        off = 0
        i, end = poly.L(i), poly.L(i) + n
        for g in v.segs:
            l = self.seglen(g)
            s, e = poly.L(off), poly.L(off) + l
            off = e
            if self.st.ge0(s - end):
                break
            if self.st.ge0(i - e):
                continue
            if self.st.ge0(s - i) and self.st.ge0(end - e):
                out.append(g)
                continue
            if g[0] == 'op':
                a = i if self.st.ge0(i - s) else s if self.st.ge0(s - i) else None
                b = end if self.st.ge0(e - end) else e if self.st.ge0(end - e) else None
                if a is None or b is None:
                    return None
                o2, l2 = a - s + g[2], b - a
                out.append(('op', g[1], o2.k if o2.is_const() else o2, l2.k if l2.is_const() else l2))
                continue
            if g[0] == 'fill':
                a = i if self.st.ge0(i - s) else s if self.st.ge0(s - i) else None
                b = end if self.st.ge0(e - end) else e if self.st.ge0(end - e) else None
                if a is None or b is None:
                    return None
                l2 = b - a
                out.append(('fill', g[1], l2.k if l2.is_const() else l2))
                continue
            return None
        return out

    def write_seq(self, p, segs, total):
        """store a list of segments at pointer p (memcpy/copy)"""
        o, path, i = self.split(p)
        if total == 0:
            return
        v = self.get(Ptr(o, path))
        if isinstance(v, LazyV):
            v = self.expand(v)
        if not isinstance(v, (ArrV, VecV)):
            if len(segs) == 1 and segs[0][0] == 'e':
                self.put(Ptr(o, path), segs[0][1])
                return
            raise GiveUp('copy into %r' % (v,))
        self.check_index(v, i, total, Ptr(o, path), 'write')
        if all(g[0] == 'e' for g in segs) and isinstance(i, int):
            for k, g in enumerate(segs):
                v = self.set_elem(v, i + k, g[1])
        elif isinstance(v, ArrV):
            if len(segs) == 1 and segs[0][0] == 'op' and i == 0 and self.conc(total) == v.n:
                v = ArrV(v.n, v.el, ('lazy', segs[0][1])) if segs[0][2] == 0 else ArrV(v.n, v.el, 0, {k: self.typeval(v.el, self.elname(segs[0][1], poly.L(segs[0][2]) + k if not isinstance(segs[0][2], int) else segs[0][2] + k)) for k in range(v.n)})
            elif len(segs) == 1 and segs[0][0] == 'op' and i == 0 and not v.over and v.default == 0 and v.n == 32:
                # zero-padded partial chunk
                if path and path[-1] == '_M_elems':
                    self.put(Ptr(o, path[:-1]), TermV('padchunk', segs[0][1], segs[0][2], total))
                    return
                v = ArrV(v.n, v.el, Unk('partial copy'))
            else:
                v = ArrV(v.n, v.el, Unk('partial copy'))
        else:
            n = self.vlen(v)
            if i == 0 and self.st.eq0(poly.L(total) - n):
                v = type(v)(v.el, segs)
            else:
                v = type(v)(v.el, v.segs, (v.cap or ()) + ((i, total, Unk('copied region')),))
        self.put(Ptr(o, path), v)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise GiveUp('step limit')
        fr = self.frames[-1]
        l = e.get('l')
        if l:
            fr.line = l
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise GiveUp('expression %s %s' % (e['k'], e.get('n', '')))
        return m(e)

    def rv(self, e):
        """value of an expression, loading glvalues"""
        v = self.ev(e)
        if e.get('lv'):
            return self.load(v, e['t'])
        return v

    def lvp(self, e):
        """pointer to the object an expression denotes"""
        v = self.ev(e)
        if e.get('lv'):
            return v
        return self.alloc('tmp', v)

    def e_Int(self, e):
        return e['v']

    def e_Str(self, e):
        k = 'const:str:' + e['v']
        if k not in self.st.heap:
            # the literal's bytes as stored (signed char values)
            b = [((ord(c) + 128) % 256) - 128 if ord(c) < 256 else 63 for c in e['v']] + [0]
            self.st.heap[k] = ArrV(len(b), 'b:char', 0, dict(enumerate(b)))
        if 't' in e and not e.get('lv'):
            t = self.ty(e['t'])
            v = self.st.heap[k]
            return ArrV(t['n'], t['to'], 0, v.over) if t['k'] == 'arr' else v
        return Ptr(k)

    def e_Null(self, e):
        return NULL

    def e_Opaque(self, e):
        return Unk('opaque') if self.ty(e['t'])['k'] != 'void' else VOID

    def e_This(self, e):
        fr = self.frames[-1]
        if fr.f.get('rec') and self.rec(fr.f['rec']).get('lambda'):
            # captured this
            return self.get(fr.this + 'this#')
        return fr.this

    def e_Var(self, e):
        fr = self.frames[-1]
        p = fr.env.get(e['id'])
        if p is None and fr.rec:
            caps = self.rec(fr.rec).get('caps') or {}
            if e['id'] in caps:
                f = caps[e['id']]
                v = fr.this + f
                for n, t in self.fields(fr.rec):
                    if n == f and self.ty(t)['k'] == 'ref':
                        return self.get(v)
                return v
        if p is None:
            raise GiveUp('variable %s' % e['n'])
        return p

    def e_Glob(self, e):
        return self.globptr(e['g'])

    def globptr(self, g):
        k = 'glob:' + g
        if k in self.st.heap:
            return Ptr(k)
        gl = self.P.globals.get(g)
        if gl is None:
            raise GiveUp('global ' + g)
        h = self.hooks.get('global:' + gl['qn'])
        if h:
            self.st.heap[k] = h(self, gl)
            return Ptr(k)
        t = self.ty(gl['t'])
        if t['k'] == 'ref':
            if gl.get('init'):
                v = self.ev(gl['init'])
                return v
            raise GiveUp('reference global')
        if gl.get('val') is not None:
            v = self.fromap(gl['val'], gl['t'])
        elif gl.get('constinit') and gl.get('init') and gl.get('const'):
            v = None
            try:
                v = self.rv(gl['init'])
            except GiveUp:
                v = self.typeval(gl['t'], 'glob:' + gl['qn'])
        elif self.isrec(gl['t']) and self.recqn(self.ty(gl['t'])['r']).startswith('std::ios') or gl['qn'].startswith('std::c'):
            v = StructV('stream', {'buf': StrV('b:char', ()), 'hex': 0, 'fill': 32, 'w': 0})
        else:
            v = self.typeval(gl['t'], 'glob:' + gl['qn'])
        self.st.heap[k] = v
        return Ptr(k)

    def fromap(self, v, tk):
        t = self.ty(tk)
        if v is None:
            return Unk('constant')
        if t['k'] == 'int':
            return v
        if t['k'] == 'arr':
            if isinstance(v, str):
                b = [((ord(c) + 128) % 256) - 128 for c in v]
                return ArrV(t['n'], t['to'], 0, dict(enumerate(b)))
            return ArrV(t['n'], t['to'], 0, {i: self.fromap(x, t['to']) for i, x in enumerate(v)})
        if t['k'] == 'rec':
            r = self.rec(t['r'])
            d = {}
            for b, bv in zip(r.get('bases') or (), v.get('b', ())):
                s = self.fromap(bv, b)
                if isinstance(s, StructV):
                    d.update(s.f)
            for f, fv in zip(r.get('fields') or (), v.get('f', ())):
                d[f['n']] = self.fromap(fv, f['t'])
            if r.get('qn') == 'std::basic_string_view':
                return Unk('string_view constant')
            return StructV(t['r'], d)
        if t['k'] == 'ptr' and isinstance(v, str):
            return self.e_Str({'v': v}) + 0
        return Unk('constant of %s' % tk)

    def e_Fn(self, e):
        return FnPtr(e['f'])

    def e_MemPtr(self, e):
        return MemPtr(e['n'])

    def e_MemFn(self, e):
        return MemFn(e['f'], e.get('v'))

    def e_Mem(self, e):
        b = self.ev(e['b'])
        if e['arrow']:
            p = b
        elif e['b'].get('lv'):
            p = b
        else:
            if not e.get('lv'):
                return self.field(b, e['n'])
            p = self.alloc('tmp', b)
        if not isinstance(p, Ptr):
            if p is NULL:
                self.oblige('null', False, 'member of a null pointer')
                raise Prune('null')
            raise GiveUp('member %s of %r' % (e['n'], p))
        # a field of reference type denotes its referent
        for f in self.rec(e['r']).get('fields') or ():
            if f['n'] == e['n'] and self.ty(f['t'])['k'] == 'ref':
                v = self.get(p + e['n'])
                if not isinstance(v, Ptr):
                    raise GiveUp('reference member')
                return v
        return p + e['n']

    def e_Sub(self, e):
        b, i = self.ev(e['b']), self.rv(e['i'])
        if isinstance(i, Ptr):
            b, i = i, b
        if not isinstance(b, Ptr):
            raise GiveUp('subscript of %r' % (b,))
        if isinstance(i, Tab) or isinstance(i, Lin):
            # keep table-valued indexes for constant tables
            o, path, k = self.split(b)
            v = self.get(Ptr(o, path))
            if isinstance(v, ArrV) and k == 0:
                t = self.astab(i)
                if t is not None:
                    return self.tabindex(Ptr(o, path), v, t)
        return self.padd(b, i)

    def tabindex(self, p, v, t):
        n = self.normtab(t)
        if isinstance(n, (int, Lin)):
            return p + n
        bad = [x for x in t.f.values() if not 0 <= x < v.n]
        if bad:
            self.oblige('oob', False, 'index %s outside %s of %d elements' % (bad[0], p, v.n))
            if self.branch(Cond('tab', t.map(lambda x: not 0 <= x < v.n))):
                raise Prune('out of bounds')
            t = Tab(t.sym, {k: x for k, x in t.f.items() if 0 <= x < v.n})
        val = self.normtab(Tab(t.sym, {k: self.elem(v, x) for k, x in t.f.items()})) if all(isinstance(self.elem(v, x), int) for x in t.f.values()) else None
        if val is None:
            return p + self.lin(t)
        return self.alloc('const:tab', val)

    def e_Un(self, e):
        op = e['op']
        if op == '&':
            v = self.ev(e['e'])
            return v
        if op == '*':
            v = self.ev(e['e'])
            if isinstance(v, FnPtr):
                return v
            if v is NULL:
                self.oblige('null', False, 'null pointer dereferenced')
                raise Prune('null')
            return v
        if op in ('++', '--'):
            p = self.ev(e['e'])
            tk = e['e']['t']
            old = self.load(p, tk)
            d = 1 if op == '++' else -1
            if self.ty(tk)['k'] == 'ptr':
                new = self.padd(old, d)
            else:
                new = self.arith('+', old, d, self.ty(tk))
            self.put(p, new, tk)
            if e['post']:
                return old
            return p if e.get('lv') else new
        if op == '!':
            c = self.tocond(self.rv(e['e']))
            return (not c) if isinstance(c, bool) else c.neg()
        v = self.rv(e['e'])
        t = self.ty(e['t'])
        if op == '-':
            return self.arith('-', 0, v, t)
        if op == '+':
            return v
        if op == '~':
            if isinstance(v, int):
                return self.wrap(~v, t)
            return self.arith('-', -1, v, t) if t.get('s') else self.arith('-', self.irange(t)[1], v, t)
        if op in ('__extension__',):
            return v
        raise GiveUp('unary ' + op)

    def e_Bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.tocond(self.rv(e['a']))
            if not self.branch(a):
                return 0
            b = self.tocond(self.rv(e['b']))
            return int(b) if isinstance(b, bool) else b
        if op == '||':
            a = self.tocond(self.rv(e['a']))
            if self.branch(a):
                return 1
            b = self.tocond(self.rv(e['b']))
            return int(b) if isinstance(b, bool) else b
        if op == '=':
            if self.isrec(e['a']['t']):
                raise GiveUp('record assignment')
            v = self.rv(e['b'])
            p = self.ev(e['a'])
            self.put(p, v, e['a']['t'])
            return p
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a, b = self.rv(e['a']), self.rv(e['b'])
        if op in ('<', '<=', '>', '>=', '==', '!='):
            r = self.compare(op, a, b)
            return int(r) if isinstance(r, bool) else r
        if op == '<=>':
            return self.three(a, b)
        pa, pb = self.ty(e['a']['t'])['k'] == 'ptr', self.ty(e['b']['t'])['k'] == 'ptr'
        if pa and pb and op == '-':
            d = self.psub(a, b)
            return self.wrap(d, e['t'])
        if pa and op in '+-':
            return self.padd(a, b if op == '+' else self.arith('-', 0, b, self.ty('b:long') if 'b:long' in self.P.types else {'k': 'int', 'w': 64, 's': 1}))
        if pb and op == '+':
            return self.padd(b, a)
        if op in ('.*', '->*'):
            if isinstance(b, MemPtr):
                p = a if isinstance(a, Ptr) else self.alloc('tmp', a)
                return p + b.n
            raise GiveUp('member pointer')
        return self.arith(op, a, b, self.ty(e['t']))

    def three(self, a, b):
        if self.branch(self.compare('==', a, b)):
            return TermV('order', 0)
        if self.branch(self.compare('<', a, b)):
            return TermV('order', -1)
        return TermV('order', 1)

    def e_Asg(self, e):
        op = e['op'][:-1]
        tk = e['a']['t']
        b = self.rv(e['b'])
        p = self.ev(e['a'])
        old = self.load(p, tk)
        if self.ty(tk)['k'] == 'ptr':
            new = self.padd(old, b if op == '+' else self.arith('-', 0, b, {'k': 'int', 'w': 64, 's': 1}))
        else:
            ct = self.ty(e['ct'])
            if ct['k'] != 'int':
                new = Unk('floating point')
            else:
                if op not in ('<<', '>>'):
                    pass
                new = self.arith(op, self.wrap(old, ct) if not isinstance(old, Cond) else old, b, ct)
                new = self.wrap(new, tk)
        self.put(p, new, tk)
        return p

    def e_Cond(self, e):
        c = self.rv(e['c'])
        if isinstance(c, Cond) and c.op == 'tab' and self.ty(e['t'])['k'] == 'int' and not e.get('lv'):
            return self.merged(lambda: self.rv(e['a'] if self.branch(c) else e['b']))
        x = e['a'] if self.branch(c) else e['b']
        if e.get('lv'):
            return self.lvp(x)
        if self.ty(e['t'])['k'] == 'void':
            return self.ev(x)
        return self.rv(x)

    def e_Cast(self, e):
        ck = e['ck']
        s = e['e']
        if ck == 'LValueToRValue':
            v = self.ev(s)
            if not s.get('lv'):
                return v
            if isinstance(v, FnPtr):
                return v
            return self.load(v, s['t'])
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast',
                  'LValueBitCast', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'Dynamic', 'LValueToRValueBitCast', 'AddressSpaceConversion'):
            return self.ev(s)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(s)
            if not s.get('lv') and not isinstance(v, Ptr):
                v = self.alloc('tmp', v)
            return v + 0 if isinstance(v, Ptr) else v
        if ck == 'ToVoid':
            self.ev(s)
            return VOID
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            v = self.rv(s)
            return self.wrap(v, e['t'])
        if ck == 'IntegralToBoolean':
            v = self.rv(s)
            return self.boolval(v)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            v = self.rv(s)
            c = self.tocond(v)
            return int(c) if isinstance(c, bool) else c
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
            self.rv(s)
            t = self.ty(e['t'])
            if t['k'] == 'int':
                lo, hi = self.irange(t)
                self.imprecise('floating point')
                return self.fresh('fp', lo, hi)
            return Unk('floating point')
        if ck == 'PointerToIntegral':
            self.rv(s)
            self.imprecise('pointer as integer')
            return self.fresh('addr', 0, (1 << 64) - 1)
        raise GiveUp('cast ' + ck)

    def e_Mat(self, e):
        v = self.ev(e['e'])
        if e['e'].get('lv'):
            return v
        return self.alloc('tmp', v)

    def e_DefInit(self, e):
        return self.ev(e['e'])

    def e_Throw(self, e):
        if e.get('e') is None:
            raise Thrown('rethrow')
        v = self.ev(e['e'])
        raise Thrown(e['e']['t'], v)

    def e_Zero(self, e):
        return self.zero(e['t'])

    def zero(self, tk):
        t = self.ty(tk)
        if t['k'] == 'int':
            return 0
        if t['k'] == 'ptr' or t['k'] == 'nullptr' or t['k'] == 'memptr':
            return NULL
        if t['k'] == 'arr':
            return ArrV(t['n'], t['to'], self.zero(t['to']))
        if t['k'] == 'rec':
            if self.recqn(t['r']) == 'std::vector':
                return VecV(self.rec(t['r'])['targs'][0])
            return StructV(t['r'], {n: self.zero(ft) for n, ft in self.fields(t['r'])})
        if t['k'] == 'void':
            return VOID
        return 0

    def uninit(self, tk):
        t = self.ty(tk)
        if t['k'] == 'arr':
            return ArrV(t['n'], t['to'], self.uninit(t['to']))
        if t['k'] == 'rec':
            m = self.default_model(t['r'])
            if m is not None:
                return m
            return StructV(t['r'], {n: self.uninit(ft) for n, ft in self.fields(t['r'])})
        return UNINIT

    def default_model(self, rk):
        return None

    def e_List(self, e):
        t = self.ty(e['t'])
        a = e['a']
        if e.get('tr') and len(a) == 1:
            return self.ev(a[0])
        if t['k'] == 'arr':
            fill = e.get('fill')
            over = {i: self.rv(x) for i, x in enumerate(a)}
            d = UNINIT
            if fill is not None and len(a) < t['n']:
                d = self.rv(fill)
            elif len(a) < t['n']:
                d = self.zero(t['to'])
            return ArrV(t['n'], t['to'], d, over)
        if t['k'] == 'rec':
            r = self.rec(t['r'])
            d = {}
            k = 0
            for b in r.get('bases') or ():
                if k < len(a):
                    v = self.rv(a[k])
                    if isinstance(v, StructV):
                        d.update(v.f)
                    k += 1
            for f in r.get('fields') or ():
                if k < len(a):
                    if self.ty(f['t'])['k'] == 'ref':
                        d[f['n']] = self.lvp(a[k])
                    else:
                        d[f['n']] = self.rv(a[k])
                    k += 1
                else:
                    d[f['n']] = self.zero(f['t'])
            return StructV(t['r'], d)
        if len(a) == 1:
            return self.rv(a[0])
        if not a:
            return self.zero(e['t'])
        raise GiveUp('initializer list')

    def e_Lambda(self, e):
        d = {}
        fl = self.fields(e['r'])
        ct = self.rec(e['r']).get('capthis')
        names = list(fl)
        for (n, t), x in zip(names, e['a']):
            if n == ct or x['k'] == 'This':
                d[n] = self.ev(x)
                d['this#'] = d[n]
            elif self.ty(t)['k'] == 'ref':
                d[n] = self.lvp(x)
            else:
                d[n] = self.rv(x)
        return StructV(e['r'], d)

    def e_StdInit(self, e):
        v = self.ev(e['e'])
        p = v if e['e'].get('lv') else self.alloc('il', v)
        arr = self.get(p)
        n = arr.n if isinstance(arr, ArrV) else 0
        rk = self.reckey(e['t'])
        return StructV(rk, {'_M_array': p + 0, '_M_len': n})

    def e_ArrLoop(self, e):
        v = self.ev(e['e'])
        if e['e'].get('lv') or isinstance(v, Ptr):
            return self.get(v)
        return v

    def e_BitCast(self, e):
        v = self.rv(e['e'])
        st, dt = e['e']['t'], e['t']
        w = self.width(st)
        if self.ty(st)['k'] == 'int':
            bs = self.tobytes(v, w)
        else:
            bs = self.flatten(v)
        if bs is None:
            return Unk('bit_cast')
        if self.ty(dt)['k'] == 'int':
            return self.frombytes(bs, dt)
        return self.unflatten(bs, dt)

    def e_New(self, e):
        if e.get('pl') and e.get('p'):
            p = self.ev(e['p'])
            v = self.ev(e['i']) if e.get('i') else self.uninit(e['at'])
            self.put(p, v)
            return p
        v = self.ev(e['i']) if e.get('i') else self.uninit(e['at'])
        return self.alloc('new', v)

    def e_Delete(self, e):
        return VOID

    def e_InhCtor(self, e):
        raise GiveUp('inherited constructor')

    # ------------------------------------------------------------------ calls
    def argvals(self, f, args):
        ps = f.get('params') or []
        out = []
        for i, a in enumerate(args):
            t = self.ty(ps[i]['t'])['k'] if i < len(ps) else None
            if t == 'ref':
                out.append(self.lvp(a))
            elif t is None and a.get('lv'):
                out.append(self.load(self.ev(a), a['t']))
            else:
                v = self.ev(a)
                if a.get('lv') and not isinstance(v, FnPtr):
                    v = self.load(v, a['t'])
                out.append(v)
        return out

    def e_Call(self, e):
        f = self.P.funcs.get(e['f'])
        if f is None:
            raise GiveUp('call of ' + e['f'])
        args = self.argvals(f, e['a'])
        return self.call(e['f'], None, args, e)

    def e_PCall(self, e):
        c = self.rv(e['c'])
        if isinstance(c, FnPtr):
            f = self.P.funcs.get(c.f)
            if f is None:
                raise GiveUp('call of ' + c.f)
            return self.call(c.f, None, self.argvals(f, e['a']), e)
        h = self.hooks.get('#pcall')
        if h:
            args = [self.lvp(a) if a.get('lv') else self.ev(a) for a in e['a']]
            return h(self, c, args, e)
        raise GiveUp('call through %r' % (c,))

    def e_MPCall(self, e):
        o = self.ev(e['o'])
        p = self.rv(e['p'])
        if isinstance(p, MemFn):
            f = self.P.funcs.get(p.f)
            this = o
            if isinstance(o, StructV):
                this = self.alloc('tmp', o)
            return self.mcall(p.f, this, self.argvals(f, e['a']), e, bool(p.v))
        raise GiveUp('member pointer call')

    def e_MCall(self, e):
        f = self.P.funcs.get(e['f'])
        if f is None:
            raise GiveUp('call of ' + e['f'])
        o = self.ev(e['o'])
        if not e['arrow'] and not e['o'].get('lv'):
            o = self.alloc('tmp', o)
        elif e['arrow'] and e['o'].get('lv'):
            o = self.load(o, e['o']['t'])
        args = self.argvals(f, e['a'])
        return self.mcall(e['f'], o, args, e, bool(e['v']))

    def dyn(self, p):
        """dynamic class of the object at p"""
        v = self.get(p)
        if isinstance(v, LazyV):
            return self.ty(v.t).get('r')
        if isinstance(v, StructV):
            return v.rec
        return None

    def override(self, rk, fk):
        seen = set()
        todo = [rk]
        while todo:
            r = todo.pop(0)
            if r in seen or r is None:
                continue
            seen.add(r)
            for m in self.rec(r).get('methods') or ():
                if m['f'] == fk or fk in self.allov(m):
                    return m['f']
            for b in self.rec(r).get('bases') or ():
                todo.append(self.reckey(b))
        return None

    def allov(self, m):
        out = set()
        todo = list(m.get('ov') or ())
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            f = self.P.funcs.get(k)
            if f and f.get('m'):
                todo += f['m'].get('ov') or ()
        return out

    def mcall(self, fk, this, args, node, virt):
        if virt and isinstance(this, Ptr):
            rk = self.dyn(this)
            if rk:
                g = self.override(rk, fk)
                if g:
                    fk = g
        return self.call(fk, this, args, node)

    SSZ = {'serialize', 'deserialize', 'hash_tree', 'hash_tree_root', 'encode', 'decode'}

    def call(self, fk, this, args, node):
        f = self.P.funcs.get(fk)
        if f is None:
            raise GiveUp('call of ' + fk)
        self.calllog.add(fk)
        qn = f['qn']
        h = self.hooks.get(qn)
        if h is not None:
            r = h(self, this, args, f, node)
            if r is not NotImplemented:
                return r
        rk = f.get('rec')
        if rk and isinstance(this, Ptr) and self.contracts and f['n'] in self.SSZ and self.is_ssz(rk) and this != self.root:
            r = self.ssz_contract(fk, f, this, args, node)
            if r is not NotImplemented:
                return r
        m = self.model(fk, f, this, args, node)
        if m is not NotImplemented:
            return m
        if 'body' not in f:
            if f.get('defaulted') or f.get('trivial'):
                return self.defaulted(f, this, args)
            raise GiveUp('no body and no model for ' + qn)
        if f.get('ctor'):
            raise GiveUp('constructor call ' + qn)
        if (f.get('defaulted') or f.get('trivial')) and f['n'] == 'operator=':
            return self.defaulted(f, this, args)
        return self.invoke(fk, f, this, args)

    def defaulted(self, f, this, args):
        if f['n'] == 'operator=':
            v = self.get(args[0])
            self.put(this, v)
            return this
        if f.get('dtor'):
            return VOID
        raise GiveUp('defaulted ' + f['qn'])

    def nested(self, thunk, cap=48):
        """all traces of a thunk started in the current state"""
        save = (self.trail, self.pos, self.st, self.frames)
        lines = [fr.line for fr in self.frames]
        stack = [[]]
        outs = []
        n = 0
        try:
            while stack:
                prefix = stack.pop()
                n += 1
                if n > cap:
                    return None
                self.trail = list(prefix)
                self.pos = 0
                self.frames = list(save[3])
                self.st = save[2].copy()
                try:
                    v = thunk()
                    outs.append((v, self.st))
                except Prune as e:
                    if e.why != 'infeasible':
                        return None
                except (GiveUp, Thrown, Ret, Brk, Cont):
                    return None
                for i in range(len(prefix), len(self.trail)):
                    c, k = self.trail[i]
                    for alt in range(c + 1, k):
                        stack.append(self.trail[:i] + [(alt, k)])
        finally:
            self.trail, self.pos, self.st, self.frames = save
            for fr, l in zip(self.frames, lines):
                fr.line = l
        return outs

    def joined(self, thunk):
        """value of a side-effect-free thunk as one table over a small symbol, or None"""
        st = self.st
        no, nn = len(self.obl), dict(self.nobl)
        ids = {k: v for k, v in st.heap.items()}
        outs = self.nested(thunk)
        if len(self.obl) > no or not outs or len(outs) < 2:
            self.obl[no:] = [o for o in self.obl[no:] if o[3]]
            self.nobl = nn
            return None
        sym = None
        tab = {}
        nxt = st.next
        for v, s in outs:
            nxt = max(nxt, s.next)
            if len(s.events) != len(st.events) or (s.imprecise is not None and st.imprecise is None):
                return None
            for k, x in ids.items():
                if s.heap.get(k) is not x:
                    return None
            for c, val in s.path[len(st.path):]:
                if c.op == 'tab':
                    x = c.a.sym
                elif c.op in ('ge', 'eq', 'ne') and len(c.a.c) == 1:
                    x = next(iter(c.a.c))
                else:
                    return None
                if sym is None:
                    sym = x
                if x != sym:
                    return None
        if sym is None or not self.small(sym):
            return None
        for v, s in outs:
            save = self.st
            self.st = s
            try:
                d = self.domain(sym)
                if isinstance(v, Cond) and v.op == 'tab' and v.a.sym == sym:
                    v = v.a.map(int)
                for x in d:
                    if isinstance(v, (bool, int)):
                        y = int(v)
                    elif isinstance(v, Tab) and v.sym == sym and x in v.f:
                        y = v.f[x]
                    elif isinstance(v, Lin) and set(v.c) == {sym}:
                        y = v.c[sym] * x + v.k
                    else:
                        return None
                    if x in tab and tab[x] != y:
                        return None
                    tab[x] = y
            except GiveUp:
                return None
            finally:
                self.st = save
        st.next = nxt
        if any(x not in tab for x in self.domain(sym)):
            return None
        return self.normtab(Tab(sym, tab))

    def merged(self, thunk):
        """run a thunk, joining its traces when they only split on one small symbol"""
        box = []
        def trial():
            v = self.joined(thunk)
            box.append(v)
            return 0 if v is not None else 1
        if self.forced(trial):
            return thunk()
        if box:
            return box[0]
        v = self.joined(thunk)
        if v is None:
            raise GiveUp('join')
        return v

    def smallarg(self, a):
        return isinstance(a, Tab) or isinstance(a, Lin) and len(a.c) == 1 and self.small(next(iter(a.c)))

    def invoke(self, fk, f, this, args):
        if f.get('ret') and self.ty(f['ret'])['k'] == 'int' and any(self.smallarg(a) for a in args) and not getattr(self, 'nomerge', False):
            return self.merged(lambda: self.invoke0(fk, f, this, args))
        return self.invoke0(fk, f, this, args)

    def invoke0(self, fk, f, this, args):
        if len(self.frames) > 120:
            raise GiveUp('call depth')
        if self.until and time.monotonic() > self.until:
            raise GiveUp('time limit')
        fr = Frame(fk, f, this, f.get('rec'))
        for p, a in zip(f.get('params') or (), args):
            if self.ty(p['t'])['k'] == 'ref':
                fr.env[p['id']] = a
            else:
                fr.env[p['id']] = self.alloc(p['n'] or 'arg', a)
        self.frames.append(fr)
        try:
            self.block(f['body'])
            r = VOID
        except Ret as x:
            r = x.v
        finally:
            self.frames.pop()
        return r

    def e_Ctor(self, e):
        f = self.P.funcs.get(e['f'])
        if f is None:
            raise GiveUp('constructor ' + e['f'])
        t = self.ty(e['t'])
        if t['k'] == 'arr':
            el = t
            while el['k'] == 'arr':
                elk = el['to']
                el = self.ty(elk)
            one = self.construct(e["f"], f, self.argvals(f, e["a"]), elk)
            v = one
            def build(tk):
                tt = self.ty(tk)
                return ArrV(tt['n'], tt['to'], build(tt['to'])) if tt['k'] == 'arr' else one
            return build(e['t'])
        args = self.argvals(f, e['a'])
        return self.construct(e['f'], f, args, e['t'], zero=e.get('z'))

    def construct(self, fk, f, args, tk, zero=False):
        rk = f['rec']
        self.calllog.add(fk)
        h = self.hooks.get(f['qn'])
        if h is not None:
            r = h(self, None, args, f, tk)
            if r is not NotImplemented:
                return r
        m = self.model_ctor(fk, f, args, rk)
        if m is not NotImplemented:
            return m
        ps = f.get('params') or []
        copyish = len(ps) >= 1 and self.ty(ps[0]['t'])['k'] == 'ref' and self.reckey(ps[0]['t']) == rk and (len(ps) == 1)
        if copyish and (f.get('defaulted') or f.get('trivial')):
            return self.copy_value(args[0], rk)
        if 'body' not in f and 'inits' not in f:
            if f.get('defaulted') or f.get('trivial'):
                if not ps:
                    return self.zero('R:' + rk) if zero else self.uninit_rec(rk)
            raise GiveUp('no body and no model for ' + f['qn'])
        p = self.alloc('obj', self.zero('R:' + rk) if zero else self.uninit_rec(rk))
        self.run_ctor(fk, f, p, args)
        return self.st.heap[p.obj]

    def copy_value(self, p, rk):
        v = self.get(p)
        if isinstance(v, StructV) and v.rec != rk and rk != '?' and v.rec != '?':
            # slicing to a base
            names = [n for n, _ in self.fields(rk)]
            return StructV(rk, {n: v.f.get(n, UNINIT) for n in names})
        return v

    def uninit_rec(self, rk):
        return StructV(rk, {n: self.uninit(t) for n, t in self.fields(rk)})

    def run_ctor(self, fk, f, p, args):
        if len(self.frames) > 120:
            raise GiveUp('call depth')
        fr = Frame(fk, f, p, f.get('rec'))
        for q, a in zip(f.get('params') or (), args):
            if self.ty(q['t'])['k'] == 'ref':
                fr.env[q['id']] = a
            else:
                fr.env[q['id']] = self.alloc(q['n'] or 'arg', a)
        self.frames.append(fr)
        try:
            for i in f.get('inits') or ():
                x = i['e']
                if i.get('del'):
                    v = self.ev(x)
                    self.put(p, v)
                elif 'base' in i:
                    brk = self.reckey(i['base'])
                    if x is None:
                        continue
                    if not self.fields(brk) and x['k'] == 'Ctor' and not x['a']:
                        continue
                    v = self.ev(x)
                    if isinstance(v, LazyV):
                        v = StructV(brk, {n: self.field(v, n) for n, _ in self.fields(brk)})
                    if isinstance(v, StructV):
                        cur = self.get(p)
                        for n, y in v.f.items():
                            cur = cur.set(n, y)
                        self.put(p, cur)
                    elif not self.fields(brk):
                        pass
                    else:
                        raise GiveUp('base initializer')
                else:
                    ft = next((t for n, t in self.fields(f['rec']) if n == i['n']), None)
                    if ft and self.ty(ft)['k'] == 'ref':
                        v = self.lvp(x)
                    else:
                        v = self.rv(x)
                    self.put(p + i['n'], v)
            if f.get('body'):
                try:
                    self.block(f['body'])
                except Ret:
                    pass
        finally:
            self.frames.pop()

    # ------------------------------------------------------------------ statements
    def block(self, s):
        if s is None:
            return
        k = s['k']
        if 'l' in s and k not in ('Block',):
            self.frames[-1].line = s['l']
        getattr(self, 's_' + k, self.s_unknown)(s)

    def s_unknown(self, s):
        raise GiveUp('statement %s %s' % (s['k'], s.get('n', '')))

    def s_Null(self, s):
        pass

    def s_Block(self, s):
        for x in s['s']:
            if x is not None:
                self.block(x)

    def s_E(self, s):
        self.ev(s['e'])

    def s_Decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        if v.get('static'):
            fr.env[v['id']] = self.globptr(v['static'])
            return
        t = self.ty(v['t'])
        i = v.get('i')
        if t['k'] == 'ref':
            fr.env[v['id']] = self.lvp(i)
        else:
            if i is None:
                val = self.uninit(v['t'])
            else:
                val = self.rv(i)
            fr.env[v['id']] = self.alloc(v['n'] or 'v', val)
        for b in v.get('bind') or ():
            if b.get('hold'):
                self.declare(b['hold'])
                fr.env[b['id']] = fr.env[b['hold']['id']]
            elif b.get('e'):
                fr.env[b['id']] = self.lvp(b['e'])

    def s_If(self, s):
        if s.get('init'):
            self.block(s['init'])
        if s.get('cv'):
            self.block(s['cv'])
        if self.branch(self.rv(s['c'])):
            self.block(s['t'])
        elif s.get('e'):
            self.block(s['e'])

    def s_Ret(self, s):
        e = s.get('e')
        if e is None:
            raise Ret(VOID)
        f = self.frames[-1].f
        rt = f.get('ret')
        if rt and self.ty(rt)['k'] == 'ref':
            raise Ret(self.lvp(e))
        raise Ret(self.rv(e) if self.ty(e['t'])['k'] != 'void' else self.ev(e))

    def s_Break(self, s):
        raise Brk()

    def s_Cont(self, s):
        raise Cont()

    def s_For(self, s):
        if s.get('init'):
            self.block(s['init'])
        self.loop(s, s.get('cv'), s.get('c'), s.get('inc'), [s['b']])

    def s_While(self, s):
        self.loop(s, s.get('cv'), s['c'], None, [s['b']])

    def s_Range(self, s):
        for k in ('init', 'r', 'bs', 'es'):
            if s.get(k):
                self.block(s[k])
        self.loop(s, None, s['c'], s['inc'], [s['lv'], s['b']])

    def s_Do(self, s):
        self.loop(s, None, s['c'], None, [s['b']], dofirst=True)

    def body(self, stmts):
        """one iteration: True to go on, False on break"""
        try:
            for b in stmts:
                self.block(b)
        except Brk:
            return False
        except Cont:
            pass
        return True

    def loop(self, s, cv, c, inc, stmts, dofirst=False):
        n = sym = known = 0
        first = dofirst
        while True:
            if not first:
                if cv:
                    self.block(cv)
                if c is not None:
                    pos = self.pos
                    v = self.rv(c)
                    v = self.tocond(v)
                    if isinstance(v, bool):
                        go = v      # known, or decided while it was computed (a three-way comparison)
                    else:
                        go = self.branch(v)
                        known += 1
                    if go and any(k for _, k in self.trail[pos:self.pos]):
                        sym += 1
                    if not go:
                        return
                    # a trace on which the number of iterations is symbolic is followed for a bounded number of them
                    if sym > self.peel or known > 4 * self.peel + 24:
                        raise Prune('peel')
            first = False
            n += 1
            if n > 70000:
                raise GiveUp('loop bound')
            if not self.body(stmts):
                return
            if inc is not None:
                self.ev(inc)

    def s_Switch(self, s):
        if s.get('init'):
            self.block(s['init'])
        if s.get('cv'):
            self.block(s['cv'])
        v = self.rv(s['c'])
        body = s['b']['s'] if s['b'] and s['b']['k'] == 'Block' else [s['b']]
        flat = []
        for x in body:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(x)
                x = x['s']
            flat.append((labels, x))
        start = None
        for i, (labels, x) in enumerate(flat):
            for lb in labels:
                if lb['k'] == 'Case':
                    lo = self.rv(lb['lo'])
                    if lb.get('hi'):
                        hi = self.rv(lb['hi'])
                        c = self.branch(self.compare('>=', v, lo)) and self.branch(self.compare('<=', v, hi))
                    else:
                        c = self.branch(self.compare('==', v, lo))
                    if c:
                        start = i
                        break
            if start is not None:
                break
        if start is None:
            for i, (labels, x) in enumerate(flat):
                if any(lb['k'] == 'Default' for lb in labels):
                    start = i
        if start is None:
            return
        try:
            for labels, x in flat[start:]:
                if x is not None:
                    self.block(x)
        except Brk:
            pass

    def s_Case(self, s):
        self.block(s['s'])

    s_Default = s_Case

    def s_Try(self, s):
        try:
            self.block(s['b'])
        except Thrown as t:
            for h in s['h']:
                if h['t'] is None or self.catches(h['t'], t.typ):
                    self.event('caught', t.typ)
                    if h.get('id'):
                        self.frames[-1].env[h['id']] = self.alloc('exc', t.value)
                    try:
                        self.block(h['b'])
                    except Thrown as t2:
                        if t2.typ == 'rethrow':
                            raise t
                        raise
                    return
            raise

    def catches(self, ht, tt):
        if tt == 'any':
            return True
        a, b = self.reckey(ht), self.reckey(tt) if tt in self.P.types else None
        if a is None or b is None:
            return True
        todo = [b]
        while todo:
            r = todo.pop()
            if r == a:
                return True
            for x in self.rec(r).get('bases') or ():
                todo.append(self.reckey(x))
        return False

    # to be provided by models.py
    def model(self, fk, f, this, args, node):
        return NotImplemented

    def model_ctor(self, fk, f, args, rk):
        return NotImplemented

    def ssz_contract(self, fk, f, this, args, node):
        return NotImplemented
