"""Values and the abstract state of the C++ abstract interpreter (a product of convex polyhedra over integer symbols,
finite value tables of single bytes, typed memory trees and segment sequences; traces are partitioned)."""
from .. import poly
from ..poly import Lin, INF


class Prune(Exception):
    """the trace is infeasible or beyond the peeling bound"""
    def __init__(self, why='infeasible'):
        self.why = why


class GiveUp(Exception):
    """a construct the interpreter has no transfer function for"""


class Thrown(Exception):
    def __init__(self, typ, value=None):
        self.typ = typ
        self.value = value


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class _Const:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNINIT = _Const('UNINIT')
NULL = _Const('NULL')
VOID = _Const('VOID')


class Unk:
    """unknown value (precision lost)"""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj = obj
        self.path = tuple(path)

    def __add__(self, comp):
        return Ptr(self.obj, self.path + (comp,))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.path == o.path

    def __hash__(self):
        return hash((self.obj, self.path))

    def __repr__(self):
        return '&%s%s' % (self.obj, ''.join('.%s' % (c,) if isinstance(c, str) else '[%s]' % (c,) for c in self.path))


class FnPtr:
    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.f == self.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return 'fn:' + self.f


class MemPtr:
    def __init__(self, n):
        self.n = n


class MemFn:
    def __init__(self, f, v):
        self.f = f
        self.v = v


class Tab:
    """function of one finite-domain symbol: f maps each value of the symbol to the value of this expression"""
    __slots__ = ('sym', 'f')

    def __init__(self, sym, f):
        self.sym = sym
        self.f = f

    def map(self, g):
        return Tab(self.sym, {k: g(v) for k, v in self.f.items()})

    def __repr__(self):
        return 'Tab(%s)' % (self.sym,)


class Cond:
    """boolean: ge(lin) lin>=0, eq(lin), ne(lin), tab(Tab of bools), sym(name) / nsym(name) free boolean, unk"""
    __slots__ = ('op', 'a')

    def __init__(self, op, a=None):
        self.op = op
        self.a = a

    def neg(self):
        if self.op == 'ge':
            return Cond('ge', -self.a - 1)
        if self.op == 'eq':
            return Cond('ne', self.a)
        if self.op == 'ne':
            return Cond('eq', self.a)
        if self.op == 'tab':
            return Cond('tab', self.a.map(lambda v: not v))
        if self.op == 'sym':
            return Cond('nsym', self.a)
        if self.op == 'nsym':
            return Cond('sym', self.a)
        return self

    def __repr__(self):
        return '%s(%s)' % (self.op, self.a)


class StructV:
    __slots__ = ('rec', 'f')

    def __init__(self, rec, f):
        self.rec = rec
        self.f = f

    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return StructV(self.rec, d)

    def __repr__(self):
        return 'S(%s,%s)' % (self.rec[-20:], self.f)


class ArrV:
    __slots__ = ('n', 'el', 'default', 'over')

    def __init__(self, n, el, default, over=None):
        self.n = n
        self.el = el
        self.default = default      # value of elements not in over; ('lazy', name) makes element i a lazy value
        self.over = over or {}

    def set(self, i, v):
        d = dict(self.over)
        d[i] = v
        return ArrV(self.n, self.el, self.default, d)

    def __repr__(self):
        return 'A(%s,%s,%s)' % (self.n, self.default, self.over)


class LazyV:
    """arbitrary value of a type, expanded on access"""
    __slots__ = ('t', 'name')

    def __init__(self, t, name):
        self.t = t
        self.name = name

    def __eq__(self, o):
        return isinstance(o, LazyV) and o.name == self.name and o.t == self.t

    def __hash__(self):
        return hash((self.t, self.name))

    def __repr__(self):
        return 'Lazy(%s)' % (self.name,)


class VecV:
    """sequence: segs are ('e', value) | ('op', name, off, len) | ('ser', loc, len) | ('fill', value, len) | ('unk', len)"""
    __slots__ = ('el', 'segs', 'cap', '_ne', '_len')

    def __init__(self, el, segs=(), cap=None, ne=None):
        self.el = el
        self.segs = tuple(segs)
        self.cap = cap
        self._ne = ne
        self._len = None

    def ne(self):
        """number of leading segments that are single elements"""
        n = self._ne
        if n is None:
            n = 0
            for g in self.segs:
                if g[0] != 'e':
                    break
                n += 1
            self._ne = n
        return n

    def push(self, x):
        n = self.ne()
        return type(self)(self.el, self.segs + (('e', x),), self.cap, n + (n == len(self.segs)))

    def __repr__(self):
        return 'Vec%s' % (list(self.segs),)


class StrV(VecV):
    __slots__ = ()

    def __repr__(self):
        s = lit(self)
        return 'Str(%r)' % s if s is not None else 'Str%s' % (list(self.segs),)


def lit(s):
    """concrete text of a string value or None"""
    if not isinstance(s, VecV):
        return None
    out = []
    for g in s.segs:
        if g[0] != 'e' or not isinstance(g[1], int):
            return None
        out.append(chr(g[1] & 0xff))
    return ''.join(out)


class TermV:
    """uninterpreted term, e.g. ('root', loc), ('yaml', ...)"""
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, TermV) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'T%s' % (self.t,)


class ByteOf:
    """byte i (little endian) of an integer of w bytes"""
    __slots__ = ('lin', 'w', 'i')

    def __init__(self, lin, w, i):
        self.lin, self.w, self.i = lin, w, i

    def key(self):
        return (self.lin, self.w, self.i)

    def __eq__(self, o):
        return isinstance(o, ByteOf) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'byte%d(%s)' % (self.i, self.lin)


class State:
    def __init__(self):
        self.heap = {}
        self.next = 0
        self.ineq = []
        self.eq = []
        self.ne = []
        self.rng = {}
        self.bset = {}
        self.bools = {}
        self.divs = {}
        self.events = []
        self.imprecise = None
        self.path = []
        self.meta = {}

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.next = self.next
        s.ineq = list(self.ineq)
        s.eq = list(self.eq)
        s.ne = list(self.ne)
        s.rng = dict(self.rng)
        s.bset = dict(self.bset)
        s.bools = dict(self.bools)
        s.divs = dict(self.divs)
        s.events = list(self.events)
        s.imprecise = self.imprecise
        s.path = list(self.path)
        s.meta = dict(self.meta)
        return s

    # ---- linear facts
    def declare(self, v, lo, hi):
        if v not in self.rng:
            self.rng[v] = (lo, hi)

    def quick(self, e):
        lo = hi = e.k
        for v, a in e.c.items():
            l, h = self.rng.get(v, (-INF, INF))
            if a > 0:
                lo += a * l
                hi += a * h
            else:
                lo += a * h
                hi += a * l
        return lo, hi

    def facts(self, vs):
        i, e = poly.relevant(vs, self.ineq, self.eq)
        allv = set(vs)
        for x in i:
            allv |= x.c.keys()
        for x in e:
            allv |= x.c.keys()
        i = list(i)
        for v in allv:
            r = self.rng.get(v)
            if r:
                if r[0] != -INF:
                    i.append(Lin({v: 1}, -r[0]))
                if r[1] != INF:
                    i.append(Lin({v: -1}, r[1]))
        return i, list(e)

    def bounds(self, e):
        if isinstance(e, int):
            return e, e
        if not e.c:
            return e.k, e.k
        lo, hi = self.quick(e)
        if lo == hi:
            return lo, hi
        i, q = self.facts(e.vars())
        try:
            a, b = poly.bounds(e, i, q)
        except poly.Infeasible:
            raise Prune()
        return max(lo, a), min(hi, b)

    def ge0(self, e):
        """entailed e >= 0"""
        if isinstance(e, int):
            return e >= 0
        if not e.c:
            return e.k >= 0
        lo, hi = self.quick(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        i, q = self.facts(e.vars())
        if poly.entails_ge0(e, i, q):
            return True
        # disequalities: e >= -1 and e + 1 != 0
        if self.ne and Lin(e.c, e.k + 1) in self.ne and poly.entails_ge0(e + 1, i, q):
            return True
        if self.ne and -(e + 1) in self.ne and poly.entails_ge0(e + 1, i, q):
            return True
        return False

    def eq0(self, e):
        if isinstance(e, int):
            return e == 0
        return self.ge0(e) and self.ge0(-e)

    def feasible_with(self, extra_ge=(), extra_eq=()):
        vs = set()
        for e in list(extra_ge) + list(extra_eq):
            if isinstance(e, Lin):
                vs |= e.vars()
        i, q = self.facts(vs)
        more = set()
        i = i + [poly.L(e) for e in extra_ge]
        q = q + [poly.L(e) for e in extra_eq]
        return poly.feasible(i, q)

    def add_ge(self, e):
        if isinstance(e, int) or not e.c:
            k = e if isinstance(e, int) else e.k
            if k < 0:
                raise Prune()
            return
        if len(e.c) == 1:
            (v, a), = e.c.items()
            lo, hi = self.rng.get(v, (-INF, INF))
            if a > 0:
                lo = max(lo, -((e.k) // a))
            else:
                hi = min(hi, e.k // (-a))
            if lo > hi:
                raise Prune()
            self.rng[v] = (lo, hi)
            if any(v in x.c for x in self.ineq) or any(v in x.c for x in self.eq):
                self.check(e.vars())
            return
        if e in self.ineq:
            return
        self.ineq.append(e)
        self.check(e.vars())

    def add_eq(self, e):
        if isinstance(e, int) or not e.c:
            k = e if isinstance(e, int) else e.k
            if k != 0:
                raise Prune()
            return
        if e in self.eq:
            return
        self.eq.append(e)
        self.check(e.vars())

    def check(self, vs):
        i, q = self.facts(vs)
        if not poly.feasible(i, q):
            raise Prune()

    def reduce(self, e):
        """the same value with defined variables (quotients, fixed values) substituted"""
        if isinstance(e, int) or not e.c:
            return e
        used = set()
        for _ in range(12):
            for v in list(e.c):
                r = self.rng.get(v)
                if r and r[0] == r[1]:
                    a = e.c[v]
                    e = e - Lin({v: a}) + a * r[0]
            hit = False
            for k, q in enumerate(self.eq):
                if k in used:
                    continue
                for v in q.c:
                    if v in e.c and abs(q.c[v]) == 1 and (len(q.c) == 1 or not any(x != v and abs(q.c[x]) == 1 and x in e.c for x in q.c)):
                        # v = -sign * (rest)
                        a = e.c[v]
                        e = e - q * (a * q.c[v])
                        used.add(k)
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                break
        return e

    def add_ne(self, e):
        self.ne.append(e)
        e = self.reduce(e)
        if isinstance(e, int) or not e.c:
            k = e if isinstance(e, int) else e.k
            if k == 0:
                raise Prune()
            return
        g = 0
        for a in e.c.values():
            g = poly.gcd(g, a)
        if e.k % g:
            return
        e = Lin({v: a // g for v, a in e.c.items()}, e.k // g)
        if e not in self.ne:
            self.ne.append(e)
        for s in (e, -e):
            lo, hi = self.bounds(s)
            if lo == 0:
                self.add_ge(s - 1)

    # ---- finite symbols
    def domain(self, sym, full):
        return self.bset.setdefault(sym, frozenset(full))

    def restrict(self, sym, vals):
        cur = self.bset.get(sym)
        vals = frozenset(vals) if cur is None else (cur & frozenset(vals))
        if not vals:
            raise Prune()
        self.bset[sym] = vals
        if sym in self.rng:
            lo, hi = self.rng[sym]
            self.rng[sym] = (max(lo, min(vals)), min(hi, max(vals)))
            if self.rng[sym][0] > self.rng[sym][1]:
                raise Prune()
            self.check({sym})

    def tighten(self):
        """carry what is now known about a byte over to its other names and to the values looked up with it"""
        for k, idx in list(self.meta.items()):
            if isinstance(k, tuple) and len(k) == 2 and k[0] == 'els' and any(isinstance(j, Lin) for j in idx):
                for j in idx:
                    if not isinstance(j, Lin):
                        continue
                    for i in idx:
                        if i is j:
                            continue
                        a, b = '%s[%s]' % (k[1], j), '%s[%s]' % (k[1], i)
                        if (a in self.bset or a in self.rng) and (b in self.bset or b in self.rng) and self.eq0(poly.L(i) - j):
                            both = self.bset.get(a, self.bset.get(b))
                            if both is not None:
                                both = both & self.bset.get(b, both)
                                self.bset[a] = self.bset[b] = both
        for k, d in list(self.meta.items()):
            if isinstance(k, tuple) and len(k) == 2 and k[0] == 'def' and isinstance(d, Tab) and d.sym in self.bset:
                v = k[1]
                lo, hi = self.rng.get(d.sym, (-INF, INF))
                vals = [d.f[x] for x in self.bset[d.sym] if x in d.f and lo <= x <= hi]
                if vals and all(isinstance(x, int) for x in vals):
                    a, b = self.rng.get(v, (-INF, INF))
                    if max(a, min(vals)) <= min(b, max(vals)):
                        self.rng[v] = (max(a, min(vals)), min(b, max(vals)))

    # ---- an integer point of the state, to tell "not entailed" from "refuted"
    def point(self, ge=(), eq=(), budget=300):
        """an assignment of the relevant symbols satisfying all facts and the extra constraints, or None when none was found"""
        vs = set()
        for e in list(ge) + list(eq):
            if isinstance(e, Lin):
                vs |= e.vars()
        more = True
        while more:
            more = False
            i, q = self.facts(vs)
            for x in i + q:
                if not x.c.keys() <= vs:
                    vs |= x.c.keys()
                    more = True
            for v in list(vs):
                d = self.meta.get(('def', v))
                if isinstance(d, Tab) and d.sym not in vs:
                    vs.add(d.sym)
                    more = True
                elif isinstance(d, ByteOf) and isinstance(d.lin, Lin) and not d.lin.vars() <= vs:
                    vs |= d.lin.vars()
                    more = True
        i, q = self.facts(vs)
        i = i + [poly.L(e) for e in ge]
        q = q + [poly.L(e) for e in eq]
        left = [budget]
        defs = {v: self.meta[('def', v)] for v in vs if ('def', v) in self.meta}

        def final(asg):
            val = lambda e: e.k + sum(a * asg[v] for v, a in e.c.items())
            for e in i:
                if val(e) < 0:
                    return False
            for e in q:
                if val(e):
                    return False
            for e in self.ne:
                if e.vars() <= asg.keys() and val(e) == 0:
                    return False
            for v, d in self.bset.items():
                if v in asg and asg[v] not in d:
                    return False
            for v, d in defs.items():
                if isinstance(d, Tab):
                    if d.f.get(asg[d.sym]) != asg[v]:
                        return False
                elif isinstance(d, ByteOf):
                    y = val(d.lin) if isinstance(d.lin, Lin) else d.lin
                    if (y >> 8 * d.i) & 255 != asg[v]:
                        return False
            return True

        def go(asg, i, q):
            if left[0] <= 0:
                return None
            left[0] -= 1
            free = [v for v in vs if v not in asg]
            if not free:
                return dict(asg) if final(asg) else None
            best = None
            for v in sorted(free, key=lambda v: (v in defs, str(v))):
                try:
                    lo, hi = poly.bounds(Lin.var(v), i, q)
                except poly.Infeasible:
                    return None
                if best is None or hi - lo < best[0]:
                    best = (hi - lo, v, lo, hi)
                if hi == lo:
                    break
            _, v, lo, hi = best
            if lo == -INF:
                lo = min(0, hi)
            if hi == INF:
                hi = lo + (1 << 40)
            cand = []
            for x in (lo, lo + 1, lo + 2, hi, (lo + hi) // 2, lo + 3, lo + 4, lo + 5):
                if lo <= x <= hi and x not in cand:
                    cand.append(x)
            d = defs.get(v)
            if isinstance(d, Tab) and d.sym in asg:
                cand = [d.f[asg[d.sym]]] if asg[d.sym] in d.f else []
            elif v in self.bset:
                cand = sorted(x for x in self.bset[v] if lo <= x <= hi)[:24]
            for x in cand:
                s = {v: x}
                i2 = [Lin({k: a for k, a in e.c.items() if k != v}, e.k + e.c[v] * x) if v in e.c else e for e in i]
                q2 = [Lin({k: a for k, a in e.c.items() if k != v}, e.k + e.c[v] * x) if v in e.c else e for e in q]
                if any(not e.c and e.k < 0 for e in i2) or any(not e.c and e.k for e in q2):
                    continue
                asg[v] = x
                r = go(asg, [e for e in i2 if e.c], [e for e in q2 if e.c])
                if r is not None:
                    return r
                del asg[v]
            return None
        return go({}, [e for e in i if e.c], [e for e in q if e.c])

    def refuted_ge0(self, e):
        """some state described by the facts has e < 0"""
        e = poly.L(e)
        if e.is_const():
            return e.k < 0
        return self.point(ge=[-e - 1]) is not None

    def refuted_eq0(self, e):
        e = poly.L(e)
        if e.is_const():
            return e.k != 0
        return self.refuted_ge0(e) or self.refuted_ge0(-e)
