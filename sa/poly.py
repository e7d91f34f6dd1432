"""Convex-polyhedra helper used by the abstract domains.

A linear expression is a pair (coefs, const): coefs maps variable -> non-zero int.
A constraint set is a list of expressions e, each meaning e >= 0, plus a list of equalities e == 0.
bounds() projects a constraint set onto one expression (Gauss + Fourier-Motzkin elimination).
"""
from fractions import Fraction
from math import gcd, floor, ceil

INF = float('inf')


class Lin:
    """Immutable linear expression over hashable variables with integer coefficients."""
    __slots__ = ('c', 'k', '_h')

    def __init__(self, coefs=None, const=0):
        d = {}
        if coefs:
            for v, a in (coefs.items() if isinstance(coefs, dict) else coefs):
                if a:
                    d[v] = a
        self.c = d
        self.k = const
        self._h = None

    @staticmethod
    def var(v):
        return Lin({v: 1}, 0)

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.c.items()), self.k)
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.c == o.c

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k + o)
        d = dict(self.c)
        for v, a in o.c.items():
            d[v] = d.get(v, 0) + a
        return Lin(d, self.k + o.k)

    __radd__ = __add__

    def __neg__(self):
        return Lin({v: -a for v, a in self.c.items()}, -self.k)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k - o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, n):
        return Lin({v: a * n for v, a in self.c.items()}, self.k * n)

    __rmul__ = __mul__

    def is_const(self):
        return not self.c

    def vars(self):
        return set(self.c)

    def subst(self, m):
        """m: var -> Lin"""
        if not any(v in m for v in self.c):
            return self
        r = Lin({}, self.k)
        for v, a in self.c.items():
            r = r + (m[v] * a if v in m else Lin({v: a}))
        return r

    def __repr__(self):
        s = ''
        for v, a in sorted(self.c.items(), key=lambda x: str(x[0])):
            n = v if isinstance(v, str) else str(v)
            t = n if abs(a) == 1 else '%d*%s' % (abs(a), n)
            s += (' - ' if a < 0 else (' + ' if s else '')) + t
        if self.k or not s:
            s += (' - ' if self.k < 0 else (' + ' if s else '')) + str(abs(self.k))
        return s.strip()


def gcdl(xs):
    g = 0
    for x in xs:
        g = gcd(g, x)
    return g or 1


def L(x):
    return x if isinstance(x, Lin) else Lin({}, x)


def _norm(c, k):
    """Tighten an integer constraint  c.x + k >= 0."""
    g = 0
    for a in c.values():
        g = gcd(g, a)
    if g > 1:
        c = {v: a // g for v, a in c.items()}
        k = k // g  # floor: integer tightening
    return c, k


MAXC = 400


class Infeasible(Exception):
    pass


def _simplify(cons):
    best = {}
    for c, k in cons:
        if not c:
            if k < 0:
                raise Infeasible()
            continue
        key = frozenset(c.items())
        if key not in best or k < best[key][1]:
            best[key] = (c, k)
    return list(best.values())


def _subst_eq(c, k, v, ec, ek):
    """Substitute from equality ec.x+ek==0 to remove v from c.x+k (>=0 or ==0); scales by |ec[v]|."""
    a = c.get(v)
    if not a:
        return c, k
    b = ec[v]
    s = abs(b)
    f = -a if b > 0 else a
    # s*(c) + f*(ec)  -> coefficient of v: s*a + f*b = |b|a - a*b*sgn = 0
    d = {x: y * s for x, y in c.items()}
    for x, y in ec.items():
        d[x] = d.get(x, 0) + f * y
    d = {x: y for x, y in d.items() if y}
    return d, k * s + f * ek


def eliminate(ineqs, eqs, keep):
    """Project onto variables in keep. Returns (ineqs, eqs) over keep only. Raises Infeasible."""
    ineqs = [_norm(dict(e.c), e.k) for e in ineqs]
    eqs = [(dict(e.c), e.k) for e in eqs]
    kept_eq = []
    while eqs:
        c, k = eqs.pop()
        if not c:
            if k:
                raise Infeasible()
            continue
        g = 0
        for a in c.values():
            g = gcd(g, a)
        if k % g:
            raise Infeasible()
        c = {v: a // g for v, a in c.items()}
        k //= g
        cand = [v for v in c if v not in keep]
        if not cand:
            kept_eq.append((c, k))
            continue
        v = min(cand, key=lambda x: (abs(c[x]), str(x)))
        eqs = [_subst_eq(c2, k2, v, c, k) for c2, k2 in eqs]
        kept_eq = [_subst_eq(c2, k2, v, c, k) for c2, k2 in kept_eq]
        ineqs = [_norm(*_subst_eq(c2, k2, v, c, k)) for c2, k2 in ineqs]
    ineqs = _simplify(ineqs)
    while True:
        vs = {}
        for c, k in ineqs:
            for v, a in c.items():
                if v not in keep:
                    p, n = vs.get(v, (0, 0))
                    vs[v] = (p + (a > 0), n + (a < 0))
        if not vs:
            break
        v = min(vs, key=lambda x: (vs[x][0] * vs[x][1], str(x)))
        pos = [x for x in ineqs if x[0].get(v, 0) > 0]
        neg = [x for x in ineqs if x[0].get(v, 0) < 0]
        rest = [x for x in ineqs if not x[0].get(v, 0)]
        for c1, k1 in pos:
            a = c1[v]
            for c2, k2 in neg:
                b = -c2[v]
                d = {x: y * b for x, y in c1.items()}
                for x, y in c2.items():
                    d[x] = d.get(x, 0) + a * y
                d = {x: y for x, y in d.items() if y}
                rest.append(_norm(d, k1 * b + k2 * a))
        ineqs = _simplify(rest)
        if len(ineqs) > MAXC:
            ineqs = ineqs[:MAXC]  # dropping constraints is a sound over-approximation
    return ([Lin(c, k) for c, k in ineqs], [Lin(c, k) for c, k in kept_eq])


def relevant(expr_vars, ineqs, eqs):
    """Restrict to constraints connected to expr_vars."""
    vs = set(expr_vars)
    pool = [(e, 0) for e in ineqs] + [(e, 1) for e in eqs]
    out_i, out_e = [], []
    changed = True
    while changed and pool:
        changed = False
        rest = []
        for e, k in pool:
            if not e.c or vs & e.c.keys():
                vs |= e.c.keys()
                (out_e if k else out_i).append(e)
                changed = True
            else:
                rest.append((e, k))
        pool = rest
    return out_i, out_e


def bounds(expr, ineqs, eqs=()):
    """(lo, hi) of expr over the integer-tightened polyhedron; Infeasible if it is empty."""
    expr = L(expr)
    if expr.is_const():
        return expr.k, expr.k
    ineqs, eqs = relevant(expr.vars(), ineqs, eqs)
    t = ('$t',)
    ni, ne = eliminate(ineqs, list(eqs) + [Lin.var(t) - expr], {t})
    lo, hi = -INF, INF
    for e in ne:
        a = e.c.get(t)
        if a:
            v = Fraction(-e.k, a)
            if v.denominator != 1:
                raise Infeasible()
            lo = max(lo, int(v))
            hi = min(hi, int(v))
    for e in ni:
        a = e.c.get(t)
        if not a:
            continue
        v = Fraction(-e.k, a)
        if a > 0:
            lo = max(lo, ceil(v))
        else:
            hi = min(hi, floor(v))
    if lo > hi:
        raise Infeasible()
    return lo, hi


def feasible(ineqs, eqs=()):
    try:
        eliminate(ineqs, eqs, set())
        return True
    except Infeasible:
        return False


def entails_ge0(expr, ineqs, eqs=()):
    """Does the set entail expr >= 0?  (refutation: set and expr <= -1 is empty)"""
    expr = L(expr)
    if expr.is_const():
        return expr.k >= 0
    i, e = relevant(expr.vars(), ineqs, eqs)
    return not feasible(list(i) + [-expr - 1], e)


def entails_eq0(expr, ineqs, eqs=()):
    return entails_ge0(expr, ineqs, eqs) and entails_ge0(-L(expr), ineqs, eqs)
