"""C25, C27: the ceiling-logarithm and the integer square root helpers are exact."""
from .lab import *
from .dom import Cond
from .models import Machine
from .. import poly
from ..report import NotDecided


def c25(repo, work, r, thorough):
    lab = Lab(repo, work, 'mainnet')
    n = cells = 0
    for fk, f in sorted(lab.P.funcs.items()):
        if f.get('qn') != 'helpers::log2ceil' or 'body' not in f:
            continue
        n += 1
        ps = f.get('params') or []
        t = lab.m0.ty(ps[0]['t']) if len(ps) == 1 else {}
        if t.get('k') != 'int' or t.get('s'):
            r.undecided.append('log2ceil: parameter')
            continue
        w = t['w']

        def args(m, f):
            m.st.declare('n', 0, (1 << w) - 1)
            return [Lin.var('n')]

        def post(m, v, a):
            """partition the result's trace until it is one number"""
            return m.conc(m.lin(v))
        m, outs = lab.run(fk, peel=w + 2, args=args, post=post)
        for u in gaveup(outs):
            r.undecided.append('log2ceil: %s' % lab.rel(u))
        x = Lin.var('n')
        for o in outs:
            if o.kind not in ('ret', 'throw'):
                continue
            at(m, o)
            if not exact(o):
                continue
            k = o.val if o.kind == 'ret' else None
            if o.kind == 'ret' and not isinstance(k, int):
                r.undecided.append('log2ceil: result %s' % (k,))
                continue
            cells += 1
            # the inputs of this trace for which the result is not the specified one
            bad = [[]] if k is None or k < 0 or k > w else []
            if not bad:
                bad.append([x - (1 << k) - 1])                                  # 2^k < n
                if k:
                    bad.append([poly.L(1 << (k - 1)) - x])                      # a smaller k would do
            for ge in bad:
                if o.st.point(ge=ge + [x], eq=[], budget=300) is not None:
                    lo, hi = o.st.bounds(x)
                    r.bad('log2ceil', lab.where_fn(fk), 'log2ceil returns %s for n in [%s, %s], which is not the least k with 2^k >= n on all of it' % ('nothing' if k is None else k, lo, hi))
                    break
    r.coverage.update(functions=n, traces=lab.traces, cells=cells)
    if not n:
        raise NotDecided('anchor vanished: helpers::log2ceil')


# ---------------------------------------------------------------- C27
SMAX = (1 << 32) - 1


class Fp:
    """a floating-point value: the argument ('x') or its root ('root')"""
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'floating-point ' + self.k


class Sq:
    """(s+c)^2, s the true root, with 0 <= s+c < 2^32"""
    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return '(s%+d)^2' % self.c


class Quo:
    """x / (s+c), s+c > 0"""
    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return 'x/(s%+d)' % self.c


class RootMachine(Machine):
    """Values are offsets from the true root s of x: s^2 <= x < (s+1)^2 orders x and every (s+c)^2 without bounding either.
    square: x = s^2, else s^2 < x. The library square root, cut to an integer, is s + e."""
    def setcell(self, s, x, square, e):
        self.s, self.x, self.square, self.e = s, x, square, e

    def off(self, v):
        """c with v = s + c, or None"""
        if isinstance(self.s, Lin) and isinstance(v, Lin):
            d = v - self.s
            if d.is_const():
                return d.k
        return None

    def e_Cast(self, e):
        ck = e.get('ck')
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            v = self.rv(e['e'])
            if ck == 'IntegralToFloating' and isinstance(v, (int, Lin)) and poly.L(v) == poly.L(self.x) and e['t'] == 'b:double':
                return Fp('x')
            if ck == 'FloatingCast' and isinstance(v, Fp) and e['t'] == 'b:double':
                return v
            t = self.ty(e['t'])
            if ck == 'FloatingToIntegral' and isinstance(v, Fp) and v.k == 'root' and t['k'] == 'int':
                return self.wrap(self.s + self.e, t)      # s is a Lin or a number
            if t['k'] == 'int':
                self.imprecise('floating point')
                return self.fresh('fp', *self.irange(t))
            return Unk('floating point')
        return super().e_Cast(e)

    def call(self, fk, this, args, node=None, *a, **k):
        f = self.P.funcs.get(fk) or {}
        if f.get('n') in ('sqrt', '__builtin_sqrt') and len(args) == 1:
            v = args[0]
            return Fp('root') if isinstance(v, Fp) and v.k == 'x' else Unk('root')
        return super().call(fk, this, args, node, *a, **k)

    def arith(self, op, a, b, t):
        if isinstance(a, (Sq, Quo, Fp)) or isinstance(b, (Sq, Quo, Fp)):
            return super().arith(op, Unk('nonlinear'), b if not isinstance(b, (Sq, Quo, Fp)) else 0, t)
        ca = self.off(a)
        if ca is not None and op == '*' and self.off(b) == ca and t['k'] == 'int' and t['w'] == 64 and not t.get('s') and self.st.ge0(a) and self.st.ge0(SMAX - a):
            return Sq(ca)
        cb = self.off(b)
        if op == '/' and cb is not None and poly.L(a) == poly.L(self.x) and self.st.ge0(b - 1):
            return Quo(cb)
        return super().arith(op, a, b, t)

    def compare(self, op, a, b):
        f = {'<': lambda x: x < 0, '<=': lambda x: x <= 0, '>': lambda x: x > 0, '>=': lambda x: x >= 0, '==': lambda x: x == 0, '!=': lambda x: x != 0}[op]
        isx = lambda v: isinstance(v, (int, Lin)) and poly.L(v) == poly.L(self.x)
        if isinstance(a, Sq) and isinstance(b, Sq):
            return f(a.c - b.c)
        if isinstance(a, Sq) and isx(b):
            return f(a.c if self.square else 1 if a.c > 0 else -1)
        if isinstance(b, Sq) and isx(a):
            return f(-b.c if self.square else -1 if b.c > 0 else 1)
        if isinstance(a, Quo) and self.off(b) == a.c and op in ('<', '>='):
            return f(-1 if a.c > 0 else 1)      # x/(s+c) < s+c exactly for c > 0
        if isinstance(b, Quo) and self.off(a) == b.c and op in ('>', '<='):
            return f(1 if b.c > 0 else -1)
        if isinstance(a, (Sq, Quo, Fp)) or isinstance(b, (Sq, Quo, Fp)):
            return Cond('unk', 'comparison of %r and %r' % (a, b))
        return super().compare(op, a, b)

    def wrap(self, v, t):
        if isinstance(v, (Sq, Quo)):
            r = self.ty(t) if isinstance(t, str) else t
            return v if r['k'] == 'int' and r['w'] == 64 and not r.get('s') else Unk('nonlinear')
        return super().wrap(v, t)


def cells():
    """(what, range of s, range of x, x is a square, cut of the library root minus s, whether every s of the range has such an x)
    Conversion to double and root are correctly rounded, hence monotone. A square s^2 < 2^64 converts with an error below
    half an ulp of s after the root, so its root is s exactly; any other x lies between s^2 and (s+1)^2, so its root lies
    between s and s+1 and is cut to one of them - to s whenever x < 2^52. 4^k-1 converts to 4^k from k = 27 on."""
    m = 1 << 26
    yield 'x = 0', (0, 0), (0, 0), True, 0, True
    for sq in (True, False):
        k = 'x a square' if sq else 'x no square'
        yield k + ' below 2^52', (1, m - 1), (1, (1 << 52) - 1), sq, 0, True
        yield k + ' from 2^52 on, root cut to s', (m, SMAX - 1), (1 << 52, SMAX * SMAX - 1), sq, 0, True
    yield 'x no square from 2^52 on, root cut to s+1', (m, SMAX - 1), (1 << 52, SMAX * SMAX - 1), False, 1, False
    for j in (27, 31):
        yield 'x = 4^%d-1' % j, ((1 << j) - 1,) * 2, ((1 << 2 * j) - 1,) * 2, False, 1, True
    yield 'x = (2^32-1)^2', (SMAX, SMAX), (SMAX * SMAX,) * 2, True, 0, True
    yield 'x > (2^32-1)^2, root cut to 2^32-1', (SMAX, SMAX), (SMAX * SMAX + 1, (1 << 64) - 1), False, 0, True
    yield 'x > (2^32-1)^2, root cut to 2^32', (SMAX, SMAX), (SMAX * SMAX + 1, (1 << 64) - 1), False, 1, False
    yield 'x = 2^64-1', (SMAX, SMAX), ((1 << 64) - 1,) * 2, False, 1, True


def c27(repo, work, r, thorough):
    lab = Lab(repo, work, 'mainnet')
    n = nc = ntr = 0
    for fk, f in sorted(lab.P.funcs.items()):
        if f.get('qn') != 'helpers::integer_squareroot' or 'body' not in f:
            continue
        ps = f.get('params') or []
        t = lab.m0.ty(ps[0]['t']) if len(ps) == 1 else {}
        if t.get('k') == 'ref':
            t = lab.m0.ty(t['to'])
        if t.get('k') != 'int' or t.get('s') or t['w'] != 64:
            continue
        n += 1
        w = lab.where_fn(fk)
        for what, (s0, s1), (x0, x1), sq, e, attained in cells():
            m = RootMachine(lab.P, peel=4)
            nc += 1

            def init():
                st = State()
                s = s0 if s0 == s1 else st.declare('s', s0, s1) or Lin.var('s')
                x = x0 if x0 == x1 else st.declare('x', x0, x1) or Lin.var('x')
                m.setcell(s, x, sq, e)
                st.heap['x'] = x
                return st

            def go():
                a = [m.alloc('arg', m.x) if lab.m0.ty(ps[0]['t'])['k'] == 'ref' else m.x]
                return m.call(fk, None, a)
            outs = m.explore(init, go)
            lab.traces += len(outs)
            for u in gaveup(outs):
                r.undecided.append('integer_squareroot, %s: %s' % (what, lab.rel(u)))
            for o in outs:
                if o.kind not in ('ret', 'throw'):
                    continue
                ntr += 1
                v = o.val if o.kind == 'ret' else None
                s = Lin.var('s') if s0 != s1 else s0
                if isinstance(v, (int, Lin)) and o.st.eq0(poly.L(v) - s):
                    continue
                wrong = v is None or isinstance(v, (int, Lin)) and (poly.L(v) - s).is_const()
                if wrong and attained and o.st.imprecise is None and not (isinstance(v, int) and s0 != s1) and o.st.point() is not None:
                    r.bad('integer_squareroot', w, 'integer_squareroot returns %s for %s, where floor(sqrt(x)) is %s' % ('nothing' if v is None else str(v).replace('s', 'floor(sqrt(x))') if s0 != s1 else v, what, 's' if s0 != s1 else s0))
                else:
                    r.undecided.append('integer_squareroot, %s: result %s' % (what, v))
    r.coverage.update(functions=n, cells=nc, traces=ntr)
    if not n or not ntr:
        raise NotDecided('helpers::integer_squareroot on 64-bit numbers is not there')
