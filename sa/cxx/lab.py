"""Set-up shared by the C++ checks: programs per preset, running one method abstractly, addressing fields."""
import os
from . import front, spec
from .models import *
from .. import poly
from ..report import NotDecided

INTERNAL = (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, RecursionError)


class shield:
    """with shield(r, name): what cannot be carried out for one class is undecided for that class, the others go on"""
    def __init__(self, r, name):
        self.r, self.name = r, name

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None or os.environ.get('SA_STRICT'):
            return False
        if issubclass(et, (NotDecided, GiveUp, Prune, Thrown)):
            self.r.undecided.append('%s: %s' % (self.name, e or et.__name__))
            return True
        if issubclass(et, INTERNAL):
            self.r.undecided.append('%s: internal %s: %s' % (self.name, et.__name__, e))
            return True
        return False


METHODS = ('serialize', 'deserialize', 'hash_tree', 'encode', 'decode', 'get_ssz_size')


class Lab:
    def __init__(self, repo, work, preset):
        self.repo, self.preset = repo, preset
        self.P = front.load(repo, work, preset)
        self.m0 = Machine(self.P)
        self.cache = {}
        self.base = {}
        for k, f in self.P.funcs.items():
            if f['qn'].startswith('ssz::Container::') and f.get('rec'):
                n = f['n']
                if n in METHODS + ('hash_tree_root',):
                    self.base[n] = k
        for n in METHODS:
            if n not in self.base:
                raise NotDecided('anchor vanished: ssz::Container::' + n)
        self.traces = self.undec = 0

    def rel(self, w):
        return str(w).replace(self.repo.rstrip('/') + '/', '')

    # ---- classes
    def classes(self):
        """(record key, qualified name) of every concrete SSZ type, in a stable order"""
        out = []
        for rk, r in self.P.records.items():
            if self.m0.is_ssz(rk) and r['qn'] != 'ssz::Container' and not r.get('abstract') and 'incomplete' not in r:
                out.append((rk, r.get('name') or r['qn']))
        return sorted(out, key=lambda x: x[1])

    def cls(self, name):
        return self.P.rec_by_name.get('eth::' + name)

    def impl(self, rk, name):
        """key of the function that implements a virtual SSZ method for the class"""
        k = self.m0.override(rk, self.base[name])
        return k

    def where_cls(self, rk):
        r = self.P.records[rk]
        if not r['file'].startswith(self.repo):
            for f in self.P.funcs.values():     # a template instantiated by the witness unit
                if f.get('rec') == rk and f['file'].startswith(self.repo):
                    return self.rel('%s (%s)' % (f['file'], r['name']))
        return self.rel('%s:%s (%s)' % (r['file'], r['line'], r['name']))

    def where_fn(self, fk):
        f = self.P.funcs[fk]
        return self.rel('%s:%s (%s)' % (f['file'], f['line'], f['qn']))

    # ---- running
    def args(self, m, f, lazybuf=True):
        out = []
        nit = 0
        for p in f.get('params') or ():
            t = m.ty(p['t'])
            rk = m.reckey(p['t'])
            if rk and '__normal_iterator' in m.recqn(rk):
                it = StructV(rk, {'_M_current': Ptr('buf', (0 if nit == 0 else Lin.var('buf.n'),))})
                nit += 1
                out.append(m.alloc('it', it) if t['k'] == 'ref' else it)
            elif t['k'] == 'ref':
                out.append(m.alloc(p['n'] or 'p', m.typeval(t['to'], p['n'] or 'p')))
            else:
                out.append(m.typeval(p['t'], p['n'] or 'p'))
        return out

    def run(self, fk, rk=None, peel=2, root=True, this=None, prep=None, args=None, post=None, cap=None, setup=None):
        """explore function fk. this: value builder for the object (default: an arbitrary value of class rk)"""
        f = self.P.funcs[fk]
        m = Machine(self.P, peel)
        if setup:
            setup(m)

        def init():
            s = State()
            if rk:
                s.heap['this'] = LazyV('R:' + rk, 'this')
            s.heap['buf'] = VecV('b:unsigned char', [('op', 'buf', 0, Lin.var('buf.n'))])
            s.declare('buf.n', 0, (1 << 31) - 1)
            return s

        def fn():
            if rk and this:
                m.root = None
                m.st.heap['this'] = this(m)
            m.root = Ptr('this') if root and rk else None
            a = args(m, f) if args else self.args(m, f)
            if prep:
                prep(m, a)
            if rk and f.get('rec') is None or f.get('static'):
                v = m.invoke(fk, f, None, a)
            else:
                v = m.invoke(fk, f, Ptr('this') if rk else None, a)
            return post(m, v, a) if post else v
        o = m.explore(init, fn, *([cap] if cap else []))
        self.traces += len(o)
        return m, o

    def method(self, rk, name, **kw):
        key = (rk, name, tuple(sorted((k, v) for k, v in kw.items() if not callable(v)))) if not any(callable(v) for v in kw.values()) else None
        if key and key in self.cache:
            return self.cache[key]
        fk = self.impl(rk, name)
        if fk is None or fk not in self.P.funcs or ('body' not in self.P.funcs[fk]):
            r = (fk, None, None)
        else:
            m, o = self.run(fk, rk, **kw)
            r = (fk, m, o)
        if key:
            self.cache[key] = r
        return r


def exact(o):
    return o.st.imprecise is None and not o.st.meta.get('#summ')


def rets(outs):
    return [o for o in outs if o.kind == 'ret']


def gaveup(outs):
    return sorted({o.why or '?' for o in outs if o.kind == 'giveup'} | {o.st.imprecise for o in outs if o.kind in ('ret', 'throw') and o.st.imprecise})


def at(m, o):
    """make the machine look at the final state of a trace"""
    m.st = o.st
    o.st.tighten()
    for k in [k for k in o.st.meta if isinstance(k, tuple) and k[0] == 'rdef']:
        for s in o.st.meta[k]:
            lo, hi = o.st.bounds(Lin.var(s))
            if lo != -INF and hi != INF:
                o.st.rng[s] = (lo, hi)
    m.trail, m.pos, m.frames = [], 0, []
    return m


def fieldname(n):
    n = n.strip('_')
    return n[2:] if n.startswith('m_') else n


def members(lab, rk):
    """members of the class and its bases: (C++ name, type)"""
    return lab.m0.fields(rk)
