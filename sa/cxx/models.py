"""Models of the library the code is written against (containers, strings, streams, YAML, the C runtime), of the hashing
kernels, and the SSZ contracts used for nested values (assume/guarantee: every SSZ class is analysed against the same contract)."""
import re
from .. import poly
from ..poly import Lin, INF
from .dom import *
from .interp import Interp, Frame, Outcome


def strip(qn):
    out, d = [], 0
    i = 0
    while i < len(qn):
        c = qn[i]
        if c == '<' and not qn[:i].endswith('operator') and not qn[:i].endswith('operator<') and not qn[:i].endswith('operator<='):
            d += 1
        elif c == '>' and d and not qn[:i].endswith('-'):
            d -= 1
        elif not d:
            out.append(c)
        i += 1
    return ''.join(out)


class Machine(Interp):
    def __init__(self, prog, peel=2):
        super().__init__(prog, peel)
        self.stripped = {}
        self.treemodel = True
        self.okn = 0
        self.eqatomic = True

    # ------------------------------------------------------------------ helpers
    def sname(self, f):
        k = f['qn']
        s = self.stripped.get(k)
        if s is None:
            s = self.stripped[k] = strip(k)
        return s

    def vval(self, p):
        v = self.get(p)
        if isinstance(v, LazyV):
            v = self.expand(v)
        return v

    def mkit(self, tk, p):
        rk = self.reckey(tk)
        if self.recqn(rk).startswith('std::_Bit'):
            return StructV(rk, {'p': p})
        if rk is None:
            return p
        return StructV(rk, {'_M_current': p})

    def itp(self, v):
        """pointer inside an iterator value (or a pointer)"""
        if isinstance(v, Ptr) or v is NULL:
            return v
        if isinstance(v, StructV):
            for c in ('_M_current', 'p'):
                if c in v.f:
                    return self.itp(v.f[c])
        raise GiveUp('iterator %r' % (v,))

    def objname(self, p):
        """stable name of the value an object currently holds"""
        v = self.get(p)
        if isinstance(v, LazyV):
            return v.name
        if isinstance(v, VecV) and len(v.segs) == 1 and v.segs[0][0] == 'op' and v.segs[0][2] == 0 and not v.cap:
            return v.segs[0][1]
        if isinstance(v, Lin) and len(v.c) == 1 and v.k == 0:
            (s, a), = v.c.items()
            if a == 1:
                return s
        return None

    def newexprs(self):
        c = getattr(self.P, '_newexprs', None)
        if c is None:
            c = self.P._newexprs = {}
            for f in self.P.funcs.values():
                if f['qn'] == 'witness::w_new' and 'body' in f:
                    for s in f['body']['s']:
                        for v in s.get('v', ()):
                            i = v.get('i') or {}
                            if i.get('k') == 'Ctor' and i.get('f') in self.P.funcs and all(a['k'] in ('Int', 'Bool') for a in i['a']):
                                c.setdefault(self.ty(v['t']).get('r'), []).append(i)
        return c

    def default(self, tk):
        t = self.ty(tk)
        if t['k'] == 'rec':
            m = self.default_model(t['r'])
            if m is not None:
                return m
            if self.recqn(t['r']) in ('std::array', 'std::pair'):
                return self.zero(tk)
            # a default constructor of the record
            for fk, f in self.P.funcs.items():
                if f.get('ctor') and f.get('rec') == t['r'] and not f.get('params'):
                    return self.construct(fk, f, [], tk, zero=bool(f.get('defaulted')))
            # a constructor all of whose parameters have defaults: as the witness that declares such an object calls it
            for e in self.newexprs().get(t['r'], ()):
                return self.construct(e['f'], self.P.funcs[e['f']], [self.ev(a) for a in e['a']], tk)
            raise GiveUp('default value of %s' % tk)
        return self.zero(tk)

    def revp(self, v):
        """the base pointer of a reverse iterator"""
        if isinstance(v, StructV) and 'current' in v.f and 'reverse_iterator' in str(v.rec):
            return self.itp(v.f['current'])
        return None

    def range_segs(self, first, last):
        ra, rb = self.revp(first), self.revp(last)
        if ra is not None and rb is not None:
            segs, n = self.range_segs(rb, ra)
            if not isinstance(n, int) or n > 256:
                raise GiveUp('reversed range of %s elements' % n)
            vv = VecV('b:unsigned char', list(segs))
            return [('e', self.elem(vv, k)) for k in range(n - 1, -1, -1)], n
        a, b = self.itp(first), self.itp(last)
        n = self.psub(b, a)
        if isinstance(n, Lin):
            neg = self.forced(lambda: 0 if self.st.ge0(n) else 1)
        else:
            neg = 1 if n < 0 else 0
        self.oblige('range', not neg, 'iterator range with begin after end', [n])
        if neg:
            if isinstance(n, int):
                raise Prune('bad range')
            self.st.add_ge(n)
        return self.slice(a, n), n

    def putv(self, p, v):
        self.put(p, v)

    def cat(self, segs):
        out = []
        for g in segs:
            l = self.seglen(g)
            if isinstance(l, int) and l == 0:
                continue
            if out and g[0] == 'fill' and out[-1][0] == 'fill' and out[-1][1] is g[1]:
                out[-1] = ('fill', g[1], out[-1][2] + l)
                continue
            out.append(g)
        return tuple(out)

    def default_model(self, rk):
        q = self.recqn(rk)
        if q == 'std::vector':
            return VecV(self.rec(rk)['targs'][0])
        if q == 'std::basic_string':
            return StrV(self.rec(rk)['targs'][0])
        if q in ('std::basic_stringstream', 'std::basic_ostringstream'):
            return StructV('stream', {'buf': StrV('b:char', ()), 'hex': 0, 'fill': 32, 'w': 0, 'upper': 0})
        if q == 'YAML::Node':
            return TermV('ymap', ())
        if q == 'std::basic_string_view':
            return StructV(rk, {'_M_len': 0, '_M_str': NULL})
        return None

    # ------------------------------------------------------------------ constructors
    def model_ctor(self, fk, f, args, rk):
        q = self.recqn(rk)
        ps = f.get('params') or []
        if q == 'std::vector':
            el = self.rec(rk)['targs'][0]
            return self.vec_ctor(VecV, el, f, args, ps, rk)
        if q == 'std::basic_string':
            el = self.rec(rk)['targs'][0]
            return self.str_ctor(el, f, args, ps, rk)
        if q == 'std::basic_string_view':
            return self.sv_ctor(rk, f, args, ps)
        if q in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_ios'):
            return self.default_model(rk) or StructV('stream', {'buf': StrV('b:char', ()), 'hex': 0, 'fill': 32, 'w': 0, 'upper': 0})
        if q == 'YAML::Node':
            if not args:
                return TermV('ymap', ())
            v = args[0]
            if isinstance(v, Ptr):
                v = self.get(v)
                if isinstance(v, LazyV):
                    v = self.expand(v)
            return self.ynode(v) if self.reckey(ps[0]['t']) == rk else TermV('yaml', self.desc(v))
        if q.startswith('std::_Bit') or q.startswith('std::_Bvector'):
            if args and isinstance(args[0], Ptr):
                v = self.get(args[0])
                if isinstance(v, StructV) and 'p' in v.f:
                    return StructV(rk, dict(v.f))
            return StructV(rk, {'p': NULL})
        if q in ('std::allocator', 'std::__new_allocator') or q.startswith('std::_Vector_base') or q.startswith('__gnu_cxx::__alloc'):
            return StructV(rk, {})
        if q in ('std::invalid_argument', 'std::out_of_range', 'std::runtime_error', 'std::logic_error', 'std::length_error', 'std::domain_error', 'std::range_error', 'std::overflow_error', 'std::exception', 'std::bad_alloc'):
            return StructV(rk, {})
        if q == 'ssz::HashTree' and self.treemodel:
            if len(ps) == 1 and self.reckey(ps[0]['t']) == rk:
                return self.get(args[0])
            src = self.vval(args[0])
            lim = args[1] if len(args) > 1 else 0
            self.event('tree', src, lim)
            return StructV(rk, {'#tree': TermV('tree', src, lim, ())})
        if q == 'ssz::Hasher' and self.treemodel and not (args and self.isrec(ps[0]['t'])):
            if len(ps) == 1 and self.reckey(ps[0]['t']) == rk:
                return self.get(args[0])
            return NotImplemented
        return NotImplemented

    def vec_ctor(self, cls, el, f, args, ps, rk):
        n = len(args)
        if n == 0:
            return cls(el)
        a = args[0]
        t0 = self.ty(ps[0]['t'])
        k0 = self.reckey(ps[0]['t'])
        if t0['k'] in ('ref', 'rec') and k0 == rk:
            v = self.vval(a) if isinstance(a, Ptr) else a
            if t0['k'] == 'ref' and t0.get('rv') and isinstance(a, Ptr):
                pass
            return v
        if k0 and self.recqn(k0) == 'std::initializer_list':
            v = a if isinstance(a, StructV) else self.get(a)
            p, cnt = v.f['_M_array'], v.f['_M_len']
            return cls(el, self.cat(self.slice(p, cnt)) if cnt else ())
        if k0 and self.recqn(k0) in ('std::allocator',):
            return cls(el)
        if t0['k'] == 'int':
            if n >= 2 and not self.is_alloc(ps[1]['t']):
                v = args[1]
                if isinstance(v, Ptr):
                    v = self.load(v, el)
            else:
                v = self.default(el)
            cnt = self.conc(self.lin(a))
            self.alloc_size(cnt)
            return cls(el, self.cat([('fill', v, cnt)]))
        if n >= 2:
            segs, cnt = self.range_segs(a if not isinstance(a, Ptr) or t0['k'] == 'ptr' else self.get(a), args[1] if not isinstance(args[1], Ptr) or self.ty(ps[1]['t'])['k'] == 'ptr' else self.get(args[1]))
            return cls(el, self.cat(self.conv_segs(segs, el)))
        raise GiveUp('sequence constructor')

    def alloc_size(self, n):
        pass

    def conv_segs(self, segs, el):
        t = self.ty(el)
        if t['k'] != 'int':
            return segs
        return [('e', self.wrap(g[1], t)) if g[0] == 'e' and g[1] is not UNINIT else g for g in segs]

    def is_alloc(self, tk):
        rk = self.reckey(tk)
        return rk is not None and self.recqn(rk) in ('std::allocator',)

    def cstr(self, p):
        """segments of a nul-terminated character string"""
        v, i = self.whole(p)
        if not isinstance(v, ArrV) or not isinstance(i, int):
            if isinstance(v, StrV) and i == 0:
                return list(v.segs)
            raise GiveUp('character string %r' % (p,))
        out = []
        while i < v.n:
            c = self.elem(v, i)
            if c == 0:
                return out
            out.append(('e', c))
            i += 1
        raise GiveUp('unterminated string')

    def text(self, v):
        """(segments) of a string-like argument: StrV, string_view, const char*"""
        if isinstance(v, Ptr):
            try:
                w = self.get(v)
            except GiveUp:
                w = None
            if isinstance(w, LazyV):
                w = self.expand(w)
            if isinstance(w, (StrV, StructV)):
                return self.text(w)
            return self.cstr(v)
        if isinstance(v, LazyV):
            v = self.expand(v)
        if isinstance(v, StrV):
            return list(v.segs)
        if isinstance(v, StructV) and '_M_str' in v.f:
            n = v.f['_M_len']
            if isinstance(n, int) and n == 0:
                return []
            return self.slice(v.f['_M_str'], n)
        if isinstance(v, StructV) and 'p' in v.f:
            return self.text(v.f['p'])
        raise GiveUp('text of %r' % (v,))

    def str_ctor(self, el, f, args, ps, rk):
        if not args:
            return StrV(el)
        t0 = self.ty(ps[0]['t'])
        k0 = self.reckey(ps[0]['t'])
        if k0 == rk and t0['k'] in ('ref', 'rec'):
            v = self.vval(args[0]) if isinstance(args[0], Ptr) else args[0]
            if len(args) >= 2 and self.ty(ps[1]['t'])['k'] == 'int':
                cnt = args[2] if len(args) > 2 and self.ty(ps[2]['t'])['k'] == 'int' else None
                return StrV(el, self.substr(v, args[1], cnt))
            return v
        if t0['k'] == 'ptr' and self.ty(t0['to'])['k'] == 'int':
            if len(args) >= 2 and self.ty(ps[1]['t'])['k'] == 'int':
                return StrV(el, self.cat(self.slice(args[0], args[1])))
            if len(args) >= 2 and self.ty(ps[1]['t'])['k'] == 'ptr':
                return StrV(el, self.cat(self.conv_segs(self.range_segs(args[0], args[1])[0], el)))
            return StrV(el, self.cstr(args[0]))
        if k0 and self.recqn(k0) == 'std::basic_string_view':
            v = args[0] if isinstance(args[0], StructV) else self.get(args[0])
            return StrV(el, self.text(v))
        r = self.vec_ctor(VecV, el, f, args, ps, rk)
        return StrV(el, r.segs)

    def sv_ctor(self, rk, f, args, ps):
        if not args:
            return StructV(rk, {'_M_len': 0, '_M_str': NULL})
        t0 = self.ty(ps[0]['t'])
        if self.reckey(ps[0]['t']) == rk and t0['k'] in ('ref', 'rec'):
            return self.get(args[0]) if isinstance(args[0], Ptr) else args[0]
        if t0['k'] == 'ptr':
            if len(args) >= 2:
                return StructV(rk, {'_M_len': args[1], '_M_str': args[0]})
            return StructV(rk, {'_M_len': len(self.cstr(args[0])), '_M_str': args[0]})
        a, b = self.itp(args[0] if not isinstance(args[0], Ptr) else self.get(args[0])), self.itp(args[1] if not isinstance(args[1], Ptr) else self.get(args[1]))
        return StructV(rk, {'_M_len': self.psub(b, a), '_M_str': a})

    def field(self, v, c):
        if isinstance(v, LazyV) and c in ('_M_len', '_M_str', 'p', '_M_current'):
            v2 = self.svlazy(v)
            if v2 is not None:
                return v2.f[c]
        return super().field(v, c)

    def svlazy(self, v):
        """a string_view parameter is a view of an arbitrary buffer"""
        t = self.ty(v.t)
        if t['k'] == 'rec' and self.recqn(t['r']) == 'std::basic_string_view':
            k = 'buf:' + v.name
            if k not in self.st.heap:
                n = self.veclen(v.name)
                self.st.heap[k] = VecV(self.rec(t['r'])['targs'][0], [('op', v.name, 0, n)])
            return StructV(t['r'], {'_M_len': Lin.var(v.name + '.n'), '_M_str': Ptr(k, (0,))})
        return None

    def expand(self, v):
        if isinstance(v, LazyV):
            s = self.svlazy(v)
            if s is not None:
                return s
        return super().expand(v)

    # ------------------------------------------------------------------ functions
    def model(self, fk, f, this, args, node):
        s = self.sname(f)
        m = MODELS.get(s)
        if m is not None:
            return m(self, f, this, args, node)
        if s.startswith('std::vector::'):
            return self.vec_method(f['n'], f, this, args, node)
        if s.startswith('std::basic_string::') or s.startswith('std::__cxx11::basic_string::'):
            return self.str_method(f['n'], f, this, args, node)
        if s.startswith('std::basic_string_view::'):
            return self.sv_method(f['n'], f, this, args, node)
        if s.startswith('std::_Bit_'):
            return self.bit_method(f['n'], f, this, args, node)
        if s.startswith('YAML::Node::'):
            return self.yaml_method(f['n'], f, this, args, node)
        if s in ('YAML::convert::encode', 'YAML::convert::decode') and 'body' not in f:
            return self.yaml_convert(f, args)
        if s in ('YAML::convert::encode', 'YAML::convert::decode') and not f.get('repo'):
            return self.yaml_convert(f, args)
        if s.startswith('ssz::HashTree::') and self.treemodel:
            return self.tree_method(f['n'], f, this, args, node)
        if s.startswith('ssz::Hasher::') and f['n'] == 'hash_64b_blocks':
            return self.hash_blocks(args)
        if f['n'] in ('operator==', 'operator!=', 'operator<', 'operator-', 'operator+', 'operator<<', 'operator<=>', 'operator|', 'operator&') and s.startswith('std::'):
            return self.std_operator(f['n'], f, args, node)
        return NotImplemented

    # ---- vector
    def vec_method(self, n, f, this, args, node):
        v = self.vval(this)
        if not isinstance(v, VecV):
            raise GiveUp('vector value %r' % (v,))
        el = v.el
        if n in ('begin', 'cbegin'):
            return self.mkit(f['ret'], this + 0)
        if n in ('end', 'cend'):
            return self.mkit(f['ret'], this + self.vlen(v))
        if n in ('rbegin', 'crbegin', 'rend', 'crend'):
            rk = self.reckey(f['ret'])
            t = (self.rec(rk).get('targs') or [None])[0]
            if t is None:
                raise GiveUp('vector::' + n)
            return StructV(rk, {'current': self.mkit(t, this + (self.vlen(v) if n in ('rbegin', 'crbegin') else 0))})
        if n == 'data':
            return this + 0
        if n == 'size' or n == 'length':
            return self.vlen(v)
        if n == 'max_size':
            return self.max_len
        if n == 'capacity':
            return self.vlen(v)
        if n == 'empty':
            r = self.compare('==', self.vlen(v), 0)
            return int(r) if isinstance(r, bool) else r
        if n == 'clear':
            self.put(this, type(v)(el))
            return VOID
        if n in ('reserve', 'shrink_to_fit'):
            return VOID
        if n in ('push_back', 'emplace_back', '_M_realloc_insert'):
            if n == 'emplace_back':
                x = self.emplace(el, f, args)
            else:
                x = args[0]
                if self.ty(f['params'][0]['t'])['k'] == 'ref':
                    x = self.load(x, el)
            if self.ty(el)['k'] == 'int':
                x = self.wrap(x, el) if x is not UNINIT else x
            nv = v.push(x)
            self.put(this, nv)
            if n == 'emplace_back':
                return this + (self.vlen(nv) - 1)
            return VOID
        if n == 'pop_back':
            return self.resize(this, v, self.vlen(v) - 1, None)
        if n in ('back', 'front'):
            ln = self.vlen(v)
            ok = self.forced(lambda: 0 if (ln >= 1 if isinstance(ln, int) else self.st.ge0(ln - 1)) else 1) == 0
            self.oblige('oob', ok, '%s() of a possibly empty sequence %s' % (n, this), [poly.L(ln) - 1])
            if not ok:
                if isinstance(ln, int):
                    raise Prune('empty')
                self.st.add_ge(ln - 1)
            p = this + (ln - 1 if n == 'back' else 0)
            return self.bref(f, p)
        if n in ('operator[]', 'at'):
            i = self.lin(args[0])
            if n == 'at':
                if not self.branch(self.compare('<', i, self.vlen(v))):
                    raise Thrown('any')
            return self.bref(f, this + i)
        if n in ('insert', 'append', 'append_range'):
            return self.vec_insert(f, this, v, args)
        if n == 'assign':
            ps = f['params']
            r = self.vec_ctor(type(v), el, f, args, ps, None)
            self.put(this, type(v)(el, r.segs))
            return VOID
        if n == 'resize':
            d = None
            if len(args) > 1:
                d = args[1]
                if self.ty(f['params'][1]['t'])['k'] == 'ref':
                    d = self.load(d, el)
            return self.resize(this, v, args[0], d)
        if n == 'erase':
            return self.vec_erase(f, this, v, args)
        if n == 'operator=':
            a = args[0]
            x = self.vval(a) if isinstance(a, Ptr) else a
            if isinstance(x, StructV) and '_M_array' in x.f:
                x = type(v)(el, self.cat(self.slice(x.f['_M_array'], x.f['_M_len']) if x.f['_M_len'] else []))
            if not isinstance(x, VecV):
                raise GiveUp('vector assignment')
            self.put(this, x)
            return this
        if n == 'swap':
            x = self.vval(args[0])
            self.put(this, x)
            self.put(args[0], v)
            return VOID
        if n.startswith('~'):
            return VOID
        raise GiveUp('vector::' + n)

    def bref(self, f, p):
        rk = self.reckey(f['ret'])
        if self.ty(f['ret'])['k'] == 'rec' and self.recqn(rk).startswith('std::_Bit'):
            return StructV(rk, {'p': p})
        if self.ty(f['ret'])['k'] == 'int':
            return self.load(p, f['ret'])
        return p

    def emplace(self, el, f, args):
        t = self.ty(el)
        if t['k'] == 'int':
            x = args[0]
            return self.load(x, el) if isinstance(x, Ptr) else x
        if t['k'] == 'rec' and len(args) == 1 and isinstance(args[0], Ptr):
            x = self.get(args[0])
            if isinstance(x, (LazyV, StructV)) and (getattr(x, 'rec', None) == t['r'] or getattr(x, 't', '') == el):
                return x
        if not args:
            return self.default(el)
        raise GiveUp('emplace_back')

    def resize(self, this, v, n, d):
        n = self.conc(self.lin(n))
        ln = self.vlen(v)
        if isinstance(n, int) and n < 0:
            self.oblige('oob', False, 'negative size')
            raise Prune('resize')
        if self.branch(self.compare('<=', n, ln)):
            if v.cap:
                nv = None
                segs = self.cutsegs(v, 0, n)
                nv = type(v)(v.el, segs, v.cap) if segs is not None else None
            else:
                segs = self.cutsegs(v, 0, n)
                nv = type(v)(v.el, segs) if segs is not None else None
            if nv is None:
                self.imprecise('resize')
                nv = type(v)(v.el, [('unk', n)])
            self.put(this, nv)
            return VOID
        if d is None:
            d = self.default(v.el)
        self.put(this, type(v)(v.el, self.cat(list(v.segs) + [('fill', d, n - ln)]), v.cap))
        return VOID

    def vec_insert(self, f, this, v, args):
        ps = f['params']
        n = f['n']
        if n == 'append' and type(v) is StrV:
            segs = self.append_segs(f, args)
            pos = self.vlen(v)
        else:
            pos = self.itp(args[0]) if not (isinstance(args[0], Ptr) and self.ty(ps[0]['t'])['k'] == 'ref') else self.itp(self.get(args[0]))
            o, path, i = self.split(pos)
            if o != this.obj or self.norm_path(path) != self.norm_path(this.path):
                self.oblige('range', False, 'insert position of another sequence')
                raise Prune('insert')
            pos = i
            rest, rp = args[1:], ps[1:]
            if len(rest) == 1:
                t = self.ty(rp[0]['t'])
                rk = self.reckey(rp[0]['t'])
                x = rest[0]
                if rk and self.recqn(rk) == 'std::initializer_list':
                    x = x if isinstance(x, StructV) else self.get(x)
                    segs = self.slice(x.f['_M_array'], x.f['_M_len']) if x.f['_M_len'] else []
                else:
                    if t['k'] == 'ref':
                        x = self.load(x, v.el)
                    segs = [('e', x)]
            elif self.ty(rp[0]['t'])['k'] == 'int':
                x = rest[1]
                if isinstance(x, Ptr):
                    x = self.load(x, v.el)
                segs = [('fill', x, self.conc(self.lin(rest[0])))]
            else:
                a = rest[0] if not (isinstance(rest[0], Ptr) and self.ty(rp[0]['t'])['k'] == 'ref') else self.get(rest[0])
                b = rest[1] if not (isinstance(rest[1], Ptr) and self.ty(rp[1]['t'])['k'] == 'ref') else self.get(rest[1])
                segs, cnt = self.range_segs(a, b)
                segs = self.conv_segs(segs, v.el)
        ln = self.vlen(v)
        if v.cap:
            self.imprecise('insert into a sequence with pending stores')
        if isinstance(pos, int) and pos == 0:
            nv = list(segs) + list(v.segs)
        elif self.st.eq0(poly.L(pos) - ln):
            new = self.cat(segs)
            if v.segs and new and not (new[0][0] == 'fill' and v.segs[-1][0] == 'fill'):
                nv = type(v)(v.el, v.segs + new, v.cap)
                add = poly.L(ln) + self.vlen(type(v)(v.el, new))
                nv._len = add.k if add.is_const() else add
                nv._ne = v.ne() if v.ne() < len(v.segs) else None
                self.put(this, nv)
                if f.get('ret') and self.ty(f['ret'])['k'] == 'rec':
                    return self.mkit(f['ret'], this + pos)
                return this
            nv = list(v.segs) + list(segs)
        else:
            a, b = self.cutsegs(v, 0, pos), self.cutsegs(v, pos, poly.L(ln) - pos)
            if a is None or b is None:
                self.imprecise('insert position')
                nv = [('unk', poly.L(ln) + self.vlen(type(v)(v.el, segs)))]
            else:
                nv = a + list(segs) + b
        self.put(this, type(v)(v.el, self.cat(nv), v.cap))
        if f.get('ret') and self.ty(f['ret'])['k'] == 'rec':
            return self.mkit(f['ret'], this + pos)
        return this

    def vec_erase(self, f, this, v, args):
        a = self.itp(args[0])
        i = self.split(a)[2]
        n = 1 if len(args) == 1 else self.psub(self.itp(args[1]), a)
        ln = self.vlen(v)
        x, y = self.cutsegs(v, 0, i), self.cutsegs(v, poly.L(i) + n, poly.L(ln) - i - n)
        if x is None or y is None or v.cap:
            raise GiveUp('erase')
        self.put(this, type(v)(v.el, self.cat(x + y)))
        return self.mkit(f['ret'], this + i)

    # ---- strings
    def append_segs(self, f, args):
        ps = f['params']
        t0 = self.ty(ps[0]['t'])
        if t0['k'] == 'int' and len(args) == 2:
            return [('fill', args[1], self.conc(self.lin(args[0])))]
        if t0['k'] == 'int':
            return [('e', args[0])]
        if len(args) >= 2 and t0['k'] == 'ptr' and self.ty(ps[1]['t'])['k'] == 'int':
            return self.slice(args[0], args[1])
        if len(args) == 2:
            return self.range_segs(args[0], args[1])[0]
        return self.text(args[0])

    def substr(self, v, pos, cnt):
        pos = self.lin(pos)
        ln = self.vlen(v)
        if not self.branch(self.compare('<=', pos, ln)):
            raise Thrown('any')
        rest = poly.L(ln) - pos
        rest = rest.k if rest.is_const() else rest
        n = rest
        if cnt is not None:
            cnt = self.lin(cnt)
            if self.branch(self.compare('<', cnt, rest)):
                n = cnt
        n = self.conc(n)
        if isinstance(n, int) and n == 0:
            return ()
        tmp = self.alloc('sub', v)
        return self.cat(self.slice(tmp + pos, n))

    def str_method(self, n, f, this, args, node):
        v = self.vval(this)
        if not isinstance(v, StrV):
            if isinstance(v, VecV):
                v = StrV(v.el, v.segs, v.cap)
            else:
                raise GiveUp('string value %r' % (v,))
        if n == 'operator basic_string_view' or n.startswith('operator basic_string_view') or n.startswith('operator __sv_type'):
            return StructV(self.reckey(f['ret']), {'_M_len': self.vlen(v), '_M_str': this + 0})
        if n in ('c_str', 'data'):
            return this + 0
        if n in ('append', 'operator+='):
            self.put(this, StrV(v.el, self.cat(list(v.segs) + list(self.append_segs(f, args))), v.cap))
            return this
        if n == 'starts_with':
            return self.starts_with(v, this, args[0])
        if n == 'substr':
            return StrV(v.el, self.substr(v, args[0] if args else 0, args[1] if len(args) > 1 else None))
        if n == 'compare' and len(args) == 1:
            r = self.texteq(list(v.segs), self.text(args[0]))
            return 0 if self.branch(r) else 1
        if n == 'operator=':
            a = args[0]
            t0 = self.ty(f['params'][0]['t'])
            self.put(this, StrV(v.el, self.text(a)) if t0['k'] != 'int' else StrV(v.el, [('e', a)]))
            return this
        if n == 'operator[]':
            i = self.lin(args[0])
            ln = self.vlen(v)
            ok = self.forced(lambda: 0 if self.bounds_ok(i, poly.L(ln) + 1) else 1) == 0
            self.oblige('oob', ok, 'character %s of a string of %s' % (i, ln), [i, poly.L(ln) - i])
            if not ok:
                if isinstance(i, int) and isinstance(ln, int):
                    raise Prune('out of bounds')
                self.st.add_ge(poly.L(i))
                self.st.add_ge(poly.L(ln) - i)
            d = self.compare('==', i, ln)
            if d is True or (d is not False and self.branch(d)):
                return self.alloc('nul', 0)
            return this + i
        if n == 'find':
            raise GiveUp('string::find')
        return self.vec_method(n, f, this, args, node)

    def texteq(self, a, b):
        """bool/Cond: equality of two texts"""
        la = self.vlen(VecV('b:char', a))
        lb = self.vlen(VecV('b:char', b))
        if not self.branch(self.compare('==', la, lb)):
            return False
        n = self.conc(la) if isinstance(la, Lin) else la
        if not isinstance(n, int):
            n = self.conc(lb)
        if not isinstance(n, int) or n > 200:
            return Cond('sym', ('texteq', repr(a), repr(b)))
        va, vb = VecV('b:char', a), VecV('b:char', b)
        for i in range(n):
            if not self.branch(self.compare('==', self.elem(va, i), self.elem(vb, i))):
                return False
        return True

    def starts_with(self, v, this, arg):
        if isinstance(arg, (int, Lin)):
            pre = [('e', arg)]
        else:
            pre = self.text(arg)
        k = self.vlen(VecV('b:char', pre))
        if not isinstance(k, int):
            return Cond('unk', 'starts_with')
        if not self.branch(self.compare('>=', self.vlen(v), k)):
            return 0
        pv = VecV('b:char', pre)
        for i in range(k):
            if not self.branch(self.compare('==', self.elem(v, i), self.elem(pv, i))):
                return 0
        return 1

    def sv_method(self, n, f, this, args, node):
        v = self.vval(this)
        if not isinstance(v, StructV):
            raise GiveUp('string_view %r' % (v,))
        ln, p = v.f.get('_M_len'), v.f.get('_M_str')
        if n in ('size', 'length'):
            return ln
        if n == 'empty':
            r = self.compare('==', ln, 0)
            return int(r) if isinstance(r, bool) else r
        if n in ('data', 'begin', 'cbegin'):
            return p
        if n in ('end', 'cend'):
            return self.padd(p, ln)
        if n in ('operator[]', 'at', 'back', 'front'):
            i = self.lin(args[0]) if args else (poly.L(ln) - 1 if n == 'back' else 0)
            if isinstance(i, Lin) and i.is_const():
                i = i.k
            if n == 'at' and not self.branch(self.compare('<', i, ln)):
                raise Thrown('any')
            ok = self.forced(lambda: 0 if self.bounds_ok(i, ln) else 1) == 0
            self.oblige('oob', ok, 'character %s of a text of %s' % (i, ln), [i, poly.L(ln) - i - 1])
            if not ok:
                if isinstance(i, int) and isinstance(ln, int):
                    raise Prune('out of bounds')
                self.st.add_ge(poly.L(i))
                self.st.add_ge(poly.L(ln) - i - 1)
            return self.padd(p, i)
        if n == 'substr':
            pos = self.lin(args[0]) if args else 0
            if not self.branch(self.compare('<=', pos, ln)):
                raise Thrown('any')
            rest = poly.L(ln) - pos
            rest = rest.k if rest.is_const() else rest
            r = rest
            if len(args) > 1:
                cnt = self.lin(args[1])
                if self.branch(self.compare('<', cnt, rest)):
                    r = cnt
            r = self.conc(r) if isinstance(r, Lin) else r
            return StructV(v.rec, {'_M_len': r, '_M_str': self.padd(p, pos)})
        if n == 'remove_prefix':
            k = self.lin(args[0])
            self.put(this, StructV(v.rec, {'_M_len': self.lin(poly.L(ln) - k), '_M_str': self.padd(p, k)}))
            return VOID
        if n == 'remove_suffix':
            k = self.lin(args[0])
            self.put(this, StructV(v.rec, {'_M_len': self.lin(poly.L(ln) - k), '_M_str': p}))
            return VOID
        if n == 'starts_with':
            pre = self.text(args[0]) if not isinstance(args[0], (int, Lin)) else [('e', args[0])]
            k = self.vlen(VecV('b:char', pre))
            if not isinstance(k, int):
                return Cond('unk', 'starts_with')
            if not self.branch(self.compare('>=', ln, k)):
                return 0
            pv = VecV('b:char', pre)
            for i in range(k):
                if not self.branch(self.compare('==', self.load(self.padd(p, i), 'b:char'), self.elem(pv, i))):
                    return 0
            return 1
        if n == 'operator=':
            self.put(this, self.get(args[0]))
            return this
        raise GiveUp('string_view::' + n)

    # ---- vector<bool> iterators and references
    def bit_method(self, n, f, this, args, node):
        v = self.get(this)
        p = v.f['p']
        if n == 'operator*':
            return self.bref(f, p)
        if n in ('operator++', 'operator--'):
            d = 1 if n == 'operator++' else -1
            self.put(this, v.set('p', self.padd(p, d)))
            return this if not args else v
        if n in ('operator+=', 'operator-='):
            k = self.lin(args[0])
            self.put(this, v.set('p', self.padd(p, k if n == 'operator+=' else -k)))
            return this
        if n in ('operator+', 'operator-') and self.ty(f['params'][0]['t'])['k'] == 'int':
            k = self.lin(args[0])
            return v.set('p', self.padd(p, k if n == 'operator+' else -k))
        if n == 'operator[]':
            return self.bref(f, self.padd(p, self.lin(args[0])))
        if n == 'operator bool':
            return self.load(p, 'b:bool')
        if n == 'operator=':
            a = args[0]
            if isinstance(a, Ptr):
                w = self.get(a)
                a = self.load(w.f['p'], 'b:bool') if isinstance(w, StructV) and 'p' in w.f else w
                if self.recqn(v.rec) != 'std::_Bit_reference':
                    self.put(this, self.get(args[0]))
                    return this
            if self.recqn(v.rec) != 'std::_Bit_reference':
                self.put(this, a)
                return this
            self.put(p, self.boolval(a), 'b:bool')
            return this
        if n == 'flip':
            self.put(p, self.arith('-', 1, self.load(p, 'b:bool'), self.ty('b:int')))
            return VOID
        if n in ('operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
            q = self.itp(args[0] if not isinstance(args[0], Ptr) else self.get(args[0]))
            r = self.compare(n[8:], p, q)
            return int(r) if isinstance(r, bool) else r
        if n == '_M_assume_normalized' or n.startswith('~'):
            return VOID
        raise GiveUp('vector<bool> iterator ' + n)

    # ---- free operators
    def std_operator(self, n, f, args, node):
        ps = f['params']
        if not ps:
            return NotImplemented
        k0 = self.reckey(ps[0]['t'])
        q0 = self.recqn(k0) if k0 else ''
        k1 = self.reckey(ps[1]['t']) if len(ps) > 1 else None
        q1 = self.recqn(k1) if k1 else ''
        if n == 'operator<<':
            return self.stream_out(f, args)
        if q0.startswith('std::_Bit') or q1.startswith('std::_Bit'):
            a = self.get(args[0]) if isinstance(args[0], Ptr) else args[0]
            b = self.get(args[1]) if isinstance(args[1], Ptr) else args[1]
            if n == 'operator-':
                return self.psub(self.itp(a), self.itp(b))
            if n in ('operator==', 'operator!=', 'operator<'):
                r = self.compare(n[8:], self.itp(a), self.itp(b))
                return int(r) if isinstance(r, bool) else r
            if n == 'operator<=>':
                return self.three(self.itp(a), self.itp(b))
            if n == 'operator+':
                return b.set('p', self.padd(self.itp(b), self.lin(a)))
        if n in ('operator==', 'operator!=') and (q0 in ('std::basic_string', 'std::basic_string_view') or q1 in ('std::basic_string', 'std::basic_string_view')):
            r = self.texteq(self.text(args[0]), self.text(args[1]))
            r = r if n == 'operator==' else ((not r) if isinstance(r, bool) else r.neg())
            return int(r) if isinstance(r, bool) else r
        if n == 'operator+' and (q0 == 'std::basic_string' or q1 == 'std::basic_string'):
            def seg(a, p):
                if self.ty(p['t'])['k'] == 'int':
                    return [('e', a)]
                return self.text(a)
            return StrV('b:char', self.cat(seg(args[0], ps[0]) + seg(args[1], ps[1])))
        if n in ('operator==', 'operator!=') and q0 in ('std::vector', 'std::array') and q1 == q0:
            r = self.seqeq(args[0], args[1], f)
            if r is NotImplemented:
                return r
            r = r if n == 'operator==' else ((not r) if isinstance(r, bool) else r.neg())
            return int(r) if isinstance(r, bool) else r
        return NotImplemented

    def seqeq(self, pa, pb, f):
        a, b = self.get(pa), self.get(pb)
        na, nb = self.objname(pa), self.objname(pb)
        if na and nb:
            if na == nb:
                return True
            self.event('eqv', na, nb, f['qn'])
            x, y = sorted((na, nb))
            return Cond('sym', ('eqv', x, y))
        fa, fb = self.flatten(a), self.flatten(b)
        if fa is not None and fb is not None:
            if len(fa) != len(fb):
                return False
            for x, y in zip(fa, fb):
                if not self.branch(self.compare('==', x, y)):
                    return False
            return True
        return NotImplemented

    # ---- streams
    def stream(self, p):
        v = self.get(p)
        if isinstance(v, LazyV) or not (isinstance(v, StructV) and 'buf' in v.f):
            v = StructV('stream', {'buf': StrV('b:char', (('op', 'stream', 0, self.veclen('stream')),)), 'hex': 0, 'fill': 32, 'w': 0, 'upper': 0})
        return v

    def stream_out(self, f, args):
        p, a = args[0], args[1]
        ps = f['params']
        t1 = self.ty(ps[1]['t'])
        st = self.stream(p)
        k1 = self.reckey(ps[1]['t'])
        q1 = self.recqn(k1) if k1 else ''
        if q1 in ('std::_Setw', 'std::_Setfill'):
            v = a if isinstance(a, StructV) else self.get(a)
            self.put(p, st.set('w' if q1 == 'std::_Setw' else 'fill', v.f['v']))
            return p
        if t1['k'] == 'int' and t1['w'] == 8 and not t1.get('bool'):
            segs = [('e', self.wrap(a, 'b:char'))]
        elif t1['k'] == 'ptr' and self.ty(t1['to'])['k'] == 'int':
            segs = self.cstr(a)
        else:
            segs = self.text(a)
        return self.emit(p, st, segs)

    def emit(self, p, st, segs):
        w = st.f['w']
        n = self.vlen(VecV('b:char', segs))
        if isinstance(w, int) and w and isinstance(n, int) and n < w:
            segs = [('e', st.f['fill'])] * (w - n) + list(segs)
        elif not (isinstance(w, int) and w == 0):
            if not isinstance(w, int):
                self.imprecise('width')
        buf = st.f['buf']
        self.put(p, st.set('buf', StrV('b:char', self.cat(list(buf.segs) + list(segs)))).set('w', 0))
        return p

    def out_int(self, p, a, t):
        st = self.stream(p)
        base = 16 if st.f['hex'] == 1 else 8 if st.f['hex'] == 8 else 10
        up = st.f.get('upper')
        def digits(x):
            if x < 0:
                x = x + (1 << t['w']) if base != 10 else x
            s = {16: '%X' if up else '%x', 8: '%o', 10: '%d'}[base] % x
            w = st.f['w']
            return s.rjust(w, chr(st.f['fill'])) if isinstance(w, int) and isinstance(st.f['fill'], int) else s
        if isinstance(a, Cond):
            a = self.lin(a)
        if isinstance(a, int):
            segs = [('e', ord(c)) for c in digits(a)]
        else:
            tab = self.astab(a)
            if tab is None and not isinstance(a, Tab):
                x = self.lin(a)
                lo, hi = self.st.bounds(x) if isinstance(x, Lin) else (0, 0)
                if isinstance(x, Lin) and 0 <= lo and hi <= 255:
                    s = self.fresh('byte', int(lo), int(hi))
                    self.st.add_eq(s - x)
                    tab = self.astab(s)
            if tab is None:
                self.imprecise('formatted number')
                segs = [('unk', self.fresh('digits', 1, 25))]
            else:
                tx = tab.map(digits)
                lens = {len(s) for s in tx.f.values()}
                if len(lens) != 1:
                    for k in sorted(lens)[:-1]:
                        if self.branch(Cond('tab', tx.map(lambda s, k=k: len(s) == k))):
                            lens = {k}
                            break
                    else:
                        lens = {max(lens)}
                    dom = self.domain(tab.sym)
                    tx = Tab(tab.sym, {x: s for x, s in tx.f.items() if x in dom and len(s) in lens})
                n = lens.pop()
                segs = [('e', self.normtab(tx.map(lambda s, i=i: ord(s[i])))) for i in range(n)]
        buf = st.f['buf']
        self.put(p, st.set('buf', StrV('b:char', self.cat(list(buf.segs) + segs))).set('w', 0))
        return p

    # ---- YAML
    decode_text = None      # what a scalar node holds, for checks of one text

    def ynode(self, v):
        if isinstance(v, LazyV):
            v = self.expand(v)
        if isinstance(v, StructV) and v.rec == 'yproxy':
            return TermV('sub', self.ynode(self.get(v.f['parent'])), v.f['key'])
        return v

    def desc(self, v):
        """description of a value handed to the YAML encoder"""
        if isinstance(v, Ptr):
            n = self.objname(v)
            if n:
                return ('val', n)
            v = self.get(v)
        if isinstance(v, LazyV):
            return ('val', v.name)
        if isinstance(v, Lin) and len(v.c) == 1 and v.k == 0 and list(v.c.values()) == [1]:
            return ('val', next(iter(v.c)))
        if isinstance(v, TermV):
            return v
        if isinstance(v, StrV):
            x = ('text', tuple(map(repr, v.segs)))
            self.st.meta[x] = v
            return x
        return ('other', repr(v))

    def yaml_method(self, n, f, this, args, node):
        v = self.get(this)
        if isinstance(v, LazyV):
            v = self.expand(v)
        if n == 'operator[]':
            key = self.keytext(args[0], f['params'][0]['t'])
            if isinstance(v, TermV) and v.t[0] in ('node', 'sub'):
                return TermV('sub', v, key)
            if isinstance(v, TermV) and v.t[0] == 'ymap':
                return StructV('yproxy', {'parent': this, 'key': key})
            raise GiveUp('YAML subscript of %r' % (v,))
        if n == 'operator=':
            a = args[0]
            x = self.get(a) if isinstance(a, Ptr) else a
            if f['params'] and self.reckey(f['params'][0]['t']) != f['rec']:
                x = TermV('yaml', self.desc(a))
            x = self.ynode(x)
            if isinstance(v, StructV) and v.rec == 'yproxy':
                par = self.get(v.f['parent'])
                if not (isinstance(par, TermV) and par.t[0] == 'ymap'):
                    raise GiveUp('YAML assignment')
                items = [i for i in par.t[1] if i[0] != v.f['key']]
                self.put(v.f['parent'], TermV('ymap', tuple(items) + ((v.f['key'], x),)))
                return this
            self.put(this, x)
            return this
        if n in ('IsDefined', 'IsMap', 'IsSequence', 'IsScalar', 'IsNull', 'operator bool', 'operator!'):
            c = Cond('sym', ('yaml', n.replace('operator!', 'operator bool'), repr(v)))
            return c.neg() if n == 'operator!' else c
        if n.startswith('~'):
            return VOID
        if n == 'push_back':
            x = TermV('yaml', self.desc(args[0]))
            if isinstance(v, TermV) and v.t[0] == 'ymap':
                self.put(this, TermV('ymap', v.t[1] + (('#%d' % len(v.t[1]), x),)))
                return VOID
        raise GiveUp('YAML::Node::' + n)

    def keytext(self, a, tk):
        segs = self.text(a)
        s = lit(StrV('b:char', segs))
        return s if s is not None else repr(segs)

    def newok(self, what):
        self.st.next += 1
        return Cond('sym', ('ok', what, self.st.next))

    def yaml_convert(self, f, args):
        if f['n'] == 'encode':
            a = args[0]
            return TermV('yaml', self.desc(a if isinstance(a, Ptr) else a))
        nd, out = args[0], args[1]
        v = self.ynode(self.get(nd) if isinstance(nd, Ptr) else nd)
        tk = f['params'][1]['t']
        t = self.ty(tk)['to']
        if self.decode_text and self.recqn(self.reckey(t) or '') == 'std::basic_string':
            self.put(out, self.decode_text(self))
            return 1
        ok = self.newok('decode')
        name = '%s!dec%d' % (self.objname(out) or out, self.st.next)
        self.event('ydecode', v, out, t, ok)
        self.put(out, self.typeval(t, name))
        return ok

    # ---- hash tree
    def tree_method(self, n, f, this, args, node):
        v = self.get(this)
        if isinstance(v, LazyV) or not (isinstance(v, StructV) and '#tree' in v.f):
            return NotImplemented
        tr = v.f['#tree']
        if n == 'mix_in':
            self.event('mix', tr, args[0])
            self.put(this, v.set('#tree', TermV('tree', tr.t[1], tr.t[2], tr.t[3] + (args[0],))))
            return VOID
        if n == 'hash_tree':
            return VecV(self.chunk_el(f), [('tree', tr, self.fresh('nodes', 1, self.max_len))])
        if n == 'hash_tree_root':
            return TermV('treeroot', tr)
        if n.startswith('~'):
            return VOID
        return NotImplemented

    def chunk_el(self, f):
        rk = self.reckey(f['ret'])
        return self.rec(rk)['targs'][0]

    def elem(self, v, i):
        if isinstance(v, VecV) and len(v.segs) == 1 and v.segs[0][0] == 'tree' and not v.cap:
            if self.st.eq0(poly.L(i) - v.segs[0][2] + 1):
                return TermV('treeroot', v.segs[0][1])
            return TermV('treenode', v.segs[0][1], repr(i))
        return super().elem(v, i)

    def hash_blocks(self, args):
        raise GiveUp('hash_64b_blocks')

    # ---- contracts of nested SSZ values
    def ssz_size(self, p):
        """get_ssz_size() of the object"""
        for k, f in self.P.funcs.items():
            if f['qn'] == 'ssz::Container::get_ssz_size':
                return self.mcall(k, p, [], None, True)
        raise GiveUp('get_ssz_size')

    def ssz_contract(self, fk, f, this, args, node):
        n = f['n']
        v = self.get(this)
        if n in ('serialize', 'hash_tree', 'hash_tree_root', 'encode'):
            name = self.objname(this)
            if name is None:
                return NotImplemented
            if n == 'serialize':
                sz = self.ssz_size(this)
                if isinstance(sz, int) and sz == 0:
                    s = name + '.len'
                    self.st.declare(s, 0, self.max_len)
                    sz = Lin.var(s)
                self.event('ser', name, this)
                return VecV('b:unsigned char', [('ser', name, sz)])
            if n == 'hash_tree_root':
                self.event('root', name, this)
                return TermV('root', name)
            if n == 'hash_tree':
                self.event('root', name, this)
                rk = self.reckey(f['ret'])
                return VecV(self.rec(rk)['targs'][0], [('tree', TermV('rootof', name), self.fresh('nodes', 1, self.max_len))])
            self.event('enc', name, this)
            return TermV('yaml', ('val', name))
        cls = self.dyn(this)
        if n == 'deserialize':
            a, b = (x if not isinstance(x, Ptr) else self.get(x) for x in args[:2])
            pa, pb = self.itp(a), self.itp(b)
            ok = self.newok('deserialize')
            nm = self.objname(this) or ('%s' % (this,))
            oa, xa, ia = self.split(pa)
            ob, xb, ib = self.split(pb)
            self.subrange(oa, xa, ia, ob, xb, ib)
            self.event('deser', this, cls, (oa, ia, ib), ok, self.ssz_size(this))
            name = '%s!des%d' % (this, self.st.next)
            self.put(this, LazyV('R:' + cls, name))
            self.st.meta[('des', name)] = (oa, ia, ib)
            return ok
        if n == 'decode':
            nd = args[0]
            v = self.ynode(self.get(nd) if isinstance(nd, Ptr) else nd)
            ok = self.newok('decode')
            self.event('ydecode', v, this, 'R:' + (cls or ''), ok)
            name = '%s!dec%d' % (this, self.st.next)
            self.put(this, LazyV('R:' + cls, name))
            self.st.meta[('dec', name)] = v
            return ok
        return NotImplemented

    def subrange(self, oa, xa, ia, ob, xb, ib):
        """C10: a nested range lies inside the given one"""
        same = oa == ob and self.norm_path(xa) == self.norm_path(xb)
        self.oblige('sub', same, 'nested range with ends in different buffers')
        if not same:
            raise Prune('range')
        v = self.get(Ptr(oa, xa))
        n = self.clen(v)
        if n is None:
            return
        for msg, e in (('starts before the given bytes', poly.L(ia)), ('ends past the given bytes', poly.L(n) - ib), ('begins after its end', poly.L(ib) - ia)):
            ok = self.forced(lambda: 0 if self.st.ge0(e) else 1) == 0
            self.oblige('sub', ok, 'range [%s, %s) handed to a nested deserialize %s (length %s)' % (ia, ib, msg, n), [e])
            if not ok:
                self.st.add_ge(e)


MODELS = {}


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return deco


@model('std::move', 'std::forward', 'std::as_const', 'std::launder', 'std::__niter_base_ref')
def _(m, f, this, args, node):
    return args[0] if len(args) == 1 else NotImplemented


@model('std::__addressof', 'std::addressof', '__builtin_addressof')
def _(m, f, this, args, node):
    return args[0]


@model('__builtin_expect')
def _(m, f, this, args, node):
    return args[0]


@model('__builtin_constant_p', 'std::is_constant_evaluated', 'std::__is_constant_evaluated', '__builtin_is_constant_evaluated')
def _(m, f, this, args, node):
    return 0


@model('__builtin_unreachable', 'abort', 'std::abort', 'std::terminate', '__assert_fail')
def _(m, f, this, args, node):
    raise Prune('unreachable')


def _throw(m, f, this, args, node):
    raise Thrown('any')


for _n in ('std::__throw_out_of_range', 'std::__throw_out_of_range_fmt', 'std::__throw_length_error', 'std::__throw_logic_error', 'std::__throw_invalid_argument'):
    MODELS[_n] = _throw


def _clz(w):
    def fn(m, f, this, args, node):
        x = args[0]
        if isinstance(x, int):
            m.oblige('shift', x != 0, '__builtin_clz(0)')
            if x == 0:
                raise Prune('clz')
            return w - (x & ((1 << w) - 1)).bit_length()
        t = m.astab(x)
        if t is not None:
            if any(v == 0 for k, v in t.f.items() if k in m.domain(t.sym)):
                m.oblige('shift', False, '__builtin_clz(0)')
            return m.normtab(t.map(lambda v: w - v.bit_length()))
        x = m.lin(x)
        lo, hi = m.st.bounds(x)
        if lo < 0 or hi == INF:
            raise GiveUp('clz')
        if lo < 1 and not m.branch(m.compare('>', x, 0)):
            m.oblige('shift', False, '__builtin_clz(0)')
            raise Prune('clz')
        lo, hi = m.st.bounds(x)
        for k in range(int(lo).bit_length(), int(hi).bit_length()):
            if m.branch(Cond('ge', poly.L((1 << k) - 1) - x)):
                return w - k
        return w - int(hi).bit_length()
    return fn


def _bswap(w, tk):
    def fn(m, f, this, args, node):
        return m.frombytes(m.tobytes(args[0], w)[::-1], tk)
    return fn


for _w, _t in ((2, 'b:unsigned short'), (4, 'b:unsigned int'), (8, 'b:unsigned long')):
    MODELS['__builtin_bswap%d' % (8 * _w)] = MODELS['__bswap_%d' % (8 * _w)] = _bswap(_w, _t)


MODELS['__builtin_clz'] = _clz(32)
MODELS['__builtin_clzl'] = MODELS['__builtin_clzll'] = _clz(64)


def _ctz(m, f, this, args, node):
    x = args[0]
    t = m.astab(x) if not isinstance(x, int) else None
    if isinstance(x, int) and x:
        return (x & -x).bit_length() - 1
    if t is not None:
        return m.normtab(t.map(lambda v: (v & -v).bit_length() - 1 if v else 0))
    raise GiveUp('ctz')


for _n in ('__builtin_ctz', '__builtin_ctzl', '__builtin_ctzll'):
    MODELS[_n] = _ctz


def _pop(m, f, this, args, node):
    x = args[0]
    t = m.astab(x) if not isinstance(x, int) else None
    if isinstance(x, int):
        return bin(x & ((1 << 64) - 1)).count('1')
    if t is not None:
        return m.normtab(t.map(lambda v: bin(v & ((1 << 64) - 1)).count('1')))
    raise GiveUp('popcount')


for _n in ('__builtin_popcount', '__builtin_popcountl', '__builtin_popcountll'):
    MODELS[_n] = _pop


@model('memcpy', 'memmove', 'std::memcpy', 'std::memmove', '__builtin_memcpy', '__builtin_memmove')
def _(m, f, this, args, node):
    d, s, n = args
    n = m.conc(m.lin(n))
    if isinstance(n, int) and n == 0:
        return d
    dw, ds = m.unit(d), m.unit(s)
    if dw is None or ds is None:
        raise GiveUp('memcpy of non-byte objects %r %r' % (d, s))
    if dw == ds and dw > 1:
        k = m.divexact(n, dw)
        segs = m.slice(s, k)
        m.write_seq(d, segs, k)
        return d
    segs = m.byteslice(s, n, ds)
    m.bytewrite(d, segs, n, dw)
    return d


def _unit(self, p):
    """byte size of the elements a pointer steps over"""
    o, path, i = self.split(p)
    v = self.get(Ptr(o, path))
    if isinstance(v, LazyV):
        v = self.expand(v)
    if isinstance(v, (ArrV, VecV)):
        return self.width(v.el)
    return 0       # a single object


def _divexact(self, n, w):
    if isinstance(n, int):
        if n % w:
            raise GiveUp('partial element copied')
        return n // w
    if all(a % w == 0 for a in n.c.values()) and n.k % w == 0:
        return Lin({v: a // w for v, a in n.c.items()}, n.k // w)
    q, r = self.divmod(n, w)
    if not self.st.eq0(poly.L(r)):
        raise GiveUp('partial element copied')
    return q


def _byteslice(self, p, n, w):
    """n bytes at p as byte segments"""
    if w == 1:
        return self.slice(p, n)
    o, path, i = self.split(p)
    v = self.get(Ptr(o, path))
    if isinstance(v, LazyV):
        v = self.expand(v)
    if w == 0:
        if not isinstance(n, int):
            raise GiveUp('copy of a single object')
        fl = self.flatten(v)
        if fl is None and isinstance(v, (int, Lin, Tab, Cond)):
            fl = self.tobytes(v, n)
            # the size of the object is checked through its declared type when known
        if fl is None and v is UNINIT:
            fl = [UNINIT] * n
        if fl is None:
            raise GiveUp('bytes of %r' % (v,))
        if n > len(fl):
            self.oblige('oob', False, 'copy of %d bytes from an object of %d' % (n, len(fl)))
            raise Prune('out of bounds')
        return [('e', b) for b in fl[:n]]
    if not isinstance(n, int) or n % w:
        raise GiveUp('bytes of wide elements')
    out = []
    for g in self.slice(p, n // w):
        if g[0] != 'e':
            raise GiveUp('bytes of wide elements')
        fl = self.flatten(g[1]) if not isinstance(g[1], (int, Lin, Tab, Cond)) else self.tobytes(g[1], w)
        if fl is None:
            raise GiveUp('bytes of %r' % (g[1],))
        out += [('e', b) for b in fl]
    return out


def _bytewrite(self, p, segs, n, w):
    if w == 1:
        return self.write_seq(p, segs, n)
    o, path, i = self.split(p)
    if not isinstance(n, int):
        raise GiveUp('symbolic copy into a wide object')
    bs = []
    for g in segs:
        if g[0] == 'e':
            bs.append(g[1])
        elif isinstance(self.seglen(g), int) and self.seglen(g) <= 64:
            vv = VecV('b:unsigned char', [g])
            bs += [self.elem(vv, k) for k in range(self.seglen(g))]
        elif n <= 64:
            vv = VecV('b:unsigned char', list(segs))
            bs = [self.elem(vv, k) for k in range(n)]
            break
        else:
            raise GiveUp('copy into a wide object')
    if w == 0:
        cur = self.get(Ptr(o, path))
        if isinstance(cur, LazyV):
            cur = self.expand(cur)
        fl = self.flatten(cur)
        if fl is not None:
            if n > len(fl):
                self.oblige('oob', False, 'copy of %d bytes into an object of %d' % (n, len(fl)))
                raise Prune('out of bounds')
            if isinstance(cur, StructV):
                a = cur.f['_M_elems']
                self.put(Ptr(o, path), cur.set('_M_elems', ArrV(a.n, a.el, 0, dict(enumerate(bs + fl[n:])))))
            else:
                self.put(Ptr(o, path), ArrV(cur.n, cur.el, 0, dict(enumerate(bs + fl[n:]))))
            return
        tk = {1: 'b:unsigned char', 2: 'b:unsigned short', 4: 'b:unsigned int', 8: 'b:unsigned long'}.get(n)
        if tk is None or tk not in self.P.types:
            raise GiveUp('copy into a scalar')
        self.put(Ptr(o, path), self.frombytes(bs, tk))
        return
    i = self.conc(self.lin(i))
    if not isinstance(i, int):
        raise GiveUp('copy into wide elements')
    for k in range(0, n, w):
        q = Ptr(o, path + (i + k // w,))
        part = bs[k:k + w]
        if len(part) < w:
            fl = self.flatten(self.load(q, self.get(Ptr(o, path)).el))
            if fl is None:
                raise GiveUp('copy into wide elements')
            part = part + fl[len(part):]
        v = self.unflatten(part, self.get(Ptr(o, path)).el)
        if v is None:
            raise GiveUp('copy into wide elements')
        self.put(q, v)


Machine.unit, Machine.divexact, Machine.byteslice, Machine.bytewrite = _unit, _divexact, _byteslice, _bytewrite


@model('memcmp', 'std::memcmp', '__builtin_memcmp')
def _(m, f, this, args, node):
    a, b, n = args
    n = m.conc(m.lin(n))
    if isinstance(n, int) and n == 0:
        return 0
    sa, sb = m.byteslice(a, n, m.unit(a)), m.byteslice(b, n, m.unit(b))
    if sa == sb:
        return 0
    if isinstance(n, int) and all(g[0] == 'e' for g in sa + sb):
        for x, y in zip(sa, sb):
            if not m.branch(m.compare('==', x[1], y[1])):
                return 1
        return 0
    # equality of two whole regions is one atomic fact
    def nm(s):
        return repr(s)
    x, y = sorted((nm(sa), nm(sb)))
    na = [g[1] for g in sa if g[0] == 'op'] if all(g[0] == 'op' for g in sa) else None
    nb = [g[1] for g in sb if g[0] == 'op'] if all(g[0] == 'op' for g in sb) else None
    if na and nb and len(na) == len(nb) == 1:
        x, y = sorted((na[0], nb[0]))
    return 0 if m.branch(Cond('sym', ('eqv', x, y))) else 1


@model('memset', 'std::memset', '__builtin_memset')
def _(m, f, this, args, node):
    d, c, n = args
    n = m.conc(m.lin(n))
    if isinstance(n, int) and n == 0:
        return d
    w = m.unit(d)
    c = m.wrap(c, 'b:unsigned char')
    if w == 1:
        m.write_seq(d, [('fill', c, n)] if not isinstance(n, int) or n > 4096 else [('e', c)] * n, n)
    else:
        m.bytewrite(d, [('e', c)] * n, n, w)
    return d


@model('strlen', 'std::strlen', '__builtin_strlen', 'std::char_traits::length')
def _(m, f, this, args, node):
    return len(m.cstr(args[0]))


@model('std::basic_ostream::operator<<')
def _(m, f, this, args, node):
    t = m.ty(f['params'][0]['t'])
    if t['k'] == 'ptr':
        a = args[0]
        if isinstance(a, FnPtr):
            g = m.P.funcs[a.f]
            n = g['n']
            if n in ('hex', 'dec', 'oct'):
                st = m.stream(this)
                m.put(this, st.set('hex', {'hex': 1, 'dec': 0, 'oct': 8}[n]))
                return this
            if n in ('uppercase', 'nouppercase'):
                m.put(this, m.stream(this).set('upper', 1 if n == 'uppercase' else 0))
                return this
            if n in ('flush', 'endl', 'left', 'right', 'internal', 'nounitbuf', 'noshowbase', 'boolalpha', 'noboolalpha'):
                if n in ('left', 'boolalpha'):
                    raise GiveUp('stream manipulator ' + n)
                if n == 'endl':
                    return m.emit(this, m.stream(this), [('e', 10)])
                return this
        raise GiveUp('stream manipulator')
    if t['k'] == 'int':
        if t.get('bool'):
            return m.out_int(this, m.boolval(args[0]), {'w': 32})
        return m.out_int(this, args[0], t)
    raise GiveUp('stream output')


@model('std::operator<<')
def _(m, f, this, args, node):
    return m.stream_out(f, args)


@model('std::setw')
def _(m, f, this, args, node):
    return StructV(m.reckey(f['ret']), {'v': args[0]})


@model('std::setfill')
def _(m, f, this, args, node):
    return StructV(m.reckey(f['ret']), {'v': args[0]})


@model('std::ios_base::flags', 'std::ios_base::setf', 'std::ios_base::unsetf', 'std::ios_base::precision')
def _(m, f, this, args, node):
    return 0


@model('std::hex', 'std::dec')
def _(m, f, this, args, node):
    st = m.stream(args[0])
    m.put(args[0], st.set('hex', 1 if f['n'] == 'hex' else 0))
    return args[0]


@model('std::basic_stringstream::str', 'std::basic_ostringstream::str')
def _(m, f, this, args, node):
    return m.stream(this).f['buf']


@model('std::basic_ios::fill')
def _(m, f, this, args, node):
    st = m.stream(this)
    if args:
        m.put(this, st.set('fill', args[0]))
    return st.f['fill']


@model('std::ios_base::width')
def _(m, f, this, args, node):
    st = m.stream(this)
    if args:
        m.put(this, st.set('w', args[0]))
    return st.f['w']


@model('std::vector::~vector')
def _(m, f, this, args, node):
    return VOID


@model('std::initializer_list::begin')
def _(m, f, this, args, node):
    return m.get(this).f['_M_array']


@model('std::initializer_list::size')
def _(m, f, this, args, node):
    return m.get(this).f['_M_len']


@model('std::initializer_list::end')
def _(m, f, this, args, node):
    v = m.get(this)
    return m.padd(v.f['_M_array'], v.f['_M_len'])
