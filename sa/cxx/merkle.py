"""The tree code itself, interpreted over hash terms: a 64-byte block hashes to a term of its two halves (hash-consed), so
two chunks are equal iff their terms are identical."""
import re
from .models import *
from .dom import *
from .interp import Frame
from ..poly import Lin
from .. import poly


class TreeMachine(Machine):
    def __init__(self, prog, peel=2):
        super().__init__(prog, peel)
        self.treemodel = False
        self.cons = {}
        self.terms = {}
        self.tables = {}
        self.tabname = set()

    def model_ctor(self, fk, f, args, rk):
        if self.recqn(rk) == 'ssz::Hasher':
            # which implementation it selects is C05/C06; that it hashes correctly is C01
            return LazyV('R:' + rk, 'hasher')
        return super().model_ctor(fk, f, args, rk)

    # ---- terms
    bign = None

    def big(self, n):
        """n source chunks N0[0..n); Nk[i] is the node i of level k of the tree padded with zero chunks, so that
        H(Nk[2i], Nk[2i+1]) = N(k+1)[i], and H(Nk[2i], zero subtree k) = N(k+1)[i] when Nk[2i] is the last node of its level"""
        self.bign = n
        self.zeros = ['0']

    def level(self, t):
        m = isinstance(t, str) and re.match(r'^N(\d+)\[(\d+)\]$', t)
        return (int(m.group(1)), int(m.group(2))) if m else None

    def node(self, a, b):
        if self.bign is not None:
            la = self.level(a)
            if la and not la[1] % 2:
                k, i = la
                if self.level(b) == (k, i + 1):
                    return 'N%d[%d]' % (k + 1, i // 2)
                if i == -(-self.bign // (1 << k)) - 1 and b == self.zeroterm(k):
                    return 'N%d[%d]' % (k + 1, i // 2)
        k = (a, b)
        if k not in self.cons:
            self.cons[k] = 'H%d' % len(self.cons)
            self.terms[self.cons[k]] = k
        return self.cons[k]

    def show(self, t, d=4):
        if t in self.terms and d:
            return 'H(%s, %s)' % tuple(self.show(x, d - 1) for x in self.terms[t])
        return str(t)

    def canon(self, bs):
        """term of 32 byte values"""
        first = bs[0]
        if all(isinstance(b, int) and b == 0 for b in bs):
            return '0'
        if isinstance(first, Lin) and len(first.c) == 1 and first.k == 0:
            (v, a), = first.c.items()
            v = str(v)
            if a == 1 and v.endswith('[0]'):
                stem = v[:-3]
                if all(isinstance(b, Lin) and len(b.c) == 1 and b.k == 0 and b.c.get('%s[%d]' % (stem, i)) == 1 for i, b in enumerate(bs)):
                    return stem[:-len('._M_elems')] if stem.endswith('._M_elems') else stem
        if isinstance(first, ByteOf) and all(isinstance(b, ByteOf) and b.lin == first.lin and b.w == first.w and b.i == i for i, b in enumerate(bs[:first.w])) and all(isinstance(b, int) and b == 0 for b in bs[first.w:]):
            return ('len', first.lin)
        v = self.intbytes(bs)
        if v:
            return ('len', v[0])
        return tuple(b if isinstance(b, int) else repr(b) for b in bs)

    def chunkval(self, p):
        """term of the chunk object at p"""
        v = self.get(p)
        if isinstance(v, LazyV):
            return v.name
        fl = self.flatten(v)
        if fl is None or len(fl) != 32:
            raise GiveUp('chunk %r' % (v,))
        if any(b is UNINIT for b in fl):
            self.oblige('uninit', False, 'indeterminate bytes of %s hashed' % (p,))
            raise Prune('uninit')
        return self.canon(fl)

    def places(self, p, n):
        """n consecutive 32-byte places from p: ('c', Ptr) chunk objects or ('b', Ptr of array, first index)"""
        if not isinstance(p, Ptr):
            raise GiveUp('hash buffer %r' % (p,))
        path = p.path
        if not path:
            path = (0,)
        if isinstance(path[-1], str):
            path = path + (0,)
        j = path[-1]
        arr = self.get(Ptr(p.obj, path[:-1])) if len(path) > 1 else self.st.heap[p.obj]
        ln = self.clen(arr)
        if ln == 32 and len(path) >= 3 and isinstance(j, int) and j % 32 == 0 and path[-2] == '_M_elems':
            outer = path[:-2]
            if isinstance(outer[-1], str):
                return [('c', Ptr(p.obj, outer))] if n == 1 else self.beyond(p, n)
            i = outer[-1]
            return [('c', Ptr(p.obj, outer[:-1] + (self.lin(self.arith_add(i, j // 32 + k)),))) for k in range(n)]
        if self.is_byte_el(arr.el):
            if not isinstance(j, int):
                raise GiveUp('hash buffer offset')
            return [('b', Ptr(p.obj, path[:-1]), j + 32 * k) for k in range(n)]
        rk = self.reckey(arr.el)
        if rk and isinstance(j, (int, Lin)):
            return [('c', Ptr(p.obj, path[:-1] + (self.arith_add(j, k),))) for k in range(n)]
        raise GiveUp('hash buffer %r' % (p,))

    def arith_add(self, a, b):
        r = poly.L(a) + b
        return r.k if r.is_const() else r

    def beyond(self, p, n):
        self.oblige('oob', False, '%d bytes at %s, which is a single chunk' % (32 * n, p))
        raise Prune('out of bounds')

    def readplace(self, pl):
        if pl[0] == 'c':
            return self.chunkval(pl[1])
        return self.canon(self.readbytes(pl))

    def readbytes(self, pl):
        bs = [self.get(pl[1] + (pl[2] + k)) for k in range(32)]
        if any(b is UNINIT for b in bs):
            self.oblige('uninit', False, 'indeterminate bytes of %s hashed' % (pl[1],))
            raise Prune('uninit')
        return bs

    def writeplace(self, pl, name):
        rk = self.chunk_rk
        c = LazyV('R:' + rk, name)
        if pl[0] == 'c':
            self.put(pl[1], c)
            return
        for k in range(32):
            b = self.get(Ptr('#tmp')) if False else self.field(self.expand(c), '_M_elems')
            self.put(pl[1] + (pl[2] + k), self.elem(b, k))

    @property
    def chunk_rk(self):
        if not hasattr(self, '_crk'):
            for rk, r in self.P.records.items():
                if r['qn'] == 'std::array' and r.get('targs') and r['targs'][1:] == [32] and self.ty(r['targs'][0])['k'] == 'int' and self.ty(r['targs'][0])['w'] == 8:
                    self._crk = rk
        return self._crk

    def hash_blocks(self, args):
        dst, src, n = args[-3:]
        n = self.conc(self.lin(n))
        if not isinstance(n, int):
            raise GiveUp('hash of a symbolic number of blocks')
        if n == 0:
            return VOID
        if self.bign is not None and n > 8:
            return self.hash_run(dst, src, n)
        s = self.places(src, 2 * n)
        d = self.places(dst, n)
        vals = [self.readplace(x) for x in s]
        self.nhash = getattr(self, 'nhash', 0) + n
        for k in range(n):
            self.writeplace(d[k], self.node(vals[2 * k], vals[2 * k + 1]))
        return VOID

    # ---- long runs of blocks, segment by segment
    def termof(self, x):
        if isinstance(x, LazyV):
            return x.name
        return self.chunkval(self.alloc('t', x))

    def chunkat(self, name):
        return LazyV('R:' + self.chunk_rk, name) if name != '0' else self.zero('R:' + self.chunk_rk)

    def hash_run(self, dst, src, n):
        s, d = self.places(src, 1)[0], self.places(dst, 1)[0]
        if s[0] != 'c' or d[0] != 'c':
            raise GiveUp('%d blocks of bytes' % n)
        self.nhash = getattr(self, 'nhash', 0) + n
        segs = self.slice(s[1], 2 * n)
        out = []

        def emit(g):
            if g[0] == 'e' and self.level(self.termof(g[1])):
                k, i = self.level(self.termof(g[1]))
                g = ('op', 'N%d' % k, i, 1)
            if g[0] == 'op' and out and out[-1][0] == 'op' and out[-1][1] == g[1] and out[-1][2] + out[-1][3] == g[2]:
                out[-1] = ('op', g[1], out[-1][2], out[-1][3] + g[3])
            else:
                out.append(g)

        def at(g, i):
            if g[0] == 'op':
                return '%s[%d]' % (g[1], g[2] + i)
            return self.termof(g[1])
        left = None     # the first chunk of a pair that is in another segment
        for g in segs:
            if g[0] not in ('e', 'op', 'fill') or not isinstance(self.seglen(g), int) or g[0] == 'op' and not isinstance(g[2], int):
                raise GiveUp('blocks of %r' % (g,))
            l, i = self.seglen(g), 0
            if any(x is UNINIT for x in ([g[1]] if g[0] != 'op' else [])):
                self.oblige('uninit', False, 'indeterminate bytes of %s hashed' % (s[1],))
                raise Prune('uninit')
            if left is not None:
                emit(('e', self.chunkat(self.node(left, at(g, 0)))))
                left, i = None, 1
            pairs = (l - i) // 2
            if pairs:
                if g[0] == 'fill':
                    t = at(g, 0)
                    emit(('fill', self.chunkat(self.node(t, t)), pairs))
                elif g[0] == 'op':
                    o = g[2] + i
                    m = re.match(r'^N(\d+)$', g[1])
                    emit(('op', 'N%d' % (int(m.group(1)) + 1) if m and not o % 2 else 'P(%s,%d)' % (g[1], o % 2), o // 2, pairs))
            if (l - i) % 2:
                left = at(g, l - 1)
        # store them
        o, path, j = self.split(d[1])
        v = self.get(Ptr(o, path))
        self.check_index(v, j, n, Ptr(o, path), 'write')
        if isinstance(v, VecV) and not v.cap:
            a, b = self.cutsegs(v, 0, j), self.cutsegs(v, j + n, self.vlen(v) - j - n)
            if a is not None and b is not None:
                self.put(Ptr(o, path), type(v)(v.el, tuple(a) + tuple(out) + tuple(b)))
                return VOID
        raise GiveUp('blocks stored to %s' % (d[1],))

    # ---- tables of chunks are computed by interpreting their initializers
    def globptr(self, g):
        k = 'glob:' + g
        gl = self.P.globals.get(g)
        if gl is None or k in self.st.heap or gl.get('val') is not None or not gl.get('init'):
            return super().globptr(g)
        rk = self.reckey(gl['t'])
        if not (rk and self.recqn(rk) == 'std::array' and self.reckey(self.rec(rk)['targs'][0]) == self.chunk_rk):
            return super().globptr(g)
        if g not in self.tables:
            save = (self.trail, self.pos, self.st, self.frames)
            no = len(self.obl)
            def fill():
                self.frames.append(Frame('init', dict(qn=gl['qn'], file=gl['file'], line=gl['line'], repo=1), None, None))
                v = self.rv(gl['init'])
                self.frames.pop()
                return self.chunks_of(self.alloc('tab', v), rk)
            sub = self.explore(State, fill)
            self.trail, self.pos, self.st, self.frames = save
            ok = [o for o in sub if o.kind == 'ret' and o.st.imprecise is None]
            self.tables[g] = ok[0].val if len(ok) == 1 and len(sub) == 1 else None
            if self.tables[g] is None:
                self.tabwhy = [o.why for o in sub if o.why]
            self.tabname.add(g)
        names = self.tables[g]
        if names is None:
            raise GiveUp('table %s' % gl['qn'])
        ck = 'R:' + self.chunk_rk
        n = len(names)
        self.st.heap[k] = StructV(rk, {'_M_elems': ArrV(n, ck, 0, {i: LazyV(ck, t) if not isinstance(t, tuple) and t != '0' else self.zero(ck) for i, t in enumerate(names)})})
        return Ptr(k)

    def chunks_of(self, p, rk):
        n = self.rec(rk)['targs'][1]
        return [self.chunkval(p + '_M_elems' + i) for i in range(n)]

    # ---- reference
    def zero(self, k_or_tk):
        if isinstance(k_or_tk, str):
            return super().zero(k_or_tk)
        return self.zeroterm(k_or_tk)

    def zeroterm(self, k):
        t = '0'
        for _ in range(k):
            t = self.node(t, t)
        return t

    def rootterm(self, leaves, depth):
        lv = list(leaves)
        for h in range(depth):
            z = self.zeroterm(h)
            if len(lv) % 2:
                lv.append(z)
            lv = [self.node(lv[i], lv[i + 1]) for i in range(0, len(lv), 2)]
        assert len(lv) == 1
        return lv[0]


def ceil_log2(n):
    return max(0, (n - 1).bit_length())
