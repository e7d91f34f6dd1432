"""Transfer functions of the machine-code abstract interpreter."""
import re
from . import term as T
from .poly import Lin, L, bounds, entails_ge0, feasible, Infeasible, INF
from .x86 import *
from . import x86 as X

TWO_OP_VEC = {  # mnemonic (without v) -> word function
    'paddd': T.add, 'psubd': T.sub, 'pxor': T.xor, 'xorps': T.xor, 'xorpd': T.xor, 'pand': T.band, 'andps': T.band,
    'andpd': T.band, 'por': T.bor, 'orps': T.bor, 'orpd': T.bor,
    'pandn': lambda a, b: T.band(T.bnot(a), b), 'andnps': lambda a, b: T.band(T.bnot(a), b),
    'andnpd': lambda a, b: T.band(T.bnot(a), b),
}
VMOV_A = {'movdqa', 'movaps', 'movapd', 'movntdq', 'movntps', 'movntdqa'}
VMOV_U = {'movdqu', 'movups', 'movupd', 'lddqu'}
IGNORE = {'nop', 'endbr64', 'vzeroupper', 'lfence', 'mfence', 'sfence', 'pause', 'cld', 'prefetcht0', 'prefetcht1', 'prefetcht2', 'prefetchnta', 'prefetchw', 'fnop'}


def vreg(op):
    m = re.match(r'^([xy])mm(\d+)$', op)
    if not m:
        return None
    return int(m.group(2)), 8 if m.group(1) == 'y' else 4


class Machine(X.Analysis):

    # ---- vector helpers ----
    def vget(self, s, i):
        if s.vec[i] is None:
            s.vec[i] = tuple(T.atom(('initvec', i, j)) for j in range(8))
        return s.vec[i]

    def vsrc(self, s, o, sec, x, op, lanes, align=0, nbytes=None):
        r = vreg(op)
        if r:
            return list(self.vget(s, r[0])[:lanes])
        e, size = self.addr(s, o, sec, x, op)
        n = nbytes or lanes * 4
        w = self.load(s, o, x, e, n, align)
        return w + [T.ZERO] * (lanes - len(w))

    def vput(self, s, i, words, lanes, vex):
        old = self.vget(s, i) if not vex and lanes == 4 else None
        w = list(words[:lanes])
        if lanes == 4:
            w += list(old[4:]) if old else [T.ZERO] * 4
        s.vec[i] = tuple(w)

    # ---- GPR helpers ----
    def rd(self, s, o, sec, x, op, size):
        """value of a GPR/imm/mem operand: V for 64 bits, Term otherwise"""
        if op in REG:
            r, w, sh = REG[op]
            v = s.regs[r]
            if w == 64:
                return v
            lo = halves(v)[0]
            if w == 32:
                return lo
            return T.mask(T.shr(lo, sh), (1 << w) - 1)
        if self.is_mem(op):
            e, sz = self.addr(s, o, sec, x, op)
            sz = sz or size
            w = self.load(s, o, x, e, sz // 8)
            return from_halves(w[0], w[1]) if sz == 64 else w[0]
        if x.rel is not None and x.rel[1] in (10, 11, 1):
            _, typ, sym, add = x.rel
            v = V(lin=self.symaddr(o, sym) + add)
            return v if size == 64 else V(lin=self.symaddr(o, sym) + add)
        k = int(op, 0)
        if size == 64:
            if k >> 63:
                k -= 1 << 64
            return const64(k)
        return T.const(k & ((1 << size) - 1))

    def wr(self, s, o, sec, x, op, val):
        if op in REG:
            r, w, sh = REG[op]
            if w == 64:
                s.regs[r] = val
            elif w == 32:
                if isinstance(val, V):       # address of a symbol moved to a 32-bit register (non-PIC code)
                    s.regs[r] = val
                    return
                c = val.const()
                s.regs[r] = const64(c) if c is not None else from_halves(val, T.ZERO)
            else:
                lo, hi = halves(s.regs[r])
                mk = ((1 << w) - 1) << sh
                nlo = T.xor(T.mask(lo, T.M32 ^ mk), T.mask(T.rotl(val, sh), mk))
                s.regs[r] = from_halves(nlo, hi)
        else:
            e, sz = self.addr(s, o, sec, x, op)
            if isinstance(val, V):
                self.store(s, o, x, e, 8, list(halves(val)))
            else:
                self.store(s, o, x, e, (sz or 32) // 8, [val])

    def size_of(self, x, ops):
        for op in ops:
            if op in REG:
                return REG[op][1]
        for op in ops:
            m = re.match(r'^(\w+) PTR', op)
            if m:
                return SIZES[m.group(1)]
        raise Unsupported('operand size of %s' % x.text)

    def lowbits(self, s, v, k):
        """v mod 2**k of a symbolic linear value, introducing v = 2**k*q + r"""
        q = ('q', v.key(), k)
        r = v - Lin.var(q) * (1 << k)
        if not any(e == r for e in s.ineq):
            s.ineq += [r, L((1 << k) - 1) - r]
            if self.ge0(s, v):
                s.ineq.append(Lin.var(q))
        return r, Lin.var(q)

    def clin(self, v):
        """V -> Lin if linear (incl. constants)"""
        if isinstance(v, V):
            return v.lin
        return None

    def arith(self, mn, a, b, size, s, o, x):
        """a op b -> value"""
        if size == 64:
            if a.lin is not None and b.lin is not None:
                ca, cb = sconst(a), sconst(b)
                if mn in ('add', 'sub'):
                    r = a.lin + b.lin if mn == 'add' else a.lin - b.lin
                    if r.is_const():
                        r = L(wrap64(r.k))
                    return V(lin=r)
                if ca is not None and cb is not None:
                    r = {'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[mn]
                    return const64(wrap64(r))
                if mn == 'xor' and a == b:
                    return const64(0)
                if mn == 'and' and (ca is not None or cb is not None):
                    v, c = (b.lin, ca) if ca is not None else (a.lin, cb)
                    if c >= 0 and (c & (c + 1)) == 0 and not any(is_ptr(w) for w in v.c):
                        return V(lin=self.lowbits(s, v, c.bit_length())[0])
                    n = -c
                    if c < 0 and n & (n - 1) == 0:
                        k = n.bit_length() - 1
                        ptrs = [w for w in v.c if is_ptr(w)]
                        if not ptrs:
                            return V(lin=self.lowbits(s, v, k)[1] * n)
                        return V(lin=self.realign(s, v, n))
                if mn in ('and', 'or') and a == b:
                    return a
            if mn in ('and', 'or', 'xor'):
                f = {'and': T.band, 'or': T.bor, 'xor': T.xor}[mn]
                p, q = halves(a), halves(b)
                return from_halves(f(p[0], q[0]), f(p[1], q[1]))
            if b.lin is not None and b.lin.is_const() and b.lin.k == 0:
                return a
            if a.lin is not None and a.lin.is_const() and a.lin.k == 0 and mn == 'add':
                return b
            p, q = halves(a), halves(b)
            if mn == 'add' and not T._and(T.anf(p[0]), T.anf(q[0])):
                return from_halves(T.add(p[0], q[0]), T.add(p[1], q[1]))
            return self.top64(s)
        f = {'add': T.add, 'sub': T.sub, 'and': T.band, 'or': T.bor, 'xor': T.xor}[mn]
        r = f(a, b)
        return r if size == 32 else T.mask(r, (1 << size) - 1)

    def top64(self, s):
        s.nsym += 1
        return V(q=(T.atom(('top', s.nsym, 0)), T.atom(('top', s.nsym, 1))))

    def realign(self, s, v, n):
        ptr, rest = self.region(s, v)
        if ptr is None or not (isinstance(ptr, tuple) and ptr[0] in ('stk', 'al')) or not rest.is_const():
            raise Unsupported('masking of a pointer')
        al = s.align.get(ptr, (1, 0))
        if al[0] % n == 0:
            return v - (al[1] + rest.k) % n
        key = ('al', len([a for a in s.align if a[0] == 'al']) + 1, ptr, rest.k, n)
        s.align[key] = (n, 0)
        # v - (n-1) <= key <= v ; more precisely the known residues narrow it
        s.ineq += [v - Lin.var(key), Lin.var(key) - v + (n - 1)]
        s.lowlim[ptr] = rest.k
        return Lin.var(key)

    # ---- conditions ----
    def split(self, s, cc):
        """list of (state, outcome) for condition code cc"""
        f = s.flags
        if cc in ('p', 'np', 'o', 'no'):
            raise Unsupported('parity/overflow condition')
        if f[0] == 'init':
            raise Unsupported('branch on undefined flags')
        if f[0] == 'bit':     # carry = bit
            if cc not in ('b', 'ae'):
                raise Unsupported('condition %s after bt' % cc)
            t = T.mask(T.shr(f[1], f[2]), 1)
            return [(st, z if cc == 'ae' else not z) for st, z in self.split_zero(s, t)]
        kind, size = f[0], f[-1]
        if kind == 'sub':
            a, b = f[1], f[2]
            if size == 64:
                if a.lin is not None and b.lin is not None:
                    return self.split_lin(s, cc, a.lin, b.lin)
                if cc in ('e', 'ne'):
                    p, q = halves(a), halves(b)
                    out = []
                    for st, z in self.split_zero(s, T.xor(p[0], q[0])):
                        if not z:
                            out.append((st, cc == 'ne'))
                        else:
                            for st2, z2 in self.split_zero(st, T.xor(p[1], q[1])):
                                out.append((st2, z2 == (cc == 'e')))
                    return out
                return self.both(s)
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                sa, sb = sx(ca, size), sx(cb, size)
                return [(s, {'e': ca == cb, 'ne': ca != cb, 'b': ca < cb, 'ae': ca >= cb, 'be': ca <= cb, 'a': ca > cb,
                             'l': sa < sb, 'ge': sa >= sb, 'le': sa <= sb, 'g': sa > sb, 's': sx((ca - cb) & ((1 << size) - 1), size) < 0,
                             'ns': sx((ca - cb) & ((1 << size) - 1), size) >= 0}[cc])]
            if cc in ('e', 'ne'):
                at = self.range_atom(s, a)
                if at is not None and cb is not None:
                    return self.split_range(s, at, cc, cb)
                return [(st, z == (cc == 'e')) for st, z in self.split_zero(s, T.xor(a, b))]
            at = self.range_atom(s, a)
            if at is not None and cb is not None and size == 32 and cc in ('b', 'ae', 'be', 'a'):
                return self.split_range(s, at, cc, cb)
            at = self.range_atom(s, b)
            if at is not None and ca is not None and size == 32 and cc in ('b', 'ae', 'be', 'a'):
                return self.split_range(s, at, {'b': 'a', 'a': 'b', 'ae': 'be', 'be': 'ae'}[cc], ca)
            return self.both(s)
        # result-based
        v = f[1]
        if kind in ('logic', 'res'):
            if kind == 'logic':
                cc = {'be': 'e', 'a': 'ne', 'l': 's', 'ge': 'ns'}.get(cc, cc)
                if cc == 'b':
                    return [(s, False)]
                if cc == 'ae':
                    return [(s, True)]
            elif cc in ('b', 'ae', 'be', 'a', 'l', 'ge', 'le', 'g'):
                raise Unsupported('condition %s after an addition' % cc)
            if size == 64:
                if v.lin is not None:
                    return self.split_lin(s, {'s': 'l', 'ns': 'ge'}.get(cc, cc), v.lin, L(0))
                if cc in ('e', 'ne'):
                    p = halves(v)
                    out = []
                    for st, z in self.split_zero(s, p[0]):
                        if not z:
                            out.append((st, cc == 'ne'))
                        else:
                            out += [(st2, z2 == (cc == 'e')) for st2, z2 in self.split_zero(st, p[1])]
                    return out
                return self.both(s)
            c = v.const()
            if c is not None:
                sg = sx(c, size)
                return [(s, {'e': c == 0, 'ne': c != 0, 's': sg < 0, 'ns': sg >= 0, 'le': sg <= 0, 'g': sg > 0}[cc])]
            if cc in ('e', 'ne'):
                at = self.range_atom(s, v)
                if at is not None:
                    return self.split_range(s, at, cc, 0)
                return [(st, z == (cc == 'e')) for st, z in self.split_zero(s, v)]
            if cc in ('s', 'ns'):
                t = T.mask(T.shr(v, size - 1), 1)
                return [(st, z == (cc == 'ns')) for st, z in self.split_zero(s, t)]
            return self.both(s)
        raise Unsupported('flags %s' % (kind,))

    def both(self, s):
        if ('unknown',) not in s.path:
            s.path = s.path + (('unknown',),)
            self.stats['unknown'] = self.stats.get('unknown', 0) + 1
        return [(s.copy(), True), (s, False)]

    def range_atom(self, s, t):
        at = X.single_atom(t)
        if at is not None and at in s.ranges:
            return at, 0
        if t.l is not None and len(t.l[1]) == 1:
            (v, w), = t.l[1].items()
            at = T.ATOMS.info[v]
            if w == 1 and at in s.ranges:
                return at, t.l[0]
        if t.a is not None and T.E0 in t.a and t.const() is None:
            pass
        return None

    def split_range(self, s, at, cc, c):
        """split on  (atom + off mod 2**32) cc c"""
        atom, off = at
        lo, hi = s.ranges[atom]
        yes = {'e': [(c, c)], 'b': [(0, c - 1)], 'be': [(0, c)], 'ae': [(c, T.M32)], 'a': [(c + 1, T.M32)],
               'ne': [(0, c - 1), (c + 1, T.M32)]}[cc]
        no = {'e': [(0, c - 1), (c + 1, T.M32)], 'b': [(c, T.M32)], 'be': [(c + 1, T.M32)], 'ae': [(0, c - 1)],
              'a': [(0, c)], 'ne': [(c, c)]}[cc]
        out = []
        for ivs, val in ((yes, True), (no, False)):
            for a, b in ivs:
                if a > b:
                    continue
                # atom + off in [a,b] mod 2^32  -> atom in [a-off, b-off]
                a2, b2 = (a - off) & T.M32, (b - off) & T.M32
                pieces = [(a2, b2)] if a2 <= b2 else [(a2, T.M32), (0, b2)]
                for p, q in pieces:
                    l2, h2 = max(p, lo), min(q, hi)
                    if l2 <= h2:
                        st = s.copy()
                        st.ranges[atom] = (l2, h2)
                        out.append((st, val))
        return out

    def substbits(self, s, t):
        """apply known bit facts to an ANF"""
        if not s.bits or t.a is None:
            return t
        r = {}
        for m, k in t.a.items():
            # expand per bit only where some atom of the monomial has facts
            known = {}
            keep = k
            for f in m:
                aid, rot = f // 32, f % 32
                for bit, val in s.bits.get(aid, {}).items():
                    pos = (bit + rot) % 32
                    if k >> pos & 1:
                        known.setdefault(pos, []).append((f, val))
            for pos, fs in known.items():
                keep &= ~(1 << pos)
                if any(v == 0 for _, v in fs):
                    continue
                m2 = m - {f for f, _ in fs}
                v = r.get(m2, 0) ^ (1 << pos)
                r[m2] = v
            if keep:
                r[m] = r.get(m, 0) ^ keep
        return T._from_anf({m: k for m, k in r.items() if k})

    def split_zero(self, s, t):
        """list of (state, t == 0), splitting on individual bits of CPU-feature atoms"""
        t = self.substbits(s, t)
        c = t.const()
        if c is not None:
            return [(s, c == 0)]
        if t.a is None:
            return self.both(s)
        if t.a.get(T.E0):
            # some bit position is constantly 1 if no other monomial covers it
            others = 0
            for m, k in t.a.items():
                if m:
                    others |= k
            if t.a[T.E0] & ~others:
                return [(s, False)]
        for m, k in sorted(t.a.items(), key=lambda z: (len(z[0]), str(sorted(z[0])))):
            if not m:
                continue
            if bin(k).count('1') > 8:
                continue
            f = min(m)
            aid, rot = f // 32, f % 32
            if T.ATOMS.info[aid][0] != 'cpuid':
                continue
            pos = k.bit_length() - 1
            bit = (pos - rot) % 32
            out = []
            for val in (0, 1):
                st = s.copy()
                st.bits = {a: dict(b) for a, b in s.bits.items()}
                st.bits.setdefault(aid, {})[bit] = val
                out += self.split_zero(st, t)
            return out
        return self.both(s)

    def split_lin(self, s, cc, a, b):
        d = a - b
        if a.is_const() and b.is_const():
            ua, ub = a.k & M64, b.k & M64
            return [(s, {'e': ua == ub, 'ne': ua != ub, 'b': ua < ub, 'ae': ua >= ub, 'be': ua <= ub, 'a': ua > ub,
                         'l': a.k < b.k, 'ge': a.k >= b.k, 'le': a.k <= b.k, 'g': a.k > b.k, 's': a.k < b.k, 'ns': a.k >= b.k}[cc])]
        for e in (a, b):
            for v in e.c:
                if isinstance(v, tuple) and v[0] in ('data', 'loop', 'init') or (isinstance(v, tuple) and v[0] == 'fn'):
                    if cc in ('e', 'ne') and d.is_const():
                        return [(s, (d.k == 0) == (cc == 'e'))]
                    return self.both(s)
        # (constraints, outcome) cases; a constraint is expr >= 0
        def ptrfree(e):
            return not any(is_ptr(v) for v in e.c)
        cases = []
        if cc in ('e', 'ne'):
            cases = [([d, -d], cc == 'e'), ([d - 1], cc == 'ne'), ([-d - 1], cc == 'ne')]
        else:
            base = {'b': 'l', 'ae': 'l', 'be': 'le', 'a': 'le', 'l': 'l', 'ge': 'l', 'le': 'le', 'g': 'le', 's': 'l', 'ns': 'l'}[cc]
            pos = cc in ('b', 'be', 'l', 'le', 's')
            lt = [-d - 1] if base == 'l' else [-d]
            ge = [d] if base == 'l' else [d - 1]
            if cc in ('b', 'ae', 'be', 'a'):
                na, nb = ptrfree(a) and not self.ge0(s, a), ptrfree(b) and not self.ge0(s, b)
                pa = [a] if na else []
                pb = [b] if nb else []
                cases = [(pa + pb + lt, pos), (pa + pb + ge, not pos)]
                if na:
                    cases += [([-a - 1] + pb, not pos)]
                if nb:
                    cases += [([-b - 1] + pa, pos)]
                if na and nb:
                    cases += [([-a - 1, -b - 1] + lt, pos), ([-a - 1, -b - 1] + ge, not pos)]
            else:
                cases = [(lt, pos), (ge, not pos)]
        out = []
        for cons, val in cases:
            st = s.copy()
            st.ineq = s.ineq + [c for c in cons if not c.is_const()]
            if any(c.is_const() and c.k < 0 for c in cons):
                continue
            if feasible(st.ineq, st.eq):
                out.append((st, val))
        return out

    def branch(self, s, cc, o, x, work, on_true, on_false):
        """fork on cc; on_*(state) prepares the state; pushes all but one; returns the state to continue or None"""
        self.stats['branches'] += 1
        res = self.split(s, cc)
        if not res:
            return None
        outcomes = {v for _, v in res}
        for st, v in res:
            if len(res) > 1:
                st.path = st.path + (('br', x.addr, v),)
            (on_true if v else on_false)(st)
        for st, v in res[1:]:
            work.append(st)
        return res[0][0]

    # ---- calls ----
    def call(self, s, o, sec, x, work):
        self.stats['calls'] += 1
        name = None
        tgt = None
        if x.rel is not None:
            _, typ, sym, add = x.rel
            r = self.prog.resolve(o, sym)
            name = sym[0]
            if r is not None:
                ob, sc, off = r
                if sym[2] == 3:
                    off += add + 4
                    name = ob.labels.get((sc, off), name)
                tgt = (ob, sc, off)
                for n, g in self.prog.sym.items():
                    if g == tgt:
                        name = n
        elif x.ops[0] in REG or self.is_mem(x.ops[0]):
            v = self.rd(s, o, sec, x, x.ops[0], 64)
            if v.lin is not None and len(v.lin.c) == 1:
                (w, c), = v.lin.c.items()
                if isinstance(w, tuple) and w[0] == 'fn':
                    name = w[1]
                    tgt = self.prog.sym.get(name)
            if tgt is None and self.mode == 'dispatch':
                self.exits.append(('indirect', v, s, (o, x)))
                raise Stop()
        else:
            m = re.match(r'^(?:0x)?([0-9a-f]+)$', x.ops[0])
            tgt = (o, sec, int(m.group(1), 16))
            for n, g in self.prog.sym.items():
                if g == tgt:
                    name = n
        if self.mode == 'dispatch' and name in self.prog.contract_names:
            self.exits.append(('target', name, s, (o, x)))
            raise Stop()
        if tgt is None:
            raise Unsupported('call to unknown target %s at %s' % (name or x.text, o.where(x)))
        rsp = s.regs['rsp'].lin
        al = self.stack_align(s)
        if name in self.prog.contract_names and not (tgt == self.entry and False):
            self.callees.add(name)
            self.stats['aligned_checks'] += 1
            if al != 0:
                self.bad('C04', (o, x), 'calls %s with the stack pointer %s' % (name, 'at %d modulo 16' % al if al is not None else 'not known to be 16-byte aligned'))
            self.apply_contract(s, o, x, name)
            return (o, sec, x.next)
        # local helper: analysed inline, in the calling context
        if len(s.calls) > 12:
            raise Unsupported('recursion at %s' % o.where(x))
        s.regs['rsp'] = V(lin=rsp - 8)
        ra = ('retto', id(o), sec, x.next, len(s.calls))
        ptr, rest = self.region(s, rsp - 8)
        if ptr is None or not rest.is_const():
            raise Unsupported('call with a lost stack pointer at %s' % o.where(x))
        s.mem.setdefault(ptr, {})[rest.k] = T.atom(ra + (0,))
        s.mem[ptr][rest.k + 4] = T.atom(ra + (1,))
        s.calls.append((o, sec, x.next))
        return tgt

    def stack_align(self, s):
        rsp = s.regs['rsp'].lin
        if rsp is None:
            return None
        ptr, rest = self.region(s, rsp)
        if ptr is None or ptr in ('IN', 'OUT') or not rest.is_const():
            return None
        m, r = s.align.get(ptr, (1, 0))
        if m % 16:
            return None
        return (r + rest.k) % 16

    def apply_contract(self, s, o, x, name):
        c = self.prog.summary(name)
        self.flush(s, (o, x))
        a, b = s.regs['rdi'], s.regs['rsi']
        cnt = s.regs['rdx'].lin if c['blocks'] == 'N' else L(c['blocks'])
        if c['blocks'] is None:
            raise Unsupported('callee %s has no usable contract' % name)
        if cnt is None:
            q = s.regs['rdx'].q
            if not q or q[1] != T.ZERO:
                raise Unsupported('block count of the call to %s at %s' % (name, o.where(x)))
            self.bad('C01', (o, x), 'block count passed to %s is cut to its low bits' % name)
            raise Stop()
        xx = (o, x)
        for v, base, w in ((a, 'OUT', 32), (b, 'IN', 64)):
            ok = v.lin is not None and base in v.lin.c
            if not ok:
                for p in ('C01', 'C02'):
                    self.bad(p, xx, '%s pointer passed to %s is not a pointer into the %s' % (pname(base), name, pname(base)))
                raise Stop()
        ro, ri = a.lin - Lin.var('OUT'), b.lin - Lin.var('IN')
        if self.ge0(s, -cnt):
            if not self.eq0(s, cnt):
                self.bad('C02', xx, 'negative block count passed to %s' % name)
                raise Stop()
        else:
            if not self.eq0(s, ro - s.done * 32):
                for p in ('C01', 'C02'):
                    self.bad(p, xx, '%s is told to write at output byte %s instead of the next block %s' % (name, ro, s.done))
                raise Stop()
            if not self.eq0(s, ri - s.done * 64):
                self.bad('C01', xx, '%s is told to hash from input byte %s for block %s' % (name, ri, s.done))
                raise Stop()
            if not self.ge0(s, cnt):
                for p in ('C01', 'C02'):
                    self.bad(p, xx, 'block count %s passed to %s may be negative' % (cnt, name))
            if not self.ge0(s, Lin.var('N') - s.done - cnt):
                for p in ('C01', 'C02'):
                    self.bad(p, xx, '%s is told to hash %s blocks when only %s remain' % (name, cnt, Lin.var('N') - s.done))
                raise Stop()
        s.done = s.done + cnt
        s.ineq = list(s.ineq)
        # memory below the stack pointer and caller-saved registers are clobbered
        rsp = s.regs['rsp'].lin
        for ptr, m in s.mem.items():
            if isinstance(ptr, tuple) and ptr[0] in ('stk', 'al'):
                d = rsp - Lin.var(ptr)
                if d.is_const():
                    for k in [k for k in m if k < d.k]:
                        del m[k]
                        m[k] = T.atom(('clob', 'stack', k, x.addr))
        for r in R64:
            if r != 'rsp' and r not in c['preserved']:
                s.regs[r] = V(q=(T.atom(('clob', r, 0, x.addr)), T.atom(('clob', r, 1, x.addr))))
        for i in range(16):
            if i not in c['vpreserved']:
                s.vec[i] = tuple(T.atom(('clob', 'xmm%d' % i, j, x.addr)) for j in range(8))
        s.flags = ('init',)

    # ---- function exit ----
    def ret(self, s, o, sec, x):
        rsp = s.regs['rsp'].lin
        xx = (o, x)
        if rsp is None:
            self.bad('C04', xx, 'returns with an unknown stack pointer')
            raise Stop()
        ptr, rest = self.region(s, rsp)
        if s.calls:
            exp = s.calls[-1]
            if ptr is None or not rest.is_const():
                raise Unsupported('return with a lost stack pointer at %s' % o.where(x))
            at = X.single_atom(s.mem.get(ptr, {}).get(rest.k, T.ZERO))
            if at is None or at[:1] != ('retto',) or at[1:4] != (id(exp[0]), exp[1], exp[2]):
                self.bad('C04', xx, 'returns to an address that is not its return address')
                raise Stop()
            s.calls.pop()
            s.regs['rsp'] = V(lin=rsp + 8)
            return exp
        if ptr != ('stk', 0) or rest != L(0):
            # equality may follow from facts
            if not self.eq0(s, rsp - Lin.var(('stk', 0))):
                self.bad('C04', xx, 'returns with the stack pointer off by %s' % (rsp - Lin.var(('stk', 0))))
                raise Stop()
        m = s.mem.get(('stk', 0), {})
        if X.single_atom(m.get(0, T.ZERO)) != ('retaddr', 0):
            self.bad('C04', xx, 'return address overwritten')
            raise Stop()
        self.stats['exits'] += 1
        for r in CALLEE_SAVED:
            if s.regs[r] != V(lin=Lin.var(('init', r))):
                self.bad('C04', xx, 'returns with %s changed (now %s)' % (r, short(s.regs[r])))
        pres = {r for r in R64 if s.regs[r] == self.entryval(r)}
        vp = {i for i in range(16) if s.vec[i] is None or all(X.single_atom(t) == ('initvec', i, j) for j, t in enumerate(s.vec[i]))}
        if self.mode == 'hash':
            self.flush(s, xx)
            self.exits.append((s, pres, vp, o.where(x), xx))
        else:
            self.exits.append(('ret', None, s, (o, x)))
        raise Stop()

    def entryval(self, r):
        v = {'rdi': 'OUT', 'rsi': 'IN', 'rdx': 'N', 'rsp': ('stk', 0)}.get(r, ('init', r))
        return V(lin=Lin.var(v))

    # ---- one instruction ----
    def step(self, s, o, sec, x, nxt, work):
        try:
            return self.step1(s, o, sec, x, nxt, work)
        except X.NeedEnum as e:
            for v in range(e.lo, e.hi + 1):
                st = s.copy()
                st.ranges[e.at] = (v, v)
                self.subst_atom(st, e.at, v)
                st.ip = (o, sec, x.addr)
                st.path = st.path + (('enum', x.addr, v),)
                work.append(st)
            return None

    def subst_atom(self, s, at, val):
        def f(t):
            return subst_const(t, T.ATOMS.get(at), val)
        for r, v in s.regs.items():
            if v.q is not None:
                s.regs[r] = from_halves(f(v.q[0]), f(v.q[1]))
        for p, m in s.mem.items():
            for k in m:
                m[k] = f(m[k])

    def step1(self, s, o, sec, x, nxt, work):
        mn, ops = x.mn, x.ops
        if mn in IGNORE or mn.startswith('nop') or mn.startswith('prefetch'):
            return nxt
        if mn == 'xchg' and ops[0] == ops[1]:
            return nxt
        h = getattr(self, 'i_' + mn, None)
        if h:
            return h(s, o, sec, x, nxt, work)
        if mn.startswith('j') and mn[1:] in CCS:
            cc = CCS[mn[1:]]
            tgt = self.jtarget(s, o, sec, x)

            def t(st):
                st.ip = tgt

            def f(st):
                st.ip = nxt
            st = self.branch(s, cc, o, x, work, t, f)
            if st is None:
                return None
            if st is not s:
                work.append(st)
                return None
            return st.ip
        if mn.startswith('set') and mn[3:] in CCS:
            return self.fork_write(s, o, sec, x, nxt, work, CCS[mn[3:]], lambda st, v: self.wr(st, o, sec, x, ops[0], T.const(int(v))))
        if mn.startswith('cmov') and mn[4:] in CCS:
            size = REG[ops[0]][1]
            val = self.rd(s, o, sec, x, ops[1], size)

            def w(st, v):
                if v:
                    self.wr(st, o, sec, x, ops[0], val)
                elif size == 32:
                    self.wr(st, o, sec, x, ops[0], self.rd(st, o, sec, x, ops[0], 32))
            return self.fork_write(s, o, sec, x, nxt, work, CCS[mn[4:]], w)
        vr = [vreg(p) for p in ops]
        if any(vr) or (mn.startswith('v')):
            return self.vector(s, o, sec, x, nxt)
        raise Unsupported('instruction %s at %s' % (x.text, o.where(x)))

    def fork_write(self, s, o, sec, x, nxt, work, cc, w):
        def mk(v):
            def g(st):
                w(st, v)
                st.ip = nxt
            return g
        st = self.branch(s, cc, o, x, work, mk(True), mk(False))
        if st is None:
            return None
        if st is not s:
            work.append(st)
            return None
        return nxt

    def jtarget(self, s, o, sec, x):
        if x.rel is not None:
            _, typ, sym, add = x.rel
            r = self.prog.resolve(o, sym)
            if r is None:
                raise Unsupported('jump to unknown %s' % sym[0])
            ob, sc, off = r
            if sym[2] == 3:
                off += add + 4
            return (ob, sc, off)
        m = re.match(r'^(?:0x)?([0-9a-f]+)$', x.ops[0])
        if not m:
            raise Unsupported('indirect jump at %s' % o.where(x))
        return (o, sec, int(m.group(1), 16))

    def i_jmp(self, s, o, sec, x, nxt, work):
        if x.ops[0] in REG or self.is_mem(x.ops[0]):
            if self.mode == 'dispatch':
                v = self.rd(s, o, sec, x, x.ops[0], 64)
                if v.lin is not None and len(v.lin.c) == 1 and v.lin.k == 0:
                    (w, c), = v.lin.c.items()
                    if isinstance(w, tuple) and w[0] == 'fn' and w[1] in self.prog.contract_names:
                        self.exits.append(('target', w[1], s, (o, x)))
                        raise Stop()
                self.exits.append(('indirect', v, s, (o, x)))
                raise Stop()
            raise Unsupported('indirect jump at %s' % o.where(x))
        tgt = self.jtarget(s, o, sec, x)
        for n, g in self.prog.sym.items():
            if g == tgt and n in self.prog.contract_names and tgt != self.entry and not s.calls:
                # tail call
                self.callees.add(n)
                if self.mode == 'dispatch':
                    self.exits.append(('target', n, s, (o, x)))
                    raise Stop()
                if self.stack_align(s) != 8:
                    self.bad('C04', (o, x), 'tail-calls %s with a misaligned stack' % n)
                self.apply_contract(s, o, x, n)
                return self.ret(s, o, sec, x)
        return tgt

    def i_ret(self, s, o, sec, x, nxt, work):
        if x.ops:
            raise Unsupported('ret imm')
        return self.ret(s, o, sec, x)

    def i_call(self, s, o, sec, x, nxt, work):
        return self.call(s, o, sec, x, work)

    def i_push(self, s, o, sec, x, nxt, work):
        v = self.rd(s, o, sec, x, x.ops[0], 64)
        rsp = self.lin(s, s.regs['rsp'], o, x) - 8
        s.regs['rsp'] = V(lin=rsp)
        self.store(s, o, x, rsp, 8, list(halves(v)))
        return nxt

    def i_pop(self, s, o, sec, x, nxt, work):
        rsp = self.lin(s, s.regs['rsp'], o, x)
        w = self.load(s, o, x, rsp, 8)
        s.regs['rsp'] = V(lin=rsp + 8)
        self.wr(s, o, sec, x, x.ops[0], from_halves(w[0], w[1]))
        return nxt

    def i_leave(self, s, o, sec, x, nxt, work):
        s.regs['rsp'] = s.regs['rbp']
        rsp = self.lin(s, s.regs['rsp'], o, x)
        w = self.load(s, o, x, rsp, 8)
        s.regs['rsp'] = V(lin=rsp + 8)
        s.regs['rbp'] = from_halves(w[0], w[1])
        return nxt

    def i_mov(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        self.wr(s, o, sec, x, x.ops[0], self.rd(s, o, sec, x, x.ops[1], size))
        return nxt

    i_movabs = i_mov

    def i_movzx(self, s, o, sec, x, nxt, work):
        v = self.rd(s, o, sec, x, x.ops[1], self.size_of(x, x.ops[1:]))
        if REG[x.ops[0]][1] == 64:
            v = from_halves(v, T.ZERO)
        self.wr(s, o, sec, x, x.ops[0], v)
        return nxt

    def i_movsxd(self, s, o, sec, x, nxt, work):
        v = self.rd(s, o, sec, x, x.ops[1], self.size_of(x, x.ops[1:]))
        ssz = self.size_of(x, x.ops[1:])
        c = v.const() if not isinstance(v, V) else None
        if c is not None:
            k = sx(c, ssz)
            self.wr(s, o, sec, x, x.ops[0], const64(k) if REG[x.ops[0]][1] == 64 else T.const(k))
        elif REG[x.ops[0]][1] == 64 and ssz == 32:
            at = X.single_atom(v)
            if at is not None and at in s.ranges and s.ranges[at][1] < 1 << 31:
                self.wr(s, o, sec, x, x.ops[0], from_halves(v, T.ZERO))
            else:
                sg = T.mask(T.shr(v, 31), 1)
                self.wr(s, o, sec, x, x.ops[0], from_halves(v, T.neg(sg)))
        else:
            raise Unsupported('sign extension at %s' % o.where(x))
        return nxt

    i_movsx = i_movsxd

    def i_cdqe(self, s, o, sec, x, nxt, work):
        lo = halves(s.regs['rax'])[0]
        c = lo.const()
        s.regs['rax'] = const64(sx(c, 32)) if c is not None else from_halves(lo, T.neg(T.mask(T.shr(lo, 31), 1)))
        return nxt

    def i_lea(self, s, o, sec, x, nxt, work):
        op = x.ops[1]
        if REG[x.ops[0]][1] == 64:
            e, _ = self.addr(s, o, sec, x, op)
            if isinstance(e, tuple):
                raise Unsupported('lea of a GOT slot')
            if e.is_const():
                e = L(wrap64(e.k))
            self.wr(s, o, sec, x, x.ops[0], V(lin=e))
            return nxt
        body = re.search(r'\[(.*)\]', op).group(1)
        acc = T.ZERO
        for sg, t in re.findall(r'([+-]?)([^+-]+)', body):
            mm = re.match(r'^(\w+)\*(\d)$', t)
            if mm:
                acc = T.add(acc, T.mul(halves(s.regs[REG[mm.group(1)][0]])[0], int(mm.group(2))))
            elif t in REG:
                acc = T.add(acc, halves(s.regs[REG[t][0]])[0])
            else:
                v = int(t, 0)
                acc = T.add(acc, T.const(-v if sg == '-' else v))
        self.wr(s, o, sec, x, x.ops[0], acc)
        return nxt

    def _arith(self, s, o, sec, x, nxt, work):
        mn, ops = x.mn, x.ops
        size = self.size_of(x, ops)
        a = self.rd(s, o, sec, x, ops[0], size)
        b = self.rd(s, o, sec, x, ops[1], size)
        if mn in ('sub', 'xor') and ops[0] == ops[1]:
            r = const64(0) if size == 64 else T.ZERO
        else:
            self.noclob(a, o, x)
            self.noclob(b, o, x)
            if size == 32 and mn == 'and' and ops[0] in REG and not isinstance(b, V):
                c = b.const()
                v = s.regs[REG[ops[0]][0]]
                if c is not None and (c & (c + 1)) == 0 and c < 1 << 31 and v.lin is not None and not v.lin.is_const():
                    r64, _ = self.lowbits(s, v.lin, c.bit_length())
                    s.regs[REG[ops[0]][0]] = V(lin=r64)
                    s.flags = ('logic', V(lin=r64), 64)
                    return nxt
            r = self.arith(mn, a, b, size, s, o, x)
        self.wr(s, o, sec, x, ops[0], r)
        if mn == 'sub':
            s.flags = ('sub', a, b, size)
        elif mn == 'add':
            s.flags = ('res', r, size)
        else:
            s.flags = ('logic', r, size)
        return nxt

    i_add = i_sub = i_and = i_or = i_xor = _arith

    def i_cmp(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        a, b = self.rd(s, o, sec, x, x.ops[0], size), self.rd(s, o, sec, x, x.ops[1], size)
        self.noclob(a, o, x)
        self.noclob(b, o, x)
        s.flags = ('sub', a, b, size)
        return nxt

    def i_test(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        a, b = self.rd(s, o, sec, x, x.ops[0], size), self.rd(s, o, sec, x, x.ops[1], size)
        self.noclob(a, o, x)
        self.noclob(b, o, x)
        if x.ops[0] in REG and size < 64 and not isinstance(b, V):
            c = b.const()
            v = s.regs[REG[x.ops[0]][0]]
            if c is not None and (c & (c + 1)) == 0 and REG[x.ops[0]][2] == 0 and v.lin is not None and not v.lin.is_const():
                s.flags = ('logic', V(lin=self.lowbits(s, v.lin, c.bit_length())[0]), 64)
                return nxt
        s.flags = ('logic', self.arith('and', a, b, size, s, o, x), size)
        return nxt

    def i_inc(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        one = const64(1) if size == 64 else T.const(1)
        v = self.rd(s, o, sec, x, x.ops[0], size)
        self.noclob(v, o, x)
        r = self.arith('add' if x.mn == 'inc' else 'sub', v, one, size, s, o, x)
        self.wr(s, o, sec, x, x.ops[0], r)
        s.flags = ('res', r, size)
        return nxt

    i_dec = i_inc

    def i_neg(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        a = self.rd(s, o, sec, x, x.ops[0], size)
        z = const64(0) if size == 64 else T.ZERO
        self.wr(s, o, sec, x, x.ops[0], self.arith('sub', z, a, size, s, o, x))
        s.flags = ('sub', z, a, size)
        return nxt

    def i_not(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        a = self.rd(s, o, sec, x, x.ops[0], size)
        if size == 64:
            if a.lin is not None:
                r = V(lin=-a.lin - 1)
            else:
                r = from_halves(T.bnot(a.q[0]), T.bnot(a.q[1]))
        else:
            r = T.mask(T.bnot(a), (1 << size) - 1)
        self.wr(s, o, sec, x, x.ops[0], r)
        return nxt

    def i_bswap(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        a = self.rd(s, o, sec, x, x.ops[0], size)
        if size == 32:
            self.wr(s, o, sec, x, x.ops[0], T.bswap(a))
        else:
            lo, hi = halves(a)
            self.wr(s, o, sec, x, x.ops[0], from_halves(T.bswap(hi), T.bswap(lo)))
        return nxt

    def i_movbe(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        a = self.rd(s, o, sec, x, x.ops[1], size)
        if size == 32:
            self.wr(s, o, sec, x, x.ops[0], T.bswap(a))
        else:
            lo, hi = halves(a)
            self.wr(s, o, sec, x, x.ops[0], from_halves(T.bswap(hi), T.bswap(lo)))
        return nxt

    def _shift(self, s, o, sec, x, nxt, work):
        mn, ops = x.mn, x.ops
        size = self.size_of(x, ops[:1])
        if len(ops) == 1:
            n = 1
        elif ops[1] == 'cl':
            c = halves(s.regs['rcx'])[0].const()
            if c is None:
                raise Unsupported('variable shift at %s' % o.where(x))
            n = c & (63 if size == 64 else 31)
        else:
            n = int(ops[-1], 0)
        src = ops[1] if len(ops) == 3 else ops[0]
        a = self.rd(s, o, sec, x, src, size)
        if size == 32:
            r = {'shl': T.shl, 'sal': T.shl, 'shr': T.shr, 'rol': T.rotl, 'ror': lambda t, k: T.rotl(t, 32 - k),
                 'rorx': lambda t, k: T.rotl(t, 32 - k)}.get(mn)
            if r is None:
                if mn == 'sar':
                    c = a.const()
                    if c is None:
                        raise Unsupported('sar at %s' % o.where(x))
                    r = lambda t, k: T.const(sx(c, 32) >> k)
            r = r(a, n)
        elif size == 64:
            if a.lin is not None and mn in ('shl', 'sal'):
                r = V(lin=a.lin * (1 << n))
                if r.lin.is_const():
                    r = const64(wrap64(r.lin.k))
            elif a.lin is not None and mn in ('shr', 'sar'):
                if a.lin.is_const():
                    k = a.lin.k if mn == 'sar' else a.lin.k & M64
                    r = const64(wrap64(k >> n))
                else:
                    if not self.ge0(s, a.lin):
                        raise Unsupported('shift of a possibly negative value at %s' % o.where(x))
                    r = V(lin=self.lowbits(s, a.lin, n)[1])
            else:
                lo, hi = halves(a)
                if mn in ('shl', 'sal'):
                    r = from_halves(T.shl(lo, n), T.bor(T.shl(hi, n), T.shr(lo, 32 - n))) if n < 32 else from_halves(T.ZERO, T.shl(lo, n - 32))
                elif mn == 'shr':
                    r = from_halves(T.bor(T.shr(lo, n), T.shl(hi, 32 - n)), T.shr(hi, n)) if n < 32 else from_halves(T.shr(hi, n - 32), T.ZERO)
                elif mn in ('rol', 'ror', 'rorx'):
                    k = n % 64 if mn == 'rol' else (64 - n) % 64
                    if k >= 32:
                        lo, hi, k = hi, lo, k - 32
                    r = from_halves(T.bor(T.shl(lo, k), T.shr(hi, 32 - k)), T.bor(T.shl(hi, k), T.shr(lo, 32 - k))) if k else from_halves(lo, hi)
                else:
                    raise Unsupported('%s at %s' % (mn, o.where(x)))
        else:
            mk = (1 << size) - 1
            if mn in ('shl', 'sal'):
                r = T.mask(T.shl(a, n), mk)
            elif mn == 'shr':
                r = T.shr(a, n)
            elif mn in ('rol', 'ror'):
                k = n % size if mn == 'rol' else (size - n) % size
                r = T.mask(T.bor(T.shl(a, k), T.shr(a, size - k)), mk)
            else:
                raise Unsupported('%s at %s' % (mn, o.where(x)))
        self.wr(s, o, sec, x, ops[0], r)
        if mn not in ('rol', 'ror', 'rorx'):
            s.flags = ('res', r, size)
        elif mn != 'rorx':
            s.flags = ('init',)
        return nxt

    i_shl = i_sal = i_shr = i_sar = i_rol = i_ror = i_rorx = _shift

    def i_shld(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops[:1])
        if size != 32:
            raise Unsupported('shld size')
        n = int(x.ops[2], 0) & 31
        a, b = self.rd(s, o, sec, x, x.ops[0], 32), self.rd(s, o, sec, x, x.ops[1], 32)
        if n:
            if x.mn == 'shld':
                r = T.rotl(a, n) if a == b else T.bor(T.shl(a, n), T.shr(b, 32 - n))
            else:
                r = T.rotl(a, 32 - n) if a == b else T.bor(T.shr(a, n), T.shl(b, 32 - n))
            self.wr(s, o, sec, x, x.ops[0], r)
        s.flags = ('init',)
        return nxt

    i_shrd = i_shld

    def i_imul(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops[:1])
        ops = x.ops
        if len(ops) == 1:
            raise Unsupported('wide multiply at %s' % o.where(x))
        a = self.rd(s, o, sec, x, ops[1], size)
        b = self.rd(s, o, sec, x, ops[2] if len(ops) == 3 else ops[0], size)
        if size == 64:
            ca, cb = sconst(a), sconst(b)
            if cb is not None and a.lin is not None:
                r = V(lin=a.lin * cb)
            elif ca is not None and b.lin is not None:
                r = V(lin=b.lin * ca)
            else:
                raise Unsupported('multiply at %s' % o.where(x))
            if r.lin.is_const():
                r = const64(wrap64(r.lin.k))
        else:
            ca, cb = a.const(), b.const()
            if cb is not None:
                r = T.mul(a, cb)
            elif ca is not None:
                r = T.mul(b, ca)
            else:
                raise Unsupported('multiply at %s' % o.where(x))
        self.wr(s, o, sec, x, ops[0], r)
        s.flags = ('init',)
        return nxt

    def i_andn(self, s, o, sec, x, nxt, work):
        if REG[x.ops[0]][1] != 32:
            raise Unsupported('andn size')
        r = T.band(T.bnot(self.rd(s, o, sec, x, x.ops[1], 32)), self.rd(s, o, sec, x, x.ops[2], 32))
        self.wr(s, o, sec, x, x.ops[0], r)
        s.flags = ('logic', r, 32)
        return nxt

    def i_xchg(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops)
        a, b = self.rd(s, o, sec, x, x.ops[0], size), self.rd(s, o, sec, x, x.ops[1], size)
        self.wr(s, o, sec, x, x.ops[0], b)
        self.wr(s, o, sec, x, x.ops[1], a)
        return nxt

    def i_bt(self, s, o, sec, x, nxt, work):
        size = self.size_of(x, x.ops[:1])
        a = self.rd(s, o, sec, x, x.ops[0], size)
        if x.ops[1] in REG:
            b = self.rd(s, o, sec, x, x.ops[1], size)
            if isinstance(b, V):
                b = halves(b)[0]
            c = b.const()
            if c is None:
                at = X.single_atom(b) or (T.ATOMS.info[next(iter(b.l[1]))] if b.l is not None and len(b.l[1]) == 1 else None)
                if at in s.ranges and s.ranges[at][1] - s.ranges[at][0] <= 64:
                    raise X.NeedEnum(at, *s.ranges[at])
                raise Unsupported('bt with a variable index at %s' % o.where(x))
        else:
            c = int(x.ops[1], 0)
        c %= size
        if isinstance(a, V):
            a = halves(a)[c // 32]
            c %= 32
        s.flags = ('bit', a, c, size)
        return nxt

    def i_cpuid(self, s, o, sec, x, nxt, work):
        leaf, sub = halves(s.regs['rax'])[0].const(), halves(s.regs['rcx'])[0].const()
        if leaf is None:
            raise Unsupported('cpuid with a variable leaf at %s' % o.where(x))
        if leaf in (7, 0xd, 4, 0xb) and sub is None:
            sub = 'any'
        elif leaf not in (7, 0xd, 4, 0xb):
            sub = 0
        for r in ('rax', 'rbx', 'rcx', 'rdx'):
            k = ('cpuid', leaf, sub, r[1] if False else 'e' + r[1:])
            T.ATOMS.get(k)
            s.regs[r] = V(q=(T.atom(k), T.ZERO))
            if leaf in (0, 0x80000000) and r == 'rax':
                s.ranges.setdefault(k, (0, T.M32))
        return nxt

    def i_ud2(self, s, o, sec, x, nxt, work):
        raise Stop()

    # ---- vector instructions ----
    def vector(self, s, o, sec, x, nxt):
        mn, ops = x.mn, x.ops
        if mn == 'vzeroall':
            s.vec = [tuple([T.ZERO] * 8)] * 16
            return nxt
        vex = mn.startswith('v') and mn not in ()
        b = mn[1:] if vex else mn
        d = vreg(ops[0])
        lanes = max([r[1] for r in map(vreg, ops) if r] or [4])
        al = 0 if vex else 16
        if b in VMOV_A or b in VMOV_U:
            need = lanes * 4 if b in VMOV_A else 0
            if d:
                w = self.vsrc(s, o, sec, x, ops[1], lanes, need)
                self.vput(s, d[0], w, lanes, vex)
            else:
                e, _ = self.addr(s, o, sec, x, ops[0])
                self.store(s, o, x, e, lanes * 4, list(self.vget(s, vreg(ops[1])[0])[:lanes]), need)
            return nxt
        if b in ('movd', 'movq'):
            n = 4 if b == 'movd' else 8
            if b == 'movd' and any(p in REG and REG[p][1] == 64 for p in ops):
                n = 8
            if d:
                src = ops[1]
                if vreg(src):
                    w = list(self.vget(s, vreg(src)[0])[:n // 4])
                elif self.is_mem(src):
                    e, _ = self.addr(s, o, sec, x, src)
                    w = self.load(s, o, x, e, n)
                else:
                    v = self.rd(s, o, sec, x, src, n * 8)
                    w = list(halves(v)) if isinstance(v, V) else [v]
                w = w[:n // 4]
                self.vput(s, d[0], w + [T.ZERO] * (4 - len(w)), 4, vex)
            else:
                w = list(self.vget(s, vreg(ops[1])[0])[:n // 4])
                if ops[0] in REG:
                    self.wr(s, o, sec, x, ops[0], w[0] if n == 4 else from_halves(w[0], w[1]))
                else:
                    e, _ = self.addr(s, o, sec, x, ops[0])
                    self.store(s, o, x, e, n, w)
            return nxt
        if b in ('movss',) and d and self.is_mem(ops[1]):
            e, _ = self.addr(s, o, sec, x, ops[1])
            self.vput(s, d[0], self.load(s, o, x, e, 4) + [T.ZERO] * 3, 4, vex)
            return nxt
        if b in ('movss', 'movlps', 'movlpd', 'movhps', 'movhpd', 'movsd') and not d:
            w = self.vget(s, vreg(ops[1])[0])
            e, _ = self.addr(s, o, sec, x, ops[0])
            self.store(s, o, x, e, 4 if b == 'movss' else 8, [w[0]] if b == 'movss' else list(w[2:4] if 'h' in b else w[0:2]))
            return nxt
        if b in ('movlps', 'movlpd', 'movhps', 'movhpd') and d:
            base = self.vget(s, vreg(ops[1])[0] if vex else d[0])
            e, _ = self.addr(s, o, sec, x, ops[-1])
            w = self.load(s, o, x, e, 8)
            r = list(base[:4])
            r[2 if 'h' in b else 0:4 if 'h' in b else 2] = w
            self.vput(s, d[0], r, 4, vex)
            return nxt
        if b == 'movsd' and d and self.is_mem(ops[1]):
            e, _ = self.addr(s, o, sec, x, ops[1])
            self.vput(s, d[0], self.load(s, o, x, e, 8) + [T.ZERO] * 2, 4, vex)
            return nxt
        # sources: vex: ops[1:], legacy: ops[0], ops[1:]
        imm = None
        srcs = list(ops[1:]) if vex else list(ops)
        if srcs and re.match(r'^(0x[0-9a-f]+|\d+)$', srcs[-1]):
            imm = int(srcs.pop(), 0)
        if b in ('pextrd', 'pextrq', 'pextrb', 'pextrw', 'extracti128', 'extractf128'):
            w = self.vget(s, vreg(ops[1])[0])
            if b in ('extracti128', 'extractf128'):
                part = list(w[4 * (imm & 1):4 * (imm & 1) + 4])
                if d:
                    self.vput(s, d[0], part, 4, True)
                else:
                    e, _ = self.addr(s, o, sec, x, ops[0])
                    self.store(s, o, x, e, 16, part)
                return nxt
            if b == 'pextrd':
                val = w[imm & 3]
            elif b == 'pextrq':
                val = from_halves(w[2 * (imm & 1)], w[2 * (imm & 1) + 1])
            else:
                raise Unsupported(x.text)
            self.wr(s, o, sec, x, ops[0], val)
            return nxt
        if not d:
            raise Unsupported('instruction %s at %s' % (x.text, o.where(x)))
        if b in ('pinsrd', 'pinsrq'):
            base = list(self.vget(s, vreg(ops[1] if vex else ops[0])[0])[:4])
            src = ops[2] if vex else ops[1]
            n = 4 if b == 'pinsrd' else 8
            v = self.rd(s, o, sec, x, src, n * 8)
            ws = list(halves(v)) if isinstance(v, V) else [v]
            i = (imm & 3) if n == 4 else 2 * (imm & 1)
            base[i:i + n // 4] = ws[:n // 4]
            self.vput(s, d[0], base, 4, vex)
            return nxt
        if b in ('broadcastss', 'pbroadcastd', 'pbroadcastq', 'broadcastsd', 'broadcasti128', 'broadcastf128'):
            n = {'broadcastss': 1, 'pbroadcastd': 1, 'pbroadcastq': 2, 'broadcastsd': 2}.get(b, 4)
            lanes = d[1]
            if vreg(ops[1]):
                w = list(self.vget(s, vreg(ops[1])[0])[:n])
            else:
                e, _ = self.addr(s, o, sec, x, ops[1])
                w = self.load(s, o, x, e, n * 4)
            self.vput(s, d[0], (w * 8)[:lanes], lanes, True)
            return nxt
        if b in ('inserti128', 'insertf128'):
            base = list(self.vget(s, vreg(ops[1])[0]))
            part = self.vsrc(s, o, sec, x, ops[2], 4)
            base[4 * (imm & 1):4 * (imm & 1) + 4] = part
            self.vput(s, d[0], base, 8, True)
            return nxt
        if b in ('perm2f128', 'perm2i128'):
            a, c = self.vsrc(s, o, sec, x, ops[1], 8), self.vsrc(s, o, sec, x, ops[2], 8)
            al4 = [a[:4], a[4:], c[:4], c[4:]]
            r = []
            for sh in (0, 4):
                f = imm >> sh
                r += [T.ZERO] * 4 if f & 8 else al4[f & 3]
            self.vput(s, d[0], r, 8, True)
            return nxt
        if b in ('permq', 'permpd'):
            a = self.vsrc(s, o, sec, x, ops[1], 8)
            r = []
            for i in range(4):
                j = imm >> (2 * i) & 3
                r += a[2 * j:2 * j + 2]
            self.vput(s, d[0], r, 8, True)
            return nxt
        if b in ('permd', 'permps'):
            idx, a = self.vsrc(s, o, sec, x, ops[1], 8), self.vsrc(s, o, sec, x, ops[2], 8)
            if any(t.const() is None for t in idx):
                raise Unsupported('variable permutation at %s' % o.where(x))
            self.vput(s, d[0], [a[t.const() & 7] for t in idx], 8, True)
            return nxt
        S = [self.vsrc(s, o, sec, x, p, lanes, al) for p in srcs if not (b == 'sha256rnds2' and p == 'xmm0' and len(srcs) == 3 and p is srcs[2])]
        if b in TWO_OP_VEC:
            f = TWO_OP_VEC[b]
            if ops[-1] == ops[-2 if vex else 0] and b in ('pxor', 'xorps', 'xorpd', 'psubd'):
                r = [T.ZERO] * lanes
            else:
                r = [f(p, q) for p, q in zip(S[0], S[1])]
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b in ('paddq', 'psubq'):
            raise Unsupported('64-bit lane arithmetic at %s' % o.where(x))
        if b in ('pslld', 'psrld', 'psllq', 'psrlq', 'pslldq', 'psrldq', 'psrad'):
            if imm is None:
                raise Unsupported('variable vector shift at %s' % o.where(x))
            a = S[0]
            r = []
            if b == 'pslld':
                r = [T.shl(t, imm) for t in a]
            elif b == 'psrld':
                r = [T.shr(t, imm) for t in a]
            elif b == 'psrlq':
                for i in range(0, lanes, 2):
                    lo, hi = a[i], a[i + 1]
                    if imm >= 64:
                        r += [T.ZERO, T.ZERO]
                    elif imm >= 32:
                        r += [T.shr(hi, imm - 32), T.ZERO]
                    else:
                        r += [T.rotl(lo, 32 - imm) if lo == hi and False else T.bor(T.shr(lo, imm), T.shl(hi, 32 - imm)), T.shr(hi, imm)]
            elif b == 'psllq':
                for i in range(0, lanes, 2):
                    lo, hi = a[i], a[i + 1]
                    if imm >= 64:
                        r += [T.ZERO, T.ZERO]
                    elif imm >= 32:
                        r += [T.ZERO, T.shl(lo, imm - 32)]
                    else:
                        r += [T.shl(lo, imm), T.bor(T.shl(hi, imm), T.shr(lo, 32 - imm))]
            elif b in ('pslldq', 'psrldq'):
                for h in range(0, lanes, 4):
                    by = [(t, k) for t in a[h:h + 4] for k in range(4)]
                    n = min(imm, 16)
                    by = [None] * n + by[:16 - n] if b == 'pslldq' else by[n:] + [None] * n
                    r += [T.select_bytes(by[4 * j:4 * j + 4]) for j in range(4)]
            else:
                raise Unsupported('psrad')
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b in ('prold', 'prord'):
            r = [T.rotl(t, imm if b == 'prold' else 32 - imm) for t in S[0]]
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b == 'pshufb':
            r = []
            for h in range(0, lanes, 4):
                ctl = []
                for t in S[1][h:h + 4]:
                    if t.const() is None:
                        raise Unsupported('pshufb with a variable control at %s' % o.where(x))
                    ctl += list(t.const().to_bytes(4, 'little'))
                by = [(t, k) for t in S[0][h:h + 4] for k in range(4)]
                sel = [None if c & 0x80 else by[c & 15] for c in ctl]
                r += [T.select_bytes(sel[4 * j:4 * j + 4]) for j in range(4)]
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b in ('pshufd', 'permilps'):
            a = S[0] if vex else S[1]
            if imm is None:
                raise Unsupported(x.text)
            r = []
            for h in range(0, lanes, 4):
                r += [a[h + (imm >> (2 * i) & 3)] for i in range(4)]
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b in ('pshuflw', 'pshufhw'):
            a = S[0] if vex else S[1]
            r = []
            for h in range(0, lanes, 4):
                q = list(a[h:h + 4])
                off = 0 if b == 'pshuflw' else 2
                hw = [(q[off + k // 2], 2 * (k % 2)) for k in range(4)]
                sel = [hw[imm >> (2 * i) & 3] for i in range(4)]
                for i in range(2):
                    u, v = sel[2 * i], sel[2 * i + 1]
                    q[off + i] = T.select_bytes([(u[0], u[1]), (u[0], u[1] + 1), (v[0], v[1]), (v[0], v[1] + 1)])
                r += q
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b == 'shufps':
            r = []
            for h in range(0, lanes, 4):
                r += [S[0][h + (imm & 3)], S[0][h + (imm >> 2 & 3)], S[1][h + (imm >> 4 & 3)], S[1][h + (imm >> 6 & 3)]]
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b == 'shufpd':
            r = []
            for i, h in enumerate(range(0, lanes, 4)):
                p, q = imm >> (2 * i) & 1, imm >> (2 * i + 1) & 1
                r += S[0][h + 2 * p:h + 2 * p + 2] + S[1][h + 2 * q:h + 2 * q + 2]
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b in ('punpckldq', 'punpckhdq', 'unpcklps', 'unpckhps', 'punpcklqdq', 'punpckhqdq', 'unpcklpd', 'unpckhpd', 'movlhps', 'movhlps'):
            r = []
            for h in range(0, lanes, 4):
                p, q = S[0][h:h + 4], S[1][h:h + 4]
                if b in ('punpckldq', 'unpcklps'):
                    r += [p[0], q[0], p[1], q[1]]
                elif b in ('punpckhdq', 'unpckhps'):
                    r += [p[2], q[2], p[3], q[3]]
                elif b in ('punpcklqdq', 'unpcklpd', 'movlhps'):
                    r += [p[0], p[1], q[0], q[1]]
                elif b == 'movhlps':
                    r += [q[2], q[3], p[2], p[3]]
                else:
                    r += [p[2], p[3], q[2], q[3]]
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b == 'palignr':
            r = []
            for h in range(0, lanes, 4):
                by = [(t, k) for t in S[1][h:h + 4] + S[0][h:h + 4] for k in range(4)] + [None] * 32
                by = by[min(imm, 32):min(imm, 32) + 16]
                r += [T.select_bytes(by[4 * j:4 * j + 4]) for j in range(4)]
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b in ('pblendw', 'pblendd', 'blendps', 'blendpd'):
            r = []
            for i in range(lanes):
                if b == 'pblendw':
                    k = imm >> (2 * (i % 4)) & 3
                    mk = (0xffff if k & 1 else 0) | (0xffff0000 if k & 2 else 0)
                elif b == 'blendpd':
                    mk = T.M32 if imm >> (i // 2) & 1 else 0
                else:
                    mk = T.M32 if imm >> i & 1 else 0
                r.append(T.xor(T.mask(S[0][i], T.M32 ^ mk), T.mask(S[1][i], mk)))
            self.vput(s, d[0], r, lanes, vex)
            return nxt
        if b == 'sha256rnds2':
            c, aa = S[0], S[1]
            wk = self.vget(s, 0)
            a_, b_, e_, f_ = aa[3], aa[2], aa[1], aa[0]
            c_, d_, g_, h_ = c[3], c[2], c[1], c[0]
            for i in range(2):
                t1 = T.add(T.add(T.add(h_, T.S1(e_)), T.ch(e_, f_, g_)), wk[i])
                t2 = T.add(T.S0(a_), T.maj(a_, b_, c_))
                h_, g_, f_, e_, d_, c_, b_, a_ = g_, f_, e_, T.add(d_, t1), c_, b_, a_, T.add(t1, t2)
            self.vput(s, d[0], [f_, e_, b_, a_], 4, False)
            return nxt
        if b == 'sha256msg1':
            a, c = S[0], S[1]
            w = a + [c[0]]
            self.vput(s, d[0], [T.add(w[i], T.s0(w[i + 1])) for i in range(4)], 4, False)
            return nxt
        if b == 'sha256msg2':
            a, c = S[0], S[1]
            w16 = T.add(a[0], T.s1(c[2]))
            w17 = T.add(a[1], T.s1(c[3]))
            w18 = T.add(a[2], T.s1(w16))
            w19 = T.add(a[3], T.s1(w17))
            self.vput(s, d[0], [w16, w17, w18, w19], 4, False)
            return nxt
        raise Unsupported('instruction %s at %s' % (x.text, o.where(x)))


def wrap64(k):
    k &= M64
    return k - (1 << 64) if k >> 63 else k


def sx(v, size):
    return v - (1 << size) if v >> (size - 1) & 1 else v


def short(v):
    return str(v)[:80]


def subst_const(t, aid, val):
    if t.a is None:
        c, d = t.l
        if aid not in d:
            return t
        d = dict(d)
        w = d.pop(aid)
        return T._from_lin((c + w * val) & T.M32, d)
    r = T.ZERO
    for m, k in t.a.items():
        cur = T.const(k)
        for f in m:
            a, rot = f // 32, f % 32
            cur = T.band(cur, T.const(T.rol(val, rot)) if a == aid else T.Term({frozenset((f,)): T.M32}))
        r = T.xor(r, cur)
    return r
