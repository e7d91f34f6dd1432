"""CPU feature detection and kernel selection (C05, C06): abstract interpretation of the compiled selection code over
all CPUID answers, through the public API (default constructor, constructor from IMPL, implemented())."""
import os
from . import obj as O, term as T, isa
from . import x86 as X
from .kernels import Kernels
from .poly import Lin, L
from .x86 import V, halves, from_halves, Unsupported
from .x86insn import Machine

WITNESS = r'''
#include "%(repo)s/ssz/hasher.cpp"
using H = ssz::Hasher;
#define W extern "C" __attribute__((noinline, used))
W void w_default(unsigned char* o, const unsigned char* i, std::size_t n) { H h; h.hash_64b_blocks(o, i, n); }
W void w_impl(unsigned char* o, const unsigned char* i, std::size_t n, unsigned v) { H h(static_cast<H::IMPL>(v)); h.hash_64b_blocks(o, i, n); }
W unsigned w_features() { return static_cast<unsigned>(H::implemented()); }
W void w_marks(unsigned* p) { p[0] = static_cast<unsigned>(H::IMPL::SSE); p[1] = static_cast<unsigned>(H::IMPL::AVX);
    p[2] = static_cast<unsigned>(H::IMPL::AVX2); p[3] = static_cast<unsigned>(H::IMPL::SHA); p[4] = static_cast<unsigned>(H::IMPL::NONE); }
'''
# (enumerator, documented value, leaf, register, bit)
FEATURES = [('SSE', 1, 1, 'ecx', 0), ('AVX', 2, 1, 'ecx', 28), ('AVX2', 4, 7, 'ebx', 5), ('SHA', 8, 7, 'ebx', 29)]
PRIORITY = [('SHA', 7, 'ebx', 29), ('AVX2', 7, 'ebx', 5), ('AVX', 1, 'ecx', 28)]
MAXLEAF = ('cpuid', 0, 0, 'eax')


class Dispatch(Kernels):
    def __init__(self, repo, work):
        os.makedirs(work, exist_ok=True)
        w = os.path.join(work, 'dispatch_witness.cpp')
        with open(w, 'w') as f:
            f.write(WITNESS % dict(repo=repo))
        super().__init__(repo, work, cpp=w, flags=['-ftrivial-auto-var-init=pattern'])
        for n in ('w_default', 'w_impl', 'w_features', 'w_marks'):
            self.contract_names.discard(n)
            self.taken.discard(n)
        self.viol = []      # (prop, key, where, msg)
        self.undecided = []
        self.stats = dict(paths=0, obligations=0, instructions=0, branches=0)
        self.table = []

    # kernel roles by what the code is, not by what it is called
    def role(self, name):
        """SHA | AVX2 | AVX | ONE"""
        seen, exts, multi = set(), {}, False
        todo = [name]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            r = self.analyse(n)
            if r['undecided']:
                raise Unsupported('%s: %s' % (n, r['undecided']))
            if self.sym[n][0] is not self.cpp and r['summary']['blocks'] == 'N':
                multi = True
            for (o, sec, off) in r['m'].insns:
                x = o.code[(sec, off)]
                e = isa.extension(x.mn, x.ops)
                if e and (e not in exts or (o is not self.cpp and off < exts[e][1].addr)):
                    exts[e] = (o, x)
            todo += list(r['m'].callees)
        role = 'SHA' if 'SHA' in exts else 'AVX2' if 'AVX2' in exts else 'AVX' if multi else 'ONE'
        return role, exts, seen

    def explore(self, name, setup=None):
        o, sec, off = self.sym[name]
        m = Machine(self, o, sec, off, name, mode='dispatch')
        m.run(setup)
        self.stats['instructions'] += m.stats['instructions']
        self.stats['branches'] += m.stats['branches']
        return m

    def marks(self):
        """values of the public enumerators"""
        m = self.explore('w_marks', lambda s: s.regs.__setitem__('rdi', V(lin=Lin.var('THIS'))))
        if m.undecided or len(m.exits) != 1:
            return None
        mem = m.exits[0][2].mem['THIS']
        return [mem[4 * i].const() for i in range(5)]

    def bitfact(self, st, leaf, reg, bit):
        """what this path knows: 0, 1 (fact), None; plus whether the leaf exists (True/False/None)"""
        lo, hi = st.ranges.get(MAXLEAF, (0, T.M32))
        have = True if lo >= leaf else False if hi < leaf else None
        a = T.ATOMS.ids.get(('cpuid', leaf, 0, reg))
        v = st.bits.get(a, {}).get(bit) if a is not None else None
        return have, v

    def run(self):
        mk = self.marks()
        if mk is None or None in mk:
            self.undecided.append('enumerator values')
            return
        val = dict(zip(('SSE', 'AVX', 'AVX2', 'SHA', 'NONE'), mk))
        for i, n in enumerate(('SSE', 'AVX', 'AVX2', 'SHA', 'NONE')):
            self.stats['obligations'] += 1
        if len(set(mk)) != 5 or any(bin(val[n]).count('1') != 1 for n in ('SSE', 'AVX', 'AVX2', 'SHA')) or val['NONE']:
            self.viol.append(('C06', 'enum', 'ssz/hasher.hpp (Hasher::IMPL)', 'IMPL enumerators are not distinct single bits: %s' % val))
        self.features(val)
        self.selection(val)

    def features(self, val):
        m = self.explore('w_features')
        if m.undecided:
            self.undecided.append('implemented(): ' + m.undecided)
            return
        if not m.exits:
            self.viol.append(('C06', 'features-noret', 'Hasher::implemented', 'never returns'))
        for kind, _, s, xx in m.exits:
            self.stats['paths'] += 1
            if ('unknown',) in s.path or kind != 'ret':
                self.undecided.append('implemented(): a path with an unmodelled condition')
                continue
            got = m.substbits(s, halves(s.regs['rax'])[0])
            if any(a[0] == 'top' for a in T.atoms_of(got)):
                self.undecided.append('implemented(): unmodelled result')
                continue
            for nm, _, leaf, reg, bit in FEATURES:
                self.stats['obligations'] += 1
                pos = val[nm].bit_length() - 1
                t = m.substbits(s, T.mask(T.shr(got, pos), 1))
                have, known = self.bitfact(s, leaf, reg, bit)
                src = m.substbits(s, T.mask(T.shr(T.atom(('cpuid', leaf, 0, reg)), bit), 1))
                desc = self.describe(s)
                if have is not True and t != T.ZERO:
                    if have is False:
                        msg = 'reports %s (%s) although CPUID leaf %d does not exist' % (nm, desc, leaf)
                    else:
                        msg = 'reports %s from CPUID leaf %d without knowing that the leaf exists' % (nm, leaf)
                    self.viol.append(('C06', 'feature-%s-leaf' % nm, 'Hasher::implemented', msg))
                if have is True and t != src or have is None and t == T.ZERO and src != T.ZERO:
                    self.viol.append(('C06', 'feature-%s' % nm, 'Hasher::implemented', 'bit %s of the result is %s, not CPUID.%d:%s[%d] (%s)' % (nm, show(t), leaf, reg.upper(), bit, desc)))
            # nothing else is reported
            rest = got
            self.stats['obligations'] += 1
            other = m.substbits(s, T.mask(got, T.M32 & ~sum(val[n[0]] for n in FEATURES)))
            if other != T.ZERO:
                self.viol.append(('C06', 'feature-extra', 'Hasher::implemented', 'reports bits that are no extension: %s (%s)' % (show(other), desc)))

    def describe(self, s):
        lo, hi = s.ranges.get(MAXLEAF, (0, T.M32))
        d = []
        if lo > 0 or hi < T.M32:
            d.append('highest leaf %s' % ('>= %d' % lo if hi == T.M32 else '%d..%d' % (lo, hi)))
        for a, b in s.bits.items():
            k = T.ATOMS.info[a]
            for bit, v in sorted(b.items()):
                nm = [f[0] for f in FEATURES if f[2:] == (k[1], k[3], bit)]
                d.append('%s=%d' % (nm[0] if nm else 'CPUID.%s:%s[%d]' % (k[1], k[3], bit), v))
        return ', '.join(d) or 'any CPU'

    def expected_default(self, s):
        """(set of roles possible, reported extensions)"""
        rep = set()
        exp = set()
        open_ = True
        for nm, leaf, reg, bit in PRIORITY:
            have, v = self.bitfact(s, leaf, reg, bit)
            if have is True and v == 1:
                rep.add(nm)
                if open_:
                    exp.add(nm)
                    open_ = False
            elif have is False or (have is True and v == 0):
                continue
            elif have is None and v == 0:
                continue
            elif open_:
                exp.add(nm)
        if open_:
            exp.add('ONE')
        have, v = self.bitfact(s, 1, 'ecx', 0)
        if have is True and v == 1:
            rep.add('SSE3')
        return exp, rep

    def selection(self, val):
        roles = {}

        def role(n):
            if n not in roles:
                roles[n] = self.role(n)
            return roles[n]
        cases = [('default', None, None)]
        for nm in ('SHA', 'AVX2', 'AVX', 'SSE'):
            cases.append(('IMPL::%s' % nm, val[nm], {'SSE': 'ONE'}.get(nm, nm)))
        known = {val[n] for n in ('SHA', 'AVX2', 'AVX', 'SSE')}
        for v in range(0, 32):
            if v not in known:
                cases.append(('IMPL(%d)' % v, v, None))
        for label, v, want in cases:
            if v is None:
                m = self.explore('w_default')
            else:
                m = self.explore('w_impl', lambda s, v=v: s.regs.__setitem__('rcx', X.const64(v)))
            if m.undecided:
                self.undecided.append('%s: %s' % (label, m.undecided))
                continue
            if not m.exits:
                self.viol.append(('C06', 'noexit:%s' % label, 'Hasher::Hasher', '%s: no hashing routine is ever called' % label))
            for kind, tgt, s, xx in m.exits:
                self.stats['paths'] += 1
                self.stats['obligations'] += 1
                if ('unknown',) in s.path:
                    self.undecided.append('%s: a path with an unmodelled condition' % label)
                    continue
                desc = self.describe(s)
                if kind == 'indirect':
                    lin = tgt.lin
                    if lin is None or not lin.is_const():
                        at = [X.single_atom(h) for h in (tgt.q or ())]
                        if not at or any(a is None or a[0] not in ('uninit', 'clob') for a in at):
                            self.undecided.append('%s: unmodelled call target' % label)
                            continue
                    self.viol.append(('C06', 'target:%s' % label, 'Hasher::Hasher', '%s: hashing calls %s, no hashing routine (%s)' % (label, 'an indeterminate pointer' if lin is None or lin.k else 'a null pointer', desc)))
                    continue
                if kind == 'ret':
                    self.viol.append(('C06', 'nocall:%s' % label, 'Hasher::Hasher', '%s: hashing does nothing (%s)' % (label, desc)))
                    continue
                try:
                    ro, exts, closure = role(tgt)
                except Unsupported as e:
                    self.undecided.append('%s: role of %s: %s' % (label, tgt, e))
                    continue
                if want is not None:
                    if ro != want:
                        self.viol.append(('C06', 'explicit:%s' % label, 'Hasher::Hasher', '%s selects %s, a %s routine' % (label, tgt, ROLE[ro])))
                    continue
                exp, rep = self.expected_default(s)
                if v is None:
                    self.table.append((label, desc, tgt, ro))
                if exp != {ro}:
                    self.viol.append(('C06', 'select:%s:%s' % ('default', '|'.join(sorted(exp))), 'Hasher::best_sha256_implementation', '%s selects %s, a %s routine, where the documented choice is %s (%s)' % (label, tgt, ROLE[ro], ' or '.join(ROLE[e] for e in sorted(exp)), desc)))
                if v is not None:
                    continue
                ok = isa.allowed(rep)
                for e, (o, x) in sorted(exts.items()):
                    self.stats['obligations'] += 1
                    if e not in ok:
                        # a second path with the same kernel and gap is the same finding
                        self.viol.append(('C05', '%s-kernel-needs-%s-with-%s' % (ro, e, '+'.join(sorted(rep - {'SSE3'})) or 'nothing'), o.where(x), '%s runs %s, whose %s is a %s instruction, on a CPU reporting %s (%s)' % (label, tgt, x.mn, e, ', '.join(sorted(rep)) or 'none of the extensions', desc)))


ROLE = {'SHA': 'SHA-NI', 'AVX2': 'multi-block AVX2', 'AVX': 'multi-block AVX', 'ONE': 'single-block'}


def show(t):
    if t.const() is not None:
        return str(t.const())
    if t.a is None:
        return 'a sum'
    return ' ^ '.join(sorted('&'.join(sorted('%s[rot %d]' % ('.'.join(str(z) for z in T.ATOMS.info[f // 32][:4]), f % 32) for f in m)) or '1' for m in t.a))


if __name__ == '__main__':
    import sys
    d = Dispatch(sys.argv[1] if len(sys.argv) > 1 else '/repo', '/tmp/w/d')
    d.run()
    print(d.stats, d.undecided)
    for t in d.table[:12]:
        print(t)
    for v in sorted(set(d.viol)):
        print(v)
