"""Whole-program driver for the hashing kernels (C01-C05)."""
import os, re, time
from . import obj as O
from .poly import Lin, L
from .x86 import Program, Unsupported
from .x86insn import Machine


# the public way to each routine: the constructor's choice and the inline wrapper are analysed with the routines
WITNESS = r'''
#include "%(repo)s/ssz/hasher.cpp"
#define V(n) extern "C" __attribute__((noinline, used)) void hash_with_##n(unsigned char* o, const unsigned char* i, std::size_t k) { \
    const ssz::Hasher h(ssz::Hasher::IMPL::n); h.hash_64b_blocks(o, i, k); }
V(SHA) V(AVX2) V(AVX) V(SSE)
'''
PUBLIC = tuple('hash_with_' + n for n in ('SHA', 'AVX2', 'AVX', 'SSE'))


WITNESS_COUNTS = [(1 << b) + d for b in (8, 16, 31, 32) for d in (0, 1, 3)]


class Kernels(Program):
    def __init__(self, repo, work, cpp='ssz/hasher.cpp', flags=()):
        self.repo = repo
        asm = O.build_kernels(repo, work)
        self.asm = asm
        self.cpp = O.build_cpp(repo, work, cpp, flags) if cpp else None
        super().__init__(asm + ([self.cpp] if self.cpp else []))
        self.results = {}
        self.busy = []
        self.find_entries()

    def find_entries(self):
        """Contracts: every assembly routine the C++ side refers to, and every C++ function with the hasher signature."""
        taken, called = set(), set()
        ob = self.cpp
        for S in ob.sections:
            for off, (typ, sym, add) in S.rels.items():
                if S.name.startswith('.debug') or S.name.startswith('.eh'):
                    continue
                nm = sym[0]
                if nm in self.sym and self.sym[nm][0].sections[self.sym[nm][1]].exec:
                    iscall = typ in (2, 4) and any(x.rel and x.rel[0] == off and x.mn == 'call' for (sc, a), x in ob.code.items() if sc == S.idx)
                    (called if iscall else taken).add(nm)
        self.taken = {n for n in taken if self.sym[n][0] is not ob or n.endswith('EPhPKhm')}
        asmsyms = {n for n in taken | called if self.sym[n][0] is not ob}
        # other assembly routines exported and called between assembly files
        self.contract_names = set(asmsyms) | self.taken

    def summary(self, name):
        if name in self.busy:
            raise Unsupported('recursion through %s' % name)
        r = self.analyse(name)
        return r['summary']

    def analyse(self, name):
        if name in self.results:
            return self.results[name]
        self.busy.append(name)
        o, sec, off = self.sym[name]
        m = Machine(self, o, sec, off, name)
        m.run()
        blocks = None
        if not m.undecided:
            rets = [e for e in m.exits]
            if rets and all(m.eq0(s, s.done - Lin.var('N')) for s, *_ in rets):
                blocks = 'N'
            elif rets and all(s.done.is_const() for s, *_ in rets) and len({s.done.k for s, *_ in rets}) == 1:
                blocks = rets[0][0].done.k
                if name in self.taken or blocks == 0:
                    blocks = None
            if isinstance(blocks, int):
                # a fixed-size routine: its buffers hold exactly that many blocks
                m = Machine(self, o, sec, off, name)
                nb = blocks
                m.run(lambda st: st.eq.append(Lin.var('N') - nb))
                rets = m.exits
            if blocks is None:
                for s, p, vp, w, xx in rets:
                    if not m.eq0(s, s.done - Lin.var('N')):
                        m.cur = s
                        for prop in ('C01', 'C02'):
                            m.bad(prop, xx, 'returns after hashing %s blocks although n blocks were requested%s' % (s.done, bounds_note(m, s)))
                if not rets and not m.viol and not m.soft:
                    for prop in ('C01', 'C02'):
                        m.bad(prop, None, 'never returns normally')
            m.cur = None
        if m.soft and not m.undecided:
            m.undecided = m.soft
        if m.undecided and name in self.contract_names:
            self.witnesses(name, m)
        self.busy.pop()
        pres = set.intersection(*[e[1] for e in m.exits]) if m.exits else set()
        vp = set.intersection(*[e[2] for e in m.exits]) if m.exits else set()
        if blocks is None and not m.undecided:
            blocks = 'N'  # the callee's own violation is reported once, at the callee
        res = dict(name=name, m=m, viol=m.viol, undecided=m.undecided, stats=m.stats,
                   summary=dict(blocks=blocks, preserved=pres | {'rbx', 'rbp', 'r12', 'r13', 'r14', 'r15'}, vpreserved=vp))
        self.results[name] = res
        return res

    def witnesses(self, name, m):
        """one path each through a routine that is not decided for every n: block counts whose low 8, 16 or 32 bits are small, where a
        truncated count ends the loop early; only a path decided by constants alone is believed"""
        o, sec, off = self.sym[name]
        for n in WITNESS_COUNTS:
            w = Machine(self, o, sec, off, name)
            w.MAXSTEPS = 12000

            def setup(st):
                st.eq.append(Lin.var('N') - n)
                st.regs['rdx'].lin = L(n)
            try:
                w.run(setup)
            except RecursionError:
                continue
            if w.undecided or w.soft or w.stats['traces'] != 1 or any(len(e[0].path) for e in w.exits):
                continue
            for s, *_, xx in w.exits:
                if s.done.is_const() and s.done.k != n:
                    w.cur = None
                    for prop in ('C01', 'C02'):
                        w.bad(prop, xx, 'returns after hashing %s blocks when %d blocks were requested' % (s.done.k, n))
            m.viol += [v for v in w.viol if v not in m.viol]
            if m.viol:
                return

    def all(self):
        for n in sorted(self.contract_names):
            self.analyse(n)
        return self.results


class PublicKernels(Kernels):
    """the routines together with the public functions that lead to them"""
    def __init__(self, repo, work):
        os.makedirs(work, exist_ok=True)
        w = os.path.join(work, 'kernel_witness.cpp')
        with open(w, 'w') as f:
            f.write(WITNESS % dict(repo=repo))
        super().__init__(repo, work, cpp=w)
        self.contract_names |= set(PUBLIC)
        self.taken |= set(PUBLIC)


def bounds_note(m, s):
    try:
        lo, hi = m.bnd(s, Lin.var('N') - s.done)
        return ' (%s to %s blocks left)' % (lo, hi if hi < 1 << 50 else 'any number of')
    except Exception:
        return ''


if __name__ == '__main__':
    import sys
    t = time.time()
    k = Kernels(sys.argv[1] if len(sys.argv) > 1 else '/repo', '/tmp/w/k')
    print('taken', k.taken, 'contracts', k.contract_names)
    for n, r in k.all().items():
        print(n, 'UNDECIDED ' + r['undecided'] if r['undecided'] else 'ok', r['summary'], r['stats'])
        for v in r['viol']:
            print('   ', v)
        for l in r['m'].loopinfo.values():
            print('   loop', l)
    print(time.time() - t)
