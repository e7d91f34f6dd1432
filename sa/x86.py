"""Abstract interpreter for x86-64 machine code.

Domains: addresses and counters are linear expressions over {input, output, N, stack base, loop counters, static
sections}; data words are value-numbering normal forms (term.py); branch facts are linear constraints (poly.py),
CPUID bit facts and ranges.  Loops whose trip count is symbolic are closed by an affine invariant (one counter per
loop, checked inductive on the back edge); loops whose branches are decided by constants are unrolled by trace
partitioning.  No code is executed.
"""
import re
from . import term as T
from .poly import Lin, L, bounds, entails_ge0, entails_eq0, feasible, Infeasible, INF

M64 = (1 << 64) - 1
R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
REG = {}
for r in R64:
    REG[r] = (r, 64, 0)
for r in R64[:8]:
    REG['e' + r[1:]] = (r, 32, 0)
    REG[r[1:]] = (r, 16, 0)
for r in ('rax', 'rcx', 'rdx', 'rbx'):
    REG[r[1] + 'l'] = (r, 8, 0)
    REG[r[1] + 'h'] = (r, 8, 8)
for r in ('rsp', 'rbp', 'rsi', 'rdi'):
    REG[r[1:] + 'l'] = (r, 8, 0)
for i in range(8, 16):
    REG['r%dd' % i] = ('r%d' % i, 32, 0)
    REG['r%dw' % i] = ('r%d' % i, 16, 0)
    REG['r%db' % i] = ('r%d' % i, 8, 0)
CALLEE_SAVED = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
SIZES = {'BYTE': 8, 'WORD': 16, 'DWORD': 32, 'QWORD': 64, 'XMMWORD': 128, 'YMMWORD': 256}
CCS = {}
for names in (('o',), ('no',), ('b', 'c', 'nae'), ('ae', 'nc', 'nb'), ('e', 'z'), ('ne', 'nz'), ('be', 'na'),
              ('a', 'nbe'), ('s',), ('ns',), ('p', 'pe'), ('np', 'po'), ('l', 'nge'), ('ge', 'nl'), ('le', 'ng'),
              ('g', 'nle')):
    for n in names:
        CCS[n] = names[0]
NEG = {'b': 'ae', 'ae': 'b', 'e': 'ne', 'ne': 'e', 'be': 'a', 'a': 'be', 'l': 'ge', 'ge': 'l', 'le': 'g', 'g': 'le',
       's': 'ns', 'ns': 's', 'o': 'no', 'no': 'o', 'p': 'np', 'np': 'p'}


class Unsupported(Exception):
    pass


class Stop(Exception):
    """this trace ends here (after a violation that makes continuing pointless)"""


class V:
    """64-bit value: either linear (lin) or a pair of 32-bit terms"""
    __slots__ = ('lin', 'q')

    def __init__(self, lin=None, q=None):
        self.lin, self.q = lin, q

    def __eq__(self, o):
        if self.lin is not None and o.lin is not None:
            return self.lin == o.lin
        if self.q is not None and o.q is not None:
            return self.q == o.q
        return False

    def __repr__(self):
        return repr(self.lin) if self.lin is not None else repr(self.q)


HALF = {}


def halves(v):
    if v.q is not None:
        return v.q
    l = v.lin
    if l.is_const():
        k = l.k & M64
        return (T.const(k & T.M32), T.const(k >> 32))
    HALF[l.key()] = l
    return (T.atom(('half', l.key(), 0)), T.atom(('half', l.key(), 1)))


def from_halves(lo, hi):
    a, b = lo.const(), hi.const()
    if a is not None and b is not None:
        k = a | (b << 32)
        if k >> 63:
            k -= 1 << 64
        return V(lin=Lin({}, k))
    ka, kb = single_atom(lo), single_atom(hi)
    if ka and kb and ka[0] == 'half' and kb[0] == 'half' and ka[1] == kb[1] and ka[2] == 0 and kb[2] == 1:
        return V(lin=HALF[ka[1]])
    return V(q=(lo, hi))


def single_atom(t):
    if t.a is not None and len(t.a) == 1:
        (m, k), = t.a.items()
        if k == T.M32 and len(m) == 1:
            x, = m
            if x % 32 == 0:
                return T.ATOMS.info[x // 32]
    return None


def const64(v):
    return V(lin=L(v))


def sconst(v):
    """signed 64-bit constant or None"""
    if v.lin is not None and v.lin.is_const():
        k = v.lin.k & M64
        return k - (1 << 64) if k >> 63 else k
    return None


class LoopRec:
    def __init__(self, first, second):
        self.first, self.second = first, second
        self.havoc, self.vec, self.mem, self.cands, self.n = set(), set(), set(), None, 0


def is_ptr(v):
    return v in ('IN', 'OUT', 'THIS') or (isinstance(v, tuple) and v[0] in ('stk', 'sec', 'al', 'fn'))


class State:
    __slots__ = ('regs', 'vec', 'mem', 'flags', 'ineq', 'eq', 'done', 'out', 'align', 'bits', 'ranges', 'hist', 'nsym',
                 'ip', 'calls', 'cut', 'lowlim', 'path', 'steps')

    def copy(self):
        s = State()
        s.regs = dict(self.regs)
        s.vec = list(self.vec)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.flags = self.flags
        s.ineq = list(self.ineq)
        s.eq = list(self.eq)
        s.done = self.done
        s.out = {k: dict(v) for k, v in self.out.items()}
        s.align = dict(self.align)
        s.bits = dict(self.bits)
        s.ranges = dict(self.ranges)
        s.hist = dict(self.hist)
        s.nsym = self.nsym
        s.ip = self.ip
        s.calls = list(self.calls)
        s.cut = dict(self.cut)
        s.lowlim = dict(self.lowlim)
        s.path = self.path
        s.steps = self.steps
        return s


class Program:
    """A set of objects linked by symbol name."""

    def __init__(self, objs):
        self.objs = objs
        self.sym = {}
        for o in objs:
            for n, (sec, off) in o.globals.items():
                self.sym[n] = (o, sec, off)
        self.contract = {}       # symbol name -> summary (filled by analyses)
        self.contract_names = set()
        self.static_writes = []

    def resolve(self, obj, sym):
        """relocation symbol tuple -> (obj, secidx, off) or None"""
        nm, bind, typ, shndx, val, size = sym
        if typ == 3:
            return (obj, shndx, 0)
        if 0 < shndx < 0xff00:
            return (obj, shndx, val)
        return self.sym.get(nm)


class Analysis:
    """Abstract interpretation of one function."""
    MAXSTEPS = 400000

    def __init__(self, prog, obj, sec, off, name, mode='hash'):
        self.prog, self.obj, self.name, self.mode = prog, obj, name, mode
        self.entry = (obj, sec, off)
        self.viol = []          # (prop, where, message)
        self.seen = set()
        self.undecided = None
        self.exits = []
        self.stats = dict(instructions=0, loads=0, stores=0, output_words=0, loop_heads=0, calls=0, exits=0,
                          traces=0, aligned_checks=0, branches=0)
        self.insns = set()
        self.callees = set()
        self.loopinfo = {}

    # -- reporting --
    def bad(self, prop, x, msg):
        w = self.where(x)
        if self.cur is not None and ('unknown',) in self.cur.path and prop in ('C01', 'C02'):
            # the trace took a branch whose condition has no model: it may not exist
            self.soft = self.soft or '%s (on a path with a condition that is not understood) at %s' % (msg, w)
            return
        if (prop, w, msg) not in self.seen:
            self.seen.add((prop, w, msg))
            self.viol.append((prop, w, msg))

    def where(self, x):
        if x is None:
            return self.name
        o, ins = x
        return '%s (%s)' % (o.where(ins), self.name)

    # -- driver --
    def initial(self):
        s = State()
        s.regs = {r: V(lin=Lin.var(('init', r))) for r in R64}
        s.vec = [None] * 16
        s.mem = {}
        s.flags = ('init',)
        s.ineq = []
        s.eq = []
        s.done = L(0)
        s.out = {}
        s.align = {('stk', 0): (16, 8)}
        s.bits = {}
        s.ranges = {}
        s.hist = {}
        s.nsym = 0
        s.calls = []
        s.cut = {}
        s.lowlim = {}
        s.path = ()
        s.steps = 0
        s.regs['rsp'] = V(lin=Lin.var(('stk', 0)))
        if self.mode == 'hash':
            s.regs['rdi'] = V(lin=Lin.var('OUT'))
            s.regs['rsi'] = V(lin=Lin.var('IN'))
            s.regs['rdx'] = V(lin=Lin.var('N'))
            s.ineq += [Lin.var('N'), L((1 << 58) - 1) - Lin.var('N')]
        s.mem[('stk', 0)] = {0: T.atom(('retaddr', 0)), 4: T.atom(('retaddr', 1))}
        s.ip = self.entry
        return s

    def run(self, setup=None):
        s = self.initial()
        if setup:
            setup(s)
        work = [s]
        try:
            while work:
                s = work.pop()
                self.stats['traces'] += 1
                if self.stats['traces'] > 3000:
                    raise Unsupported('too many traces')
                self.cur = s
                try:
                    self.trace(s, work)
                except Stop:
                    pass
                except Infeasible:
                    pass
        except Unsupported as e:
            self.undecided = str(e)
        self.cur = None
        return self

    cur = soft = None

    def trace(self, s, work):
        while True:
            o, sec, off = s.ip
            x = o.code.get((sec, off))
            if x is None:
                self.bad('C04', None, 'control reaches %s+0x%x, which is not an instruction' % (o.name, off))
                raise Stop()
            s.steps += 1
            if s.steps > self.MAXSTEPS:
                raise Unsupported('step limit at %s' % o.where(x))
            k = (id(o), sec, off)
            if k in self.heads(o, sec):
                if not self.loophead(s, k, (o, x), work):
                    return
            self.stats['instructions'] += 1
            self.insns.add((o, sec, off))
            nxt = (o, sec, x.next)
            r = self.step(s, o, sec, x, nxt, work)
            if r is None:
                return
            s.ip = r

    # -- loop heads: targets of backward jumps --
    def heads(self, o, sec):
        c = getattr(o, '_heads', None)
        if c is None:
            c = set()
            for (sc, a), x in o.code.items():
                if x.mn.startswith('j') and x.ops and x.rel is None:
                    m = re.match(r'^(?:0x)?([0-9a-f]+)$', x.ops[0])
                    if m and int(m.group(1), 16) <= a:
                        c.add((id(o), sc, int(m.group(1), 16)))
            o._heads = c
        return c

    def loophead(self, s, k, x, work):
        """True: continue with s.  False: this trace is absorbed by the loop invariant."""
        k = (k, tuple(s.calls))
        rec = s.cut.get(k)
        if rec is not None:
            if rec.fresh:
                rec.fresh = False
                return True
            self.backedge(s, k, rec, x, work)
            return False
        if k not in s.hist:
            self.flush(s, x, partial_ok=True)
            s.hist[k] = (s.copy(), len(s.path))
            return True
        first, plen = s.hist[k]
        if len(s.path) == plen:   # every branch since was decided by constants: keep unrolling
            return True
        self.flush(s, x)
        self.flush(first, x)
        self.stats['loop_heads'] += 1
        rec = LoopRec(first, s)
        self.generalise(rec, k, x, work)
        return False

    def generalise(self, rec, k, x, work):
        """Put the state  first + delta*kk  (kk = iterations done) at the loop head on the worklist."""
        first, second = rec.first, rec.second
        g = first.copy()
        kk = ('k', sum(1 for p in first.path if p[0] == 'loop') + 1, x[1].addr)
        lk = Lin.var(kk)
        rec.kk = kk
        deltas = {}
        for r in R64:
            a, b = first.regs[r], second.regs[r]
            if r in rec.havoc:
                pass
            elif a == b:
                continue
            elif a.lin is not None and b.lin is not None and (b.lin - a.lin).is_const():
                d = (b.lin - a.lin).k
                g.regs[r] = V(lin=a.lin + lk * d)
                deltas[r] = d
                continue
            else:
                rec.havoc.add(r)
            g.regs[r] = V(lin=Lin.var(('loop', r, x[1].addr)))
        dd = second.done - first.done
        if not dd.is_const():
            raise Unsupported('loop at %s makes non-uniform progress' % x[0].where(x[1]))
        g.done = first.done + lk * dd.k
        for i in range(16):
            if i in rec.vec or first.vec[i] != second.vec[i]:
                rec.vec.add(i)
                g.vec[i] = tuple(T.atom(('loopvec', i, j, x[1].addr)) for j in range(8))
        for reg in set(first.mem) | set(second.mem):
            fa, fb = first.mem.get(reg, {}), second.mem.get(reg, {})
            for off in set(fa) | set(fb):
                if (reg, off) in rec.mem or fa.get(off) != fb.get(off):
                    rec.mem.add((reg, off))
                    g.mem.setdefault(reg, {})[off] = T.atom(('loopmem', str(reg), off, x[1].addr))
        g.flags = ('init',)
        g.ineq = list(first.ineq) + [lk]
        g.eq = list(first.eq)
        if rec.cands is None:
            exprs = {}
            e = Lin.var('N') - g.done
            exprs[e.key()] = (e, Lin.var('N') - first.done)
            for r in deltas:
                e = g.regs[r].lin
                if not any(is_ptr(v) for v in e.c):
                    exprs[e.key()] = (e, first.regs[r].lin)
                    e2 = Lin.var('N') - e
                    exprs[e2.key()] = (e2, Lin.var('N') - first.regs[r].lin)
            rec.cands = [[e] + list(self.bnd(first, e0)) for e, e0 in exprs.values()]
        for e, lo, hi in rec.cands:
            if lo > -INF:
                g.ineq.append(e - int(lo))
            if hi < INF:
                g.ineq.append(L(int(hi)) - e)
        g.cut[k] = rec
        g.path = first.path + (('loop', x[1].addr),)
        g.steps = 0
        rec.head = g.copy()
        rec.fresh = True
        rec.mark = (len(self.viol), set(self.seen), len(self.exits))
        self.loopinfo[k] = dict(at=x[0].where(x[1]), progress=str(g.done), bounds=['%s in [%s,%s]' % (e, lo, hi) for e, lo, hi in rec.cands])
        work.append(g)

    def backedge(self, s, k, rec, x, work):
        self.flush(s, x)
        head, kk = rec.head, rec.kk
        sub = {kk: Lin.var(kk) + 1}
        change = False
        for r in R64:
            if r in rec.havoc:
                continue
            hv = head.regs[r]
            if hv.lin is not None and s.regs[r].lin is not None:
                ok = self.eq0(s, hv.lin.subst(sub) - s.regs[r].lin)
            else:
                ok = hv == s.regs[r]
            if not ok:
                rec.havoc.add(r)
                change = True
        if not self.eq0(s, head.done.subst(sub) - s.done):
            raise Unsupported('progress of the loop at %s is not affine' % x[0].where(x[1]))
        for i in range(16):
            if i not in rec.vec and head.vec[i] != s.vec[i]:
                rec.vec.add(i)
                change = True
        for reg in set(head.mem) | set(s.mem):
            fa, fb = head.mem.get(reg, {}), s.mem.get(reg, {})
            for off in set(fa) | set(fb):
                if (reg, off) not in rec.mem and fa.get(off) != fb.get(off):
                    rec.mem.add((reg, off))
                    change = True
        for c in rec.cands:
            lo, hi = self.bnd(s, c[0].subst(sub))
            if lo < c[1]:
                c[1] = (0 if lo >= 0 else lo) if rec.n < 3 else -INF
                change = True
            if hi > c[2]:
                c[2] = hi if rec.n < 3 else INF
                change = True
        if change:
            rec.n += 1
            if rec.n > 12:
                raise Unsupported('loop at %s does not stabilise' % x[0].where(x[1]))
            # everything found below the too-strong invariant belongs to descendants of its head (depth-first): drop it
            m = rec.mark
            del self.viol[m[0]:]
            self.seen = set(m[1])
            del self.exits[m[2]:]
            work[:] = [t for t in work if t.cut.get(k) is not rec]
            self.generalise(rec, k, x, work)

    # -- facts --
    def bnd(self, s, e):
        return bounds(e, s.ineq, s.eq)

    def eq0(self, s, e):
        e = L(e)
        if e.is_const():
            return e.k == 0
        return entails_eq0(e, s.ineq, s.eq)

    def ge0(self, s, e):
        return entails_ge0(e, s.ineq, s.eq)

    # -- operands --
    def addr(self, s, o, sec, x, op):
        """effective address of a memory operand as Lin; (lin, size in bits)"""
        m = re.match(r'^(?:(\w+) PTR )?(?:[c-g]s:)?(?:\[(.*)\]|(0x[0-9a-f]+))$', op)
        if not m:
            raise Unsupported('operand %s at %s' % (op, o.where(x)))
        size = SIZES.get(m.group(1), 0)
        body = m.group(2) if m.group(2) is not None else m.group(3)
        if 'fs:' in op or 'gs:' in op:
            raise Unsupported('segment access at %s' % o.where(x))
        e = L(0)
        rip = False
        for sg, t in re.findall(r'([+-]?)([^+-]+)', body):
            neg = sg == '-'
            if t == 'rip':
                rip = True
                continue
            mm = re.match(r'^(\w+)\*(\d)$', t)
            if t in REG or mm:
                self.noclob(s.regs[REG[mm.group(1) if mm else t][0]], o, x)
            if mm:
                e = e + self.lin(s, s.regs[REG[mm.group(1)][0]], o, x) * int(mm.group(2))
            elif t in REG:
                if REG[t][1] != 64:
                    raise Unsupported('32-bit addressing at %s' % o.where(x))
                e = e + self.lin(s, s.regs[REG[t][0]], o, x)
            else:
                v = int(t, 0)
                e = e + (-v if neg else v)
        if x.rel is not None:
            roff, typ, sym, add = x.rel
            base = self.symaddr(o, sym)
            if rip:
                if typ in (2, 4, 9, 41, 42):
                    if typ in (9, 41, 42):     # GOT slot: loading from it yields the symbol's address
                        return ('got', base), size
                    e = base + (add + (x.next - roff)) + (e - e.k if False else 0)
                else:
                    raise Unsupported('relocation %d at %s' % (typ, o.where(x)))
            elif typ in (10, 11):
                # the displacement field holds the addend for RELA objects (0 in the text)
                e = e + base + add
            else:
                raise Unsupported('relocation %d at %s' % (typ, o.where(x)))
        elif rip:
            tgt = x.next + e.k
            e = Lin.var(('sec', id(o), sec)) + tgt
            self.secmap[('sec', id(o), sec)] = (o, sec)
        return e, size

    secmap = {}

    def symaddr(self, o, sym):
        r = self.prog.resolve(o, sym)
        if r is None:
            return Lin.var(('fn', sym[0]))
        ob, sc, off = r
        if ob.sections[sc].exec:
            nm = sym[0]
            if sym[2] == 3 or not nm:
                nm = ob.labels.get((sc, off), '%s+%x' % (ob.name, off))
            return Lin.var(('fn', nm))
        key = ('sec', id(ob), sc)
        self.secmap[key] = (ob, sc)
        return Lin.var(key) + off

    def lin(self, s, v, o, x):
        """value as a linear expression (opaque symbol if it is data)"""
        if v.lin is not None:
            return v.lin
        lo, hi = v.q
        if hi.const() == 0:
            at = single_atom(lo)
            if at is not None and at in s.ranges:
                a, b = s.ranges[at]
                if b - a <= 64:
                    raise NeedEnum(at, a, b)
        return Lin.var(('data', lo.key(), hi.key()))

    def noclob(self, v, o, x):
        """using a register after a call that does not preserve it"""
        for t in (v.q or ()) if isinstance(v, V) else (v,):
            at = single_atom(t)
            if isinstance(at, tuple) and at and at[0] == 'clob':
                what = 'stack memory below the stack pointer' if at[1] == 'stack' else at[1]
                self.bad('C04', (o, x), 'relies on the value of %s across a call to a routine that does not preserve it' % what)
                return

    def is_mem(self, op):
        return '[' in op or re.match(r'^(\w+ PTR )?[c-g]s:', op) is not None

    # -- memory --
    def region(self, s, e):
        ptrs = [v for v in e.c if is_ptr(v)]
        if len(ptrs) != 1 or e.c[ptrs[0]] != 1:
            return None, None
        return ptrs[0], e - Lin.var(ptrs[0])

    def aligned(self, s, ptr, rest, n):
        if ptr in ('IN', 'OUT', None, 'THIS'):
            return False
        if ptr[0] == 'sec':
            ob, sc = self.secmap[ptr]
            base = (ob.sections[sc].align, 0)
        else:
            base = s.align.get(ptr, (1, 0))
        if base[0] % n:
            return False
        return all(a % n == 0 for a in rest.c.values()) and (base[1] + rest.k) % n == 0

    def access(self, s, o, x, e, nbytes, write, need_align):
        """common checks; returns (ptr, rest) or raises Stop"""
        self.stats['stores' if write else 'loads'] += 1
        ptr, rest = self.region(s, e)
        xx = (o, x)
        verb = 'writes' if write else 'reads'
        if ptr is None:
            self.bad('C02', xx, '%s memory through %s, which is no pointer into the input, the output, the frame or a table' % (verb, x.text))
            raise Stop()
        if need_align:
            self.stats['aligned_checks'] += 1
            if not self.aligned(s, ptr, rest, need_align):
                self.bad('C02', xx, '%s requires a %d-byte aligned address but %s+(%s) is not known to be aligned' % (x.mn, need_align, pname(ptr), rest))
        if ptr == 'IN' or ptr == 'OUT':
            tot = Lin.var('N') * (64 if ptr == 'IN' else 32)
            if ptr == 'IN' and write:
                self.bad('C02', xx, 'writes into the input buffer')
                raise Stop()
            if not (self.ge0(s, rest) and self.ge0(s, tot - rest - nbytes)):
                self.bad('C02', xx, '%s %d bytes at %s+(%s), outside the %d*n bytes of the buffer' % (verb, nbytes, pname(ptr), rest, 64 if ptr == 'IN' else 32))
        elif ptr == 'THIS':
            if not rest.is_const():
                raise Unsupported('object access at %s' % o.where(x))
        elif ptr[0] in ('stk', 'al'):
            if not rest.is_const():
                self.bad('C02', xx, '%s the stack at a variable offset %s' % (verb, rest))
                raise Stop()
            if rest.k + nbytes > 0:
                self.bad('C02', xx, '%s the stack at offset %d from the frame base, outside its own frame' % (verb, rest.k))
                if write:
                    self.bad('C04', xx, 'overwrites the caller\'s stack (offset %d from the frame base)' % rest.k)
                raise Stop()
            lim = s.lowlim.get(ptr)
            if lim is not None and rest.k < lim:
                raise Unsupported('stack slot below a realigned frame at %s' % o.where(x))
            rsp = s.regs['rsp'].lin
            if rsp is not None:
                d = Lin.var(ptr) + rest - rsp
                if d.is_const() and d.k < -128:
                    self.bad('C02', xx, '%s memory %d bytes below the stack pointer' % (verb, -d.k))
        elif ptr[0] == 'sec':
            ob, sc = self.secmap[ptr]
            S = ob.sections[sc]
            if write:
                self.prog.static_writes.append((o.where(x), ob.name, S.name))
                self.bad('C03', xx, 'writes storage shared by all calls (%s of %s)' % (S.name, ob.name))
                self.bad('C02', xx, 'writes outside its frame and the output (%s of %s)' % (S.name, ob.name))
            if not rest.is_const():
                raise Unsupported('variable index into %s at %s' % (S.name, o.where(x)))
            if rest.k < 0 or rest.k + nbytes > S.size:
                self.bad('C02', xx, '%s outside the constant table %s of %s' % (verb, S.name, ob.name))
                raise Stop()
        elif ptr[0] == 'fn':
            self.bad('C02', xx, '%s code of %s' % (verb, ptr[1]))
            raise Stop()
        return ptr, rest

    def dword(self, s, o, x, ptr, rest):
        """little-endian dword at ptr+rest (any alignment)"""
        mis = rest.k % 4
        if mis:
            lo, hi = self.dword(s, o, x, ptr, rest - mis), self.dword(s, o, x, ptr, rest - mis + 4)
            return T.bor(T.shr(lo, 8 * mis), T.shl(hi, 32 - 8 * mis))
        if ptr == 'IN':
            sym = Lin({v: a for v, a in rest.c.items()})
            if all(a % 64 == 0 for a in sym.c.values()):
                blk = Lin({v: a // 64 for v, a in sym.c.items()}, rest.k // 64)
                return T.atom(('in', blk.key(), rest.k % 64 // 4))
            return T.atom(('inraw', rest.key()))
        if ptr == 'OUT':
            key = Lin(rest.c).key()
            if key in s.out and rest.k in s.out[key]:
                return s.out[key][rest.k]
            self.bad('C02', (o, x), 'reads output bytes it has not written')
            return T.atom(('outraw', rest.key()))
        m = s.mem.setdefault(ptr, {})
        if rest.k in m:
            return m[rest.k]
        if ptr != 'THIS' and ptr[0] == 'sec':
            ob, sc = self.secmap[ptr]
            S = ob.sections[sc]
            for d in (0, 4):
                if rest.k - d in S.rels:
                    typ, sym, add = S.rels[rest.k - d]
                    if typ == 1:
                        v = V(lin=self.symaddr(ob, sym) + add)
                        return halves(v)[0 if d == 0 else 1]
            if any(w[1] == ob.name and w[2] == S.name for w in self.prog.static_writes) and False:
                return T.atom(('static', ob.name, S.name, rest.k))
            b = S.data[rest.k:rest.k + 4]
            return T.const(int.from_bytes(b.ljust(4, b'\0'), 'little'))
        t = T.atom(('uninit', str(ptr), rest.k))
        m[rest.k] = t
        return t

    def load(self, s, o, x, e, nbytes, need_align=0):
        """list of dword terms (last one masked when nbytes < 4)"""
        if isinstance(e, tuple):
            return list(halves(V(lin=e[1])))
        ptr, rest = self.access(s, o, x, e, nbytes, False, need_align)
        out = []
        for i in range(0, nbytes, 4):
            t = self.dword(s, o, x, ptr, rest + i)
            if nbytes - i < 4:
                t = T.mask(t, (1 << (8 * (nbytes - i))) - 1)
            out.append(t)
        return out

    def store(self, s, o, x, e, nbytes, words, need_align=0):
        ptr, rest = self.access(s, o, x, e, nbytes, True, need_align)
        if ptr == 'OUT':
            tgt = s.out.setdefault(Lin(rest.c).key(), {})
            self.stats['output_words'] += (nbytes + 3) // 4
            if rest.k % 4 or nbytes % 4:
                raise Unsupported('partial output word at %s' % o.where(x))
            for i in range(0, nbytes, 4):
                tgt[rest.k + i] = words[i // 4]
            return
        m = s.mem.setdefault(ptr, {})
        k = rest.k
        if k % 4 == 0 and nbytes % 4 == 0:
            for i in range(0, nbytes, 4):
                m[k + i] = words[i // 4]
            return
        for b in range(nbytes):
            a = k + b
            base = a - a % 4
            old = self.dword(s, o, x, ptr, Lin({}, base))
            bt = T.mask(T.rotl(words[b // 4], 8 * ((a % 4) - (b % 4))), 0xff << (8 * (a % 4)))
            m[base] = T.xor(T.mask(old, T.M32 ^ (0xff << (8 * (a % 4)))), bt)

    # -- output obligations --
    def flush(self, s, x, partial_ok=False):
        if not s.out:
            return
        base = s.done * 32
        bytes_ = {}
        for key, d in s.out.items():
            sym = Lin(dict(key[0]), key[1])
            rel0 = sym - base
            for off, t in d.items():
                r = rel0 + off
                if not r.is_const():
                    lo, hi = self.bnd(s, r)
                    if lo != hi:
                        if partial_ok:
                            return
                        self.bad('C02', x, 'output written at byte %s, not at the next block %s' % (sym + off, s.done))
                        self.bad('C01', x, 'digest stored at byte %s, not at the next block %s' % (sym + off, s.done))
                        s.out = {}
                        raise Stop()
                    r = L(int(lo))
                bytes_[r.k] = t
        n = len(bytes_)
        if set(bytes_) != set(range(0, 4 * n, 4)) or n % 8:
            if partial_ok:
                return
            lo = [k for k in sorted(bytes_) if k < 0 or k >= 4 * n]
            miss = [k for k in range(0, (4 * n + 31) // 32 * 32, 4) if k not in bytes_]
            self.bad('C02', x, 'output of this pass does not cover whole consecutive digests (words at %s, missing %s relative to block %s)' % (lo[:4], miss[:4], s.done))
            self.bad('C01', x, 'some digest words of the blocks from %s are not stored in their place' % s.done)
            s.out = {}
            raise Stop()
        for j in range(n // 8):
            blk = s.done + j
            want = spec_digest(blk)
            for i in range(8):
                got = bytes_[32 * j + 4 * i]
                self.stats['digest_words'] = self.stats.get('digest_words', 0) + 1
                if got != want[i]:
                    bogus = [a for a in T.atoms_of(got) if a[0] in ('top',)]
                    if bogus:
                        raise Unsupported('digest word depends on an unmodelled value')
                    other = sorted({pretty_atom(a) for a in T.atoms_of(got) if not (a[0] == 'in' and a[1] == blk.key())})
                    self.bad('C01', x, 'digest word %d of block %s is not the SHA-256 word of that block%s' % (i, blk, (': it depends on ' + ', '.join(other[:4])) if other else ''))
                    break
        s.done = s.done + n // 8
        s.out = {}


class NeedEnum(Exception):
    def __init__(self, at, lo, hi):
        self.at, self.lo, self.hi = at, lo, hi


def pname(p):
    return {'IN': 'input', 'OUT': 'output'}.get(p, 'static data' if p and p[0] == 'sec' else 'stack')


def pretty_atom(a):
    if a[0] == 'in':
        return 'input word %d of block %s' % (a[2], Lin(dict(a[1][0]), a[1][1]))
    if a[0] == 'uninit':
        return 'uninitialised stack slot %s' % a[2]
    if a[0] == 'initvec':
        return 'xmm%d at entry' % a[1]
    if a[0] == 'clob':
        return 'register %s clobbered by a call' % (a[1],)
    return str(a)[:60]


_spec = {}


def spec_digest(blk):
    k = blk.key()
    if k not in _spec:
        _spec[k] = T.sha256_64([T.atom(('in', k, i)) for i in range(16)])
    return _spec[k]
