"""C26: serialization writes the canonical SSZ layout. C23: deserialization accepts the canonical layout and stores the value it encodes."""
import re
from . import spec
from .lab import *
from .c_containers import each, check_serialize, check_deserialize, retbool, words, word_at, CAP, cxx_size
from .c_parse import N, accepting, all_presets, bytesym, deser, fam, fill_list, is_list, isbit, vecfields, with_limit, LIM, ctor_with_limit
from .c_tree import constructors
from .dom import Cond, Tab
from ..poly import Lin
from ..report import NotDecided

NOTE = lambda *a: None


def kind(name):
    s = name.replace('eth::', '')
    if s == 'Bitlist':
        return 'Bitlist', 0
    g = re.match(r'^(Bytes|Bitvector)<(\d+)>$', s)
    if g:
        return g.group(1), int(g.group(2))
    g = re.match(r'^VectorFixedSizedParts<.*, (\d+)>$', s)
    if g:
        return 'Vector', int(g.group(1))
    if s.startswith('ListFixedSizedParts'):
        return 'List', 0
    if s.startswith('ListVariableSizedParts'):
        return 'VarList', 0
    if s in ('Slot', 'Boolean'):
        return s, 8 if s == 'Slot' else 1
    return None, 0


def datafields(m, rk):
    return [(n, t) for n, t in m.fields(rk) if 'limit' not in n]


def cap(m):
    m.max_len = CAP


def few(m):
    m.max_len = 1 << 20       # many elements: together below 2^32


def seg_elems(m, v):
    out = []
    for g in v.segs:
        if g[0] == 'e':
            out.append(g[1])
        elif g[0] in ('op', 'fill'):
            n = m.conc(m.lin(g[3] if g[0] == 'op' else g[2]))
            if not isinstance(n, int):
                return None
            p = m.alloc('seg', VecV(v.el, [g]))
            out += [m.get(p + i) for i in range(n)]
        else:
            return None
    return out


# ---------------------------------------------------------------- C26
def run_list(lab, rk, fk, n):
    """serialize on a list of exactly n elements"""
    return lab.run(fk, rk, peel=3, prep=lambda m, a: fill_list(m, rk, n), setup=cap if n < 60 else few)


def bits_byte(names):
    return Lin({b: 1 << i for i, b in enumerate(names)}, 0)


def verdict(r, o, key, where, msg, wrong, certain):
    """wrong: the layout differs; certain: on some real input"""
    if not wrong:
        return
    if certain and exact(o):
        r.bad(key, where, msg)
    else:
        r.undecided.append(msg)


def same(m, a, b):
    """True, False (provably different on some input) or None"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, (ByteOf, TermV)) or isinstance(b, (ByteOf, TermV)):
        if a == b:
            return True
        if type(a) is type(b) and isinstance(a, ByteOf) and a.lin == b.lin and a.i != b.i:
            return False
        if isinstance(a, ByteOf) and isinstance(b, int) or isinstance(b, ByteOf) and isinstance(a, int):
            return False if (a if isinstance(a, int) else b) >= 0 and True else None
    c = m.compare('==', a, b)
    d = m.decide(m.tocond(c)) if not isinstance(c, bool) else c
    if d is True:
        return True
    if d is False:
        return False
    c = m.tocond(c)
    if c.op == 'eq' and m.st.refuted_eq0(c.a):
        return False
    if c.op == 'tab':
        return False        # the table has entries of both kinds inside the domain
    return None


def c26(repo, work, r, thorough):
    ncont = nlist = nleaf = nbytes = 0
    for preset in front.PRESETS:
        lab = Lab(repo, work, preset)
        for F in each(lab, r):
            with shield(r, F.name):
                ncont += bool(check_serialize(lab, F, r, r.bad, r.bad))
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            k, size = kind(name)
            if k is None or size > 1024:
                continue
            fk = lab.impl(rk, 'serialize')
            if fk is None or 'body' not in lab.P.funcs.get(fk, {}):
                r.undecided.append(name + '::serialize has no body')
                continue
            w = lab.where_fn(fk)
            short = name.replace('eth::', '').split('<')[0]
            what = name + '::serialize'
            counts = {'List': (0, 1, 2, 3, 257) if not thorough else list(range(7)) + [257], 'VarList': (0, 1, 2, 3, 65) if not thorough else list(range(6)) + [65],
                      'Bitlist': list(range(10)) + [15, 16, 17, 24, 257, 2048] + ([31, 32, 33, 64] if thorough else [])}.get(k, (None,))
            for cnt in counts:
                if cnt is None:
                    m, outs = lab.run(fk, rk, peel=3, setup=cap)
                else:
                    m, outs = run_list(lab, rk, fk, cnt)
                for u in gaveup(outs):
                    r.undecided.append('%s: %s' % (what, lab.rel(u)))
                for o in outs:
                    if o.kind == 'throw' and exact(o):
                        r.undecided.append('%s throws' % what)
                    if o.kind != 'ret':
                        continue
                    at(m, o)
                    v = o.val
                    if not isinstance(v, VecV):
                        r.undecided.append('%s: result %s' % (what, v))
                        continue
                    if k in ('List', 'VarList', 'Vector'):
                        nlist += 1
                        ws = words(v.segs, m)
                        if ws is None and k == 'Vector':
                            ws = words([g for g in v.segs], m)
                        if ws is None:
                            r.undecided.append('%s: bytes not understood' % what)
                            continue
                        n = size if k == 'Vector' else cnt
                        got = [x[1] if x[0] == 'ser' else '<offset>' for x in ws]
                        base = (lambda i: 'el%d' % i) if k != 'Vector' else None
                        if base is None:
                            fl = datafields(m, rk)
                            if len(fl) != 1:
                                r.undecided.append('%s: several members' % what)
                                continue
                            base = lambda i: 'this.%s._M_elems[%d]' % (fl[0][0], i)
                        want = (['<offset>'] * n if k == 'VarList' else []) + [base(i) for i in range(n)]
                        if got != want:
                            verdict(r, o, 'layout:' + short, w, '%s writes %s for %d elements instead of %s' % (what, got[:6], n, want[:6]), True, True)
                            continue
                        exp = poly.L(4 * n)
                        lens = [x[2] for x in ws if x[0] == 'ser']
                        for i, x in enumerate([x[1] for x in ws if x[0] == 'word']):
                            if not o.st.eq0(exp - x):
                                verdict(r, o, 'offset:' + short, w, '%s: offset number %d is %s instead of %s' % (what, i, x, exp), True, o.st.refuted_eq0(exp - x))
                                break
                            exp = exp + lens[i]
                        nbytes += len(ws)
                        continue
                    nleaf += 1
                    bs = seg_elems(m, v)
                    if bs is None:
                        r.undecided.append('%s: bytes not understood' % what)
                        continue
                    fl = datafields(m, rk)
                    if len(fl) != 1:
                        r.undecided.append('%s: several members' % what)
                        continue
                    f0 = fl[0][0]
                    if k == 'Bytes':
                        want = [m.get(Ptr('this', (f0, '_M_elems', i))) for i in range(size)]
                    elif k == 'Bitvector':
                        names = [m.get(Ptr('this', (f0, '_M_elems', i))) for i in range(size)]
                        want = [sum((poly.L(m.lin(b)) * (1 << i) for i, b in enumerate(names[j:j + 8])), poly.L(0)) for j in range(0, size, 8)]
                    elif k == 'Bitlist':
                        names = ['bit%d' % i for i in range(cnt)]
                        want = [bits_byte(names[j:j + 8]) for j in range(0, cnt + 1, 8)]
                        want[cnt // 8] = want[cnt // 8] + (1 << (cnt % 8))
                    elif k == 'Boolean':
                        want = [m.get(Ptr('this', (f0,)))]
                    else:
                        val = m.get(Ptr('this', (f0,)))
                        want = [ByteOf(val, 8, i) for i in range(8)]
                    if len(bs) != len(want):
                        verdict(r, o, 'length:' + short, w, '%s writes %d bytes instead of %d' % (what, len(bs), len(want)), True, True)
                        continue
                    for i, (a, b) in enumerate(zip(bs, want)):
                        if isinstance(b, Lin) and b.is_const():
                            b = b.k
                        s = same(m, a, b)
                        nbytes += 1
                        if s is not True:
                            verdict(r, o, 'bytes:' + short, w, '%s%s: byte %d is %s, the canonical encoding has %s' % (what, '' if cnt is None else ' of %d bits' % cnt, i, a, b), True, s is False)
                            break
    r.coverage.update(containers=ncont, sequence_traces=nlist, leaf_traces=nleaf, bytes_or_parts_compared=nbytes)
    if not ncont or not nlist or not nleaf:
        raise NotDecided('nothing analysed')


# ---------------------------------------------------------------- C23
def minsize(preset, t):
    s = spec.size(preset, t)
    if s:
        return s
    if isinstance(t, str):
        return sum(spec.size(preset, x) or 4 + minsize(preset, x) for _, x in spec.CONTAINERS[t])
    return 1 if t[0] == 'Bitlist' else 0


def maxlen(preset, t):
    """(minimum, step, number of steps) of lengths an encoding of a variable-size part surely can have"""
    if not isinstance(t, str) and t[0] == 'List' and spec.size(preset, t[1]):
        return 0, spec.size(preset, t[1]), spec.const(preset, t[2])
    if not isinstance(t, str) and t[0] == 'Bitlist':
        return 1, 1, spec.const(preset, t[1]) // 8
    return minsize(preset, t), 1, 0


def excused(m, o):
    """the trace is one on which a nested part did not parse"""
    return any(e[0] in ('deser', 'ydecode') and m.decide(e[4]) is not True for e in o.st.events) or any(e[0] == 'caught' for e in o.st.events)


def rejects(outs):
    return [o for o in outs if o.kind == 'throw' or o.kind == 'ret' and o.val is False]


def satisfiable(o, ge, eq):
    """an input of this trace that has the canonical layout"""
    return o.st.point(ge=ge, eq=eq, budget=1500) is not None


def accept_container(lab, F, r):
    """no input with the canonical layout is rejected for another reason than a part's failure"""
    fk = lab.impl(F.rk, 'deserialize')
    m, outs = lab.run(fk, F.rk, post=retbool)
    lay, fixed = F.leaves(lab.preset)
    types = dict(F.spec)
    n = 0
    for o in rejects(outs):
        if not exact(o) or o.st.meta.get('#summ'):
            continue
        at(m, o)
        n += 1
        if excused(m, o):
            continue
        vars_ = [x for x in lay if x[3]]
        if not vars_:
            ge, eq = [], [N - fixed]
        else:
            ge, eq = [], []
            prev = poly.L(fixed)
            for i, (f, off, _, _) in enumerate(vars_):
                wd = word_at(m, o.st, off)
                if wd is None:
                    # never read on this trace: free
                    o.st.declare('off%d' % off, 0, (1 << 32) - 1)
                    wd = Lin.var('off%d' % off)
                eq.append(wd - prev)
                mn, step, k = maxlen(lab.preset, types[f])
                o.st.declare('len%d' % off, 0, max(0, min(k, 40)))
                prev = wd + Lin.var('len%d' % off) * step + mn
            eq.append(N - prev)
        if satisfiable(o, ge, eq):
            r.bad('rejects:' + F.name, lab.where_fn(fk), '%s::deserialize rejects an input with the canonical layout whose parts all parse' % F.name)
    return n


def list_builder(lab, rk, how):
    if how == 'unlimited':
        ck = ctor_with_limit(lab, rk)

        def build(m):
            return m.construct(ck, lab.P.funcs[ck], [0], 'R:' + rk)
        return build if ck else None
    return with_limit(lab, rk, how)


def c23(repo, work, r, thorough):
    # the two halves of the round trip: serialize() gives the canonical encoding, deserialize() inverts it
    try:
        c26(repo, work, r, False)
    except NotDecided as e:
        r.undecided.append(str(e))
    inverts(repo, work, r, thorough)


def inverts(repo, work, r, thorough):
    nacc = nrej = nval = ncont = 0
    for preset in front.PRESETS if thorough else ('mainnet',):
        lab = Lab(repo, work, preset)
        for F in each(lab, r):
            with shield(r, F.name):
                ncont += bool(check_deserialize(lab, F, r, r.bad))
                if not F.miss:
                    nrej += accept_container(lab, F, r)
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            k, size = kind(name)
            if k is None or size > 1024:
                continue
            short = name.replace('eth::', '').split('<')[0]
            for how in (('constructor', 'unlimited') if is_list(name) else (None,)):
                kw = {}
                if how:
                    b = list_builder(lab, rk, how)
                    if b is None:
                        continue
                    kw = dict(this=b)
                d = deser(lab, r, rk, name, {'Bitlist': 9}.get(k, 5 if thorough else 3), **kw)
                if not d:
                    continue
                fk, m, outs = d
                w = lab.where_fn(fk)
                what = name + '::deserialize'
                lim = LIM if how == 'constructor' else None
                for o in accepting(outs):
                    at(m, o)
                    nacc += 1
                    nval += stored(lab, m, o, r, rk, k, size, what, short, w)
                for o in rejects(outs):
                    if not exact(o):
                        continue
                    at(m, o)
                    nrej += 1
                    if excused(m, o):
                        continue
                    if canonical(m, o, k, size, lim, lab, rk):
                        r.bad('rejects:' + short, w, '%s rejects an input with the canonical layout whose parts all parse%s' % (what, '' if lim is None else ' and that is within the limit'))
    r.coverage.update(containers=ncont, accepting_traces=nacc, rejecting_traces=nrej, values_compared=nval)
    if not ncont or not nacc or not nrej:
        raise NotDecided('nothing analysed')


def elem_size(lab, m, rk):
    """SSZ size of a list's elements (0 variable), or None"""
    r = lab.P.records[rk]
    ek = m.reckey((r.get('targs') or [None])[0] or '')
    return cxx_size(lab, ek, {}) if ek else None


def canonical(m, o, k, size, lim, lab, rk):
    st = o.st
    if k in ('Bytes', 'Slot'):
        return satisfiable(o, [], [N - size])
    if k == 'Vector':
        n = cxx_size(lab, rk, {})
        return bool(n) and satisfiable(o, [], [N - n])
    if k == 'List':
        es = elem_size(lab, m, rk)
        if not es:
            return False
        st.declare('count', 0, 1 << 20)
        c = Lin.var('count')
        return satisfiable(o, [lim - c] if lim is not None else [], [N - c * es])
    if k == 'VarList':
        # number of elements up to three, each of one plausible length
        if satisfiable(o, [], [N]):
            return True
        es = elem_min(lab, m, rk)
        for c in (1, 2, 3):
            eq, cur = [], poly.L(4 * c)
            for i in range(c):
                wd = word_at(m, st, 4 * i)
                if wd is None:
                    st.declare('off%d' % (4 * i), 0, (1 << 32) - 1)
                    wd = Lin.var('off%d' % (4 * i))
                eq.append(wd - cur)
                cur = cur + es
            eq.append(N - cur)
            if satisfiable(o, [lim - c] if lim is not None else [], eq):
                return True
        return False
    # bits: the last byte decides
    if k == 'Boolean' or k == 'Bitvector':
        nb = (size + 7) // 8
        if not st.feasible_with([], [N - nb]):
            return False
        pos = nb - 1
        ok = (lambda x: x <= 1) if k == 'Boolean' else (lambda x: size % 8 == 0 or not x >> (size % 8))
    else:
        if not st.feasible_with([N - 1]):
            return False
        pos = None
        ok = lambda x: x != 0
    st.add_ge(N - 1)
    if pos is not None:
        st.add_eq(N - (pos + 1))
    last = m.get(Ptr('buf', (pos if pos is not None else N - 1,)))
    t = m.astab(last)
    if t is None:
        return False
    dom = [x for x in m.domain(t.sym) if ok(t.f[x])]
    if k != 'Bitlist':
        return bool(dom) and satisfiable(o, [], [N - (pos + 1)])
    for x in dom:
        ge = [N - 1] if lim is None else [lim - (N - 1) * 8 - (t.f[x].bit_length() - 1), N - 1]
        if satisfiable(o, ge, [Lin.var(t.sym) - x]):
            return True
    return False


def elem_min(lab, m, rk):
    """a length that elements of the variable-size class surely can have"""
    r = lab.P.records[rk]
    ek = m.reckey((r.get('targs') or [None])[0] or '')
    name = (lab.P.records[ek].get('name') or '').replace('eth::', '') if ek else ''
    return minsize(lab.preset, name) if name in spec.CONTAINERS else 64


def stored(lab, m, o, r, rk, k, size, what, short, w):
    """the accepted value is the one the bytes encode; returns the number of values compared"""
    st = o.st
    fl = datafields(m, rk)
    if len(fl) != 1:
        r.undecided.append('%s: several members' % what)
        return 0
    f0 = fl[0][0]
    if k == 'Slot':
        v, e = m.get(Ptr('this', (f0,))), word_at(m, st, 0, n=8)
        if e is None or not isinstance(v, Lin):
            if isinstance(v, (int, Lin)) and exact(o):
                r.bad('value:' + short, w, '%s stores %s, which is not read from the 8 bytes' % (what, v))
            else:
                r.undecided.append('%s: value %s' % (what, str(v)[:60]))
            return 0
        if not st.eq0(v - e):
            verdict(r, o, 'value:' + short, w, '%s stores %s instead of the little-endian number' % (what, v), True, st.refuted_eq0(v - e))
        return 1
    if k == 'Bytes':
        for i in range(size):
            a, b = m.get(Ptr('this', (f0, '_M_elems', i))), m.get(Ptr('buf', (i,)))
            s = same(m, a, b)
            if s is not True:
                verdict(r, o, 'value:' + short, w, '%s stores %s as byte %d' % (what, a, i), True, s is False)
                break
        return size
    if k in ('Boolean', 'Bitvector'):
        for i in range(size):
            v = m.get(Ptr('this', (f0,)) if k == 'Boolean' else Ptr('this', (f0, '_M_elems', i)))
            b = isbit(m, v, m.get(Ptr('buf', (i // 8,))), i % 8)
            if b is None:
                r.undecided.append('%s: bit %d is %s' % (what, i, str(v)[:60]))
                break
            if not b:
                verdict(r, o, 'value:' + short, w, '%s does not store bit %d of byte %d as bit %d' % (what, i % 8, i // 8, i), True, True)
                break
        return size
    if k == 'Bitlist':
        return 0        # C13 compares the bits
    # sequences: element i comes from the i-th part
    if k == 'Vector':
        els = [m.get(Ptr('this', (f0, '_M_elems', i))) for i in range(size)]
    else:
        v = m.get(Ptr('this', (f0,)))
        els = seg_elems(m, v) if isinstance(v, VecV) else None
        if els is None:
            r.undecided.append('%s: elements not understood' % what)
            return 0
    es = elem_size(lab, m, rk)
    n = len(els)
    for i, x in enumerate(els):
        src = st.meta.get(('des', x.name)) if isinstance(x, LazyV) else None
        if src is None or src[0] != 'buf':
            if isinstance(x, LazyV) and x.name.startswith('this.') and exact(o):
                r.bad('value:' + short, w, '%s returns true without having read element %d' % (what, i))
            else:
                r.undecided.append('%s: element %d is %s' % (what, i, str(x)[:60]))
            return i
        _, a, b = src
        if k == 'VarList':
            ea = word_at(m, st, 4 * i)
            eb = word_at(m, st, 4 * i + 4) if i + 1 < n else N
            if ea is None or eb is None:
                r.undecided.append('%s: offsets' % what)
                return i
        elif es:
            ea, eb = poly.L(i * es), poly.L((i + 1) * es)
        else:
            return i
        for got, want in ((a, ea), (b, eb)):
            if not st.eq0(poly.L(got) - want):
                verdict(r, o, 'part:' + short, w, '%s reads element %d from [%s, %s) instead of [%s, %s)' % (what, i, a, b, ea, eb), True, st.refuted_eq0(poly.L(got) - want))
                return i
    return n
