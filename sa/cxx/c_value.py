"""C28: operations on values of the basic types and sequences are exact."""
import re
from . import front
from .lab import *
from .c_containers import retbool
from .c_layout import datafields, same
from .c_equal import equal
from .c_parse import MEMTAGS
from .dom import Cond
from .. import poly
from ..report import NotDecided

LEN = 3         # elements of the sequences


def byte(m, obj, i):
    """byte i of the value obj refers to, at entry"""
    return m.entry[obj][i]


def entry_bytes(m, p, tk):
    rk = m.reckey(tk)
    fl = datafields(m, rk)
    if len(fl) != 1:
        raise GiveUp('several members')
    size = int(re.search(r'Bytes<(\d+)>', m.P.records[rk]['name']).group(1))
    return [m.get(Ptr(p.obj, p.path + (fl[0][0], '_M_elems', i))) for i in range(size)]


def num_bytes(m, name, w, i):
    v = m.val[name]
    if i >= w:
        return 0
    return v if w == 1 else m.tobytes(v, w)[i]


def bits(m, bs):
    x = 0
    for i, b in enumerate(bs):
        x = poly.L(m.lin(b)) * (1 << i) + x
    return x


# witness -> (indices, expected result as a function of (machine, index))
def specs():
    S = {}
    for n, w, size in (('u32', 4, 4), ('u64', 8, 32), ('u16', 2, 8), ('u8', 1, 8), ('bool', 1, 4)):
        S['v_bytes_of_' + n] = (range(size), lambda m, i, w=w: num_bytes(m, 'x', w, i), 'Bytes constructed from an integer, byte %d')
    S['v_u32_of_bytes'] = ((None,), lambda m, i: m.frombytes(m.entry['a'][:4], 'b:unsigned int'), 'to_integer_little_endian')
    S['v_u64_of_bytes'] = ((None,), lambda m, i: m.frombytes(m.entry['a'][:8], 'b:unsigned long'), 'to_integer_little_endian')
    S['v_array_bytes'] = (range(4), lambda m, i: m.entry['a'][i], 'Bytes constructed from an array, byte %d')
    I = (0, 1, 30, 31)
    for n, what in (('at', 'const operator[]'), ('at_mut', 'operator[]'), ('data', 'data()'), ('begin', 'begin()'), ('cbegin', 'cbegin()'), ('to_array', 'to_array()'), ('to_vector', 'conversion to a vector')):
        S['v_' + n] = (I, lambda m, i: m.entry['a'][i], 'Bytes: ' + what + ', byte %d')
    for n in ('range', 'crange', 'size', 'to_vector_size'):
        S['v_' + n] = ((None,), lambda m, i: 32, 'Bytes<32>: number of bytes (%s)' % n)
    S['v_set'] = ([(j, i) for j in (0, 31) for i in (0, 1, 30, 31)], lambda m, i: m.val['x'] if i[0] == i[1] else m.entry['a'][i[1]], 'Bytes: writing one byte through operator[], (written, read) %s')
    S['v_concat'] = (range(12), lambda m, i: m.entry['a'][i] if i < 4 else m.entry['b'][i - 4], 'Bytes: concatenation, byte %d')
    S['v_concat48'] = (range(4), lambda m, i: m.entry['a'][i] if i < 1 else m.entry['b'][i - 1], 'Bytes: concatenation, byte %d')
    S['v_xor_right'] = (range(32), lambda m, i: m.entry['b'][i], 'Bytes: right operand of operator^=, byte %d')
    S['v_xor_zero'] = (range(32), lambda m, i: m.entry['a'][i], 'Bytes: operator^= with zero, byte %d')
    S['v_xor_into_zero'] = (range(32), lambda m, i: m.entry['a'][i], 'Bytes: operator^= into zero, byte %d')
    S['v_xor_ones'] = (range(8), lambda m, i: m.astab(m.entry['a'][i]).map(lambda x: x ^ 255), 'Bytes: operator^= into all ones, byte %d')
    S['v_slot'] = ((None,), lambda m, i: m.val['x'], 'Slot: value')
    S['v_slot_new'] = ((None,), lambda m, i: 0, 'Slot: default value')
    S['v_slot_ref'] = ((None,), lambda m, i: m.val['x'], 'Slot: assignment through the reference conversion')
    S['v_slot_bytes'] = (range(8), lambda m, i: num_bytes(m, 'x', 8, i), 'Slot: conversion to Bytes8, byte %d')
    S['v_boolean'] = ((None,), lambda m, i: m.val['x'], 'Boolean: value')
    S['v_boolean_new'] = ((None,), lambda m, i: 0, 'Boolean: default value')
    S['v_boolean_ref'] = ((None,), lambda m, i: m.val['x'], 'Boolean: assignment through the reference conversion')
    S['v_boolean_bytes'] = ((None,), lambda m, i: m.val['x'], 'Boolean: conversion to Bytes1')
    S['v_bitvector_of'] = (range(2), lambda m, i: bits(m, m.entry['a'][8 * i:8 * i + 8]), 'Bitvector<9> constructed from an array: serialized byte %d')
    for k, n in (('vector', 5), ('list', LEN), ('varlist', LEN), ('bitlist', LEN)):
        for q in ('size', 'range', 'crange', 'data_size'):
            S['v_%s_%s' % (k, q)] = ((None,), lambda m, i, n=n: n, 'a %s of %d elements: number of elements (%s)' % (k, n, q))
        for q in ('at', 'cat', 'data'):
            S['v_%s_%s' % (k, q)] = (range(n), lambda m, i: m.elems[i], 'a %s: element %%d (%s)' % (k, {'at': 'begin()', 'cat': 'cbegin()', 'data': 'data()'}[q]))
    for N in front.VALUE_SIZES:
        I = sorted({0, N // 2, max(0, N - 3), max(0, N - 2), N - 1} | ({254, 255, 256, 257} if N > 257 else set()))
        S['v_xor_right_%d' % N] = (I, lambda m, i: m.entry['b'][i], 'Bytes<%d>: right operand of operator^=, byte %%d' % N)
        S['v_xor_zero_%d' % N] = (I, lambda m, i: m.entry['a'][i], 'Bytes<%d>: operator^= with zero, byte %%d' % N)
        S['v_xor_into_zero_%d' % N] = (I, lambda m, i: m.entry['a'][i], 'Bytes<%d>: operator^= into zero, byte %%d' % N)
        S['v_copy_%d' % N] = (I, lambda m, i: m.entry['a'][i], 'Bytes<%d>: assignment, byte %%d' % N)
        S['v_to_vector_%d' % N] = (I, lambda m, i: m.entry['a'][i], 'Bytes<%d>: conversion to a vector, byte %%d' % N)
        S['v_to_vector_size_%d' % N] = ((None,), lambda m, i, N=N: N, 'Bytes<%d>: size of the vector' % N)
        S['v_concat_right_%d' % N] = ([0, 19] + [20 + i for i in I], lambda m, i: m.entry['a'][i] if i < 20 else m.entry['b'][i - 20], 'Bytes<20> + Bytes<%d>: byte %%d' % N)
        S['v_concat_left_%d' % N] = (I + [N, N + 19], lambda m, i, N=N: m.entry['a'][i] if i < N else m.entry['b'][i - N], 'Bytes<%d> + Bytes<20>: byte %%d' % N)
    return S


def setup_args(m, f, idx):
    """arbitrary values for the parameters; remembers what they were"""
    m.val, m.entry, m.elems = {}, {}, []
    out = []
    ix = list(idx) if isinstance(idx, tuple) else [idx]
    for p in f.get('params') or ():
        t, n = m.ty(p['t']), p['n']
        if n in ('i', 'j') and ix:
            out.append(ix.pop(0))
            continue
        if t['k'] == 'ref':
            q = m.alloc(n, m.typeval(t['to'], n))
            rk = m.reckey(t['to'])
            out.append(q)
            if rk.endswith('BitlistE') or 'Parts' in rk:
                sequence(m, q, rk)
            else:
                m.entry[n] = entry_bytes(m, q, t['to']) if datafields(m, rk) and 'Bytes' in rk else None
        else:
            v = m.typeval(p['t'], n)
            if t['k'] in ('int', 'bool'):
                v = m.lin(v) if not isinstance(v, int) else v
            m.val[n] = v
            rk = m.reckey(p['t'])
            if rk and m.recqn(rk) == 'std::array':
                q = m.alloc(n, v)
                m.entry[n] = [m.get(Ptr(q.obj, q.path + ('_M_elems', i))) for i in range(4 if 'h' in rk.split('array')[-1] else 9)]
                v = m.get(q)
            out.append(v)
    return out


def sequence(m, q, rk):
    fl = datafields(m, rk)
    if len(fl) != 1:
        raise GiveUp('several members')
    name, tk = fl[0]
    at = Ptr(q.obj, q.path + (name,))
    m.get(at)
    old = m.get(at)
    if isinstance(old, LazyV):
        old = m.expand(old)
    if 'Vector' in rk:
        m.elems = [slotvalue(m, Ptr(q.obj, q.path + (name, '_M_elems', i))) for i in range(5)]
        return
    if m.ty(old.el)['k'] == 'int':
        m.put(at, VecV(old.el, [('e', i % 2) for i in range(LEN)]))
        return
    m.put(at, VecV(old.el, [('e', LazyV(old.el, 'el%d' % i)) for i in range(LEN)]))
    ps = [Ptr(q.obj, q.path + (name, i)) for i in range(LEN)]
    if 'Slot' in rk:
        m.elems = [slotvalue(m, p) for p in ps]
    else:
        m.elems = ps


def slotvalue(m, p):
    m.get(p)
    fl = datafields(m, '_ZTSN3eth4SlotE')
    if len(fl) != 1:
        raise GiveUp('members of Slot')
    return m.get(Ptr(p.obj, p.path + (fl[0][0],)))


def equality(lab, fk, f, r, what, size, own=4):
    """size: bytes on the right-hand side, or None for a vector of any length"""
    m0 = lab.m0
    n = 0
    for ln in (size,) if size is not None else sorted({0, 1, 3, own - 1, own, own + 1, 2 * own}) if own <= 20 else (own - 1, own, own + 1):
        store = {}

        def args(m, f):
            m.val, m.entry, m.elems = {}, {}, []
            ps = f['params']
            out = []
            for p in ps:
                t = m.ty(p['t'])
                q = m.alloc(p['n'], m.typeval(t['to'], p['n']))
                if m.recqn(m.reckey(t['to'])) == 'std::vector':
                    els = []
                    for i in range(ln):
                        m.st.declare('v%d' % i, 0, 255)
                        els.append(Lin.var('v%d' % i))
                    m.put(q, VecV('b:unsigned char', [('e', e) for e in els]))
                    m.entry[p['n']] = els
                else:
                    m.entry[p['n']] = entry_bytes(m, q, t['to'])
                out.append(q)
            store['e'] = dict(m.entry)
            store['p'] = out
            return out
        m, outs = lab.run(fk, peel=3, args=args, post=retbool)
        memory(lab, m, outs, r, what)
        for u in gaveup(outs):
            r.undecided.append('%s: %s' % (what, lab.rel(u)))
        for o in outs:
            if o.kind not in ('ret', 'throw') or not exact(o):
                continue
            at(m, o)
            n += 1
            a, b = [store['e'][p['n']] for p in f['params']]
            if o.kind == 'throw':
                r.bad('equal', lab.where_fn(fk), '%s throws' % what)
                continue
            # comparisons of whole arrays the trace went through
            whole = {c[1:3]: v for c, v in o.st.bools.items() if isinstance(c, tuple) and c and c[0] == 'eqv'}
            if whole:
                facts = {tuple(sorted(c)): True for c, v in whole.items() if v}
                pa, pb = store['p']
                na, nb = [p['n'] for p in f['params']]
                tk = 'R:' + m.reckey(m.ty(f['params'][0]['t'])['to'])
                known = {tuple(sorted((na + '.' + x, nb + '.' + x))) for x, _ in datafields(m, m.reckey(tk))}
                if {tuple(sorted(c)) for c in whole} - known:
                    r.undecided.append('%s: compares %s' % (what, sorted(map(str, whole))[:2]))
                    continue
                diff = size != own or equal(m, o.st, pa, pb, tk, na, nb, facts, [])
                if o.val is True and diff:
                    yield '%s: true for values that differ' % what
                elif o.val is not True and not diff:
                    yield '%s: false for equal values' % what
                continue
            eqs = [poly.L(m.lin(x)) - m.lin(y) for x, y in zip(a, b)]
            if o.val is True:
                wrong = len(a) != len(b) or any(not o.st.eq0(e) and o.st.refuted_eq0(e) for e in eqs)
                if wrong and o.st.point() is not None:
                    yield '%s: true for values that differ (%d and %d bytes)' % (what, len(a), len(b))
            elif len(a) == len(b) and o.st.point(eq=eqs) is not None:
                yield '%s: false for values that are the same %d bytes' % (what, len(a))
    yield n


def memory(lab, m, outs, r, title):
    """accesses outside their object; traces end there"""
    for tag, where, msg, ex in m.obl:
        if tag in MEMTAGS:
            if ex:
                r.bad('%s:%s' % (tag, re.sub(r'^.*\((.*)\)$', r'\1', where)), lab.rel(where), '%s (%s)' % (msg, title))
            else:
                r.undecided.append('%s: %s (%s)' % (lab.rel(where), msg, title))
    if not m.obl and not any(o.kind in ('ret', 'throw', 'giveup') for o in outs):
        r.undecided.append('%s: no trace ends' % title)


def c28(repo, work, r, thorough):
    S = specs()
    EQ = {'v_eq_vector': ('Bytes == vector', None), 'v_eq_bytes': ('Bytes == Bytes', 4), 'v_eq_shorter': ('Bytes == shorter Bytes', 3), 'v_eq_longer': ('Bytes == longer Bytes', 8)}
    for N in front.VALUE_SIZES:
        if N <= 20:
            EQ['v_eq_vector_%d' % N] = ('Bytes<%d> == vector' % N, None, N)
        EQ['v_eq_bytes_%d' % N] = ('Bytes<%d> == Bytes<%d>' % (N, N), N, N)
    nw = nr = nt = 0
    done = []
    for preset in front.PRESETS[:1]:
        lab = Lab(repo, work, preset)
        for nm, (fi, line, msg) in sorted(lab.P.broken.items()):
            if nm in EQ or nm in S:
                r.bad('instantiation:' + nm, '%s:%s' % (fi.replace(repo.rstrip('/') + '/', ''), line), '%s: the operation is declared but its definition does not compile (%s)' % ((EQ.get(nm) or (S[nm][2],))[0], msg[:120]))
        for fk, f in sorted(lab.P.funcs.items()):
            nm = f.get('n', '')
            if not f.get('qn', '').startswith('witness::v_') or 'body' not in f or nm in lab.P.broken:
                continue
            with shield(r, nm):
                w = operation(lab, f)
                if nm in EQ:
                    nw += 1
                    for x in equality(lab, fk, f, r, *EQ[nm]):
                        if isinstance(x, int):
                            nt += x
                        else:
                            r.bad('equal:' + nm, w, x)
                    done.append(nm)
                    continue
                if nm not in S:
                    continue
                idxs, want, what = S[nm]
                nw += 1
                done.append(nm)
                for i in idxs:
                    title = what % (i,) if '%' in what else what
                    got = {}

                    def args(m, f):
                        a = setup_args(m, f, i)
                        got['want'] = want(m, i)
                        return a

                    def post(m, v, a):
                        if isinstance(v, Ptr) or not isinstance(got['want'], Ptr):
                            return v
                        return v
                    m, outs = lab.run(fk, peel=3, args=args, post=post)
                    memory(lab, m, outs, r, title)
                    for u in gaveup(outs):
                        r.undecided.append('%s: %s' % (title, lab.rel(u)))
                    for o in outs:
                        if o.kind not in ('ret', 'throw') or not exact(o):
                            continue
                        at(m, o)
                        nt += 1
                        if o.kind == 'throw':
                            if o.st.point() is not None:
                                r.bad('value:' + nm, w, title + ': throws')
                            continue
                        v, x = o.val, got['want']
                        nr += 1
                        if isinstance(x, Ptr) or isinstance(v, Ptr):
                            s = v == x if isinstance(x, Ptr) and isinstance(v, Ptr) else None
                        else:
                            if isinstance(v, Cond):
                                v = m.lin(v)
                            s = same(m, v, x)
                        if s is True:
                            continue
                        if s is False:
                            r.bad('value:' + nm, w, '%s is %s instead of %s' % (title, v, x))
                            break
                        r.undecided.append('%s: result %s (expected %s)' % (title, str(v)[:60], str(x)[:60]))
    r.coverage.update(operations=nw, results_compared=nr, traces=nt, operations_analysed=done)
    if not nw or not nt:
        raise NotDecided('no operation analysed')


def operation(lab, f):
    """where the operation the witness uses is defined: the first repository function it calls"""
    best = None
    for x in walk(f['body']):
        k = x.get('f')
        g = lab.P.funcs.get(k) if isinstance(k, str) else None
        if g and g.get('file', '').startswith(lab.repo) and not g.get('defaulted'):
            best = k
            if not g.get('ctor') and 'Slot' not in g['qn'].split('::')[-1]:
                break
    return lab.where_fn(best) if best else 'common/'


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)
