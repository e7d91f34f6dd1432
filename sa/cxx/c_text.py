"""C18: the text form is hex, and parsing it is exact on digits and stays in bounds on everything else."""
import re
import time
from .lab import *
from .c_parse import isbit
from .c_tree import constructors
from .c_init import cap
from .dom import Tab, Cond, StrV
from ..poly import Lin
from ..report import NotDecided

DIGITS = {}
for _c in '0123456789abcdefABCDEF':
    DIGITS[ord(_c)] = int(_c, 16)


def digit(m, v):
    """numeric value of one character of the text, or None if it can be something else than a digit (on this trace)"""
    if isinstance(v, int):
        return DIGITS.get(v)
    t = m.astab(v)
    if t is not None:
        d = m.domain(t.sym)
        t = Tab(t.sym, {x: t.f[x] for x in d if x in t.f})
        if m.branch(Cond('tab', t.map(lambda y: y not in DIGITS))):
            return None
        d = m.domain(t.sym)
        return Tab(t.sym, {x: DIGITS[t.f[x]] for x in t.f if x in d})
    v = m.lin(v)
    if isinstance(v, int):
        return DIGITS.get(v)
    for lo, hi, base in ((48, 57, 0), (97, 102, 10), (65, 70, 10)):
        if m.branch(m.compare('>=', v, lo)) and m.branch(m.compare('<=', v, hi)):
            return v - lo + base
    return None


def octet(m, h, l):
    """16*h + l"""
    if isinstance(h, int) and isinstance(l, int):
        return 16 * h + l
    if isinstance(h, Tab) and isinstance(l, Tab) and h.sym == l.sym:
        return Tab(h.sym, {x: 16 * h.f[x] + l.f[x] for x in h.f if x in l.f})
    if isinstance(h, Tab) and isinstance(l, int):
        return h.map(lambda y: 16 * y + l)
    if isinstance(l, Tab) and isinstance(h, int):
        return l.map(lambda y: 16 * h + y)
    return poly.L(m.lin(h)) * 16 + poly.L(m.lin(l))


def elements(m, v):
    """the bytes of a serialization of known length, or None"""
    out = []
    for g in v.segs:
        if g[0] == 'e':
            out.append(g[1])
        else:
            n = g[3] if g[0] == 'op' else (g[2] if g[0] in ('fill', 'ser') else None)
            if n is None:
                return None
            n = m.conc(m.lin(n))
            if not isinstance(n, int):
                return None
            tmp = m.alloc('seg', VecV(v.el, [g]))
            out += [m.get(tmp + i) for i in range(n)]
    return out


def text_of(m, v):
    """characters of the text the operation produced"""
    if isinstance(v, TermV) and v.t[0] == 'yaml':
        v = m.st.meta.get(v.t[1])
    if isinstance(v, Ptr):
        v = m.get(v)
    return elements(m, v) if isinstance(v, VecV) else None


def check_text(lab, r, rk, name, fk, peel):
    f = lab.P.funcs[fk]
    short = name.replace('eth::', '').split('<')[0]
    sfk = lab.impl(rk, 'serialize')

    def post(m, v, a):
        t = text_of(m, v)
        if t is None:
            return 'text:' + repr(v)[:80]
        s = m.invoke(sfk, lab.P.funcs[sfk], Ptr('this'), [])
        if isinstance(s, Ptr):
            s = m.get(s)
        b = elements(m, s)
        if b is None:
            return 'bytes:' + repr(s)[:80]
        if len(t) != 2 + 2 * len(b):
            return ('bad', '%d characters for %d bytes' % (len(t), len(b)))
        for i, c in enumerate((48, 120)):
            if m.branch(m.compare('!=', t[i], c)):
                return ('bad', 'character %d is not %r' % (i, chr(c)))
        for i, x in enumerate(b):
            h, l = digit(m, t[2 + 2 * i]), digit(m, t[3 + 2 * i])
            if h is None or l is None:
                return ('bad', 'a character for byte %d is no hex digit' % i)
            if m.branch(m.compare('!=', octet(m, h, l), x)):
                return ('bad', 'the digits for byte %d are not its value' % i)
        return ('ok', len(b))
    m, outs = lab.run(fk, rk, peel=peel, post=post, setup=cap)
    n = 0
    for u in gaveup(outs):
        r.undecided.append('%s::%s: %s' % (name, f['n'], lab.rel(u)))
    for o in rets(outs):
        if isinstance(o.val, str):
            r.undecided.append('%s::%s: %s' % (name, f['n'], o.val))
        elif o.val[0] == 'ok':
            n += o.val[1]
        elif exact(o) and o.st.point() is not None:
            r.bad('text:%s' % short, lab.where_fn(fk), '%s::%s does not print hex: %s' % (name, f['n'], o.val[1]))
        else:
            r.undecided.append('%s::%s: %s (not certain)' % (name, f['n'], o.val[1]))
    bounds(lab, r, m, '%s::%s' % (name, f['n']), short)
    return n


def bounds(lab, r, m, what, short):
    for tag, where, msg, ex in m.obl:
        if tag in ('oob', 'null', 'sub'):
            if ex:
                r.bad('bounds:%s' % short, lab.rel(where), '%s: %s' % (what, msg))
            else:
                r.undecided.append('%s at %s: %s' % (what, lab.rel(where), msg))
    return m.nobl.get('oob', 0)


def string_args(lab, fk):
    """how to give the operation a text: 'node', 'string', 'view' or None"""
    f = lab.P.funcs[fk]
    ps = f.get('params') or ()
    if len(ps) != 1:
        return None
    q = lab.m0.recqn(lab.m0.reckey(ps[0]['t']) or '') or ''
    return {'YAML::Node': 'node', 'std::basic_string': 'string', 'std::basic_string_view': 'view'}.get(q)


def run_parse(lab, rk, fk, how, text, post, peel):
    """run a text-consuming operation on the object; text(m) is a StrV"""
    f = lab.P.funcs[fk]
    if fk in constructors(lab, rk):
        inner = post

        def build(m):
            s = text(m)
            if how == 'view':
                b = m.alloc('txt', s)
                s = StructV(m.reckey(lab.m0.ty(f['params'][0]['t']).get('to') or f['params'][0]['t']), {'_M_len': m.vlen(s), '_M_str': b + 0})
            t = m.ty(f['params'][0]['t'])
            v = m.construct(fk, f, [m.alloc('arg', s) if t['k'] == 'ref' else s], 'R:' + rk)
            m.st.heap['this'] = v
            return inner(m, v, None) if inner else v

        def setup0(m):
            m.max_len = 1 << 26
        m = Machine(lab.P, peel)
        setup0(m)
        return m, m.explore(State, lambda: build(m))

    def setup(m):
        m.max_len = 1 << 26
        if how == 'node':
            m.decode_text = text

    def args(m, f):
        a = lab.args(m, f)
        if how == 'node':
            return a
        s = text(m)
        if how == 'view':
            b = m.alloc('txt', s)
            v = StructV(m.reckey(f['params'][0]['t']), {'_M_len': m.vlen(s), '_M_str': b + 0})
        else:
            v = s
        return [m.alloc('arg', v) if isinstance(a[0], Ptr) else v]
    return lab.run(fk, rk, peel=peel, args=args, post=post, setup=setup)


def fixed_text(nbytes, k):
    """0x and 2*nbytes digits: byte k arbitrary, the others 5a"""
    def mk(m):
        segs = [('e', 48), ('e', 120)]
        for i in range(nbytes):
            if i != k:
                segs += [('e', 53), ('e', 97)]
                continue
            hs = sorted(DIGITS)
            h = hs[m.choose(len(hs))]
            m.st.declare('lo', -128, 127)
            m.st.domain('lo', hs)
            m.st.restrict('lo', hs)
            segs += [('e', h), ('e', Lin.var('lo'))]
            m.st.meta['hi'] = h
        return StrV('b:char', segs)
    return mk


def check_value(lab, r, rk, name, fk, how, nbytes, k, bits):
    """parsing a full-length text of digits stores the bytes it spells"""
    short = name.replace('eth::', '').split('<')[0]
    f = lab.P.funcs[fk]
    what = '%s::%s' % (name, f['n'])
    m, outs = run_parse(lab, rk, fk, how, fixed_text(nbytes, k), None, 8 * nbytes + 2)
    n = 0
    for u in gaveup(outs):
        r.undecided.append('%s: %s' % (what, lab.rel(u)))
    for o in outs:
        if o.kind == 'throw' and not bits:
            if exact(o) and o.st.point() is not None:
                r.bad('refused:' + short, lab.where_fn(fk), '%s refuses a text of %d digits' % (what, 2 * nbytes))
            continue
        if o.kind != 'ret':
            continue
        if o.val == 0 and f['n'] == 'decode':
            if not bits and exact(o) and o.st.point() is not None:
                r.bad('refused:' + short, lab.where_fn(fk), '%s refuses a text of %d digits' % (what, 2 * nbytes))
            continue
        at(m, o)
        h = o.st.meta.get('hi')
        dom = o.st.bset.get('lo')
        if h is None or not dom:
            continue
        exp = Tab('lo', {c: 16 * DIGITS[h] + DIGITS[c] for c in dom})
        mems = m.fields(rk)
        if len([x for x in mems if 'limit' not in x[0]]) != 1:
            r.undecided.append('%s has several members' % name)
            return n
        fld = [x for x in mems if 'limit' not in x[0]][0][0]
        v = m.get(Ptr('this', (fld,)))
        try:
            if bits is None:
                got = m.get(Ptr('this', (fld, '_M_elems', k)))
                t = m.astab(got) if not isinstance(got, int) else got
                if t is None:
                    r.undecided.append('%s: byte %d is %s' % (what, k, str(got)[:60]))
                    continue
                g = (lambda c: t) if isinstance(t, int) else (lambda c: t.f[c])
                if not isinstance(t, int) and t.sym != 'lo':
                    r.undecided.append('%s: byte %d is %s' % (what, k, str(got)[:60]))
                    continue
                bad = [c for c in dom if g(c) != exp.f[c]]
                n += 1
                if bad and exact(o):
                    r.bad('value:' + short, lab.where_fn(fk), '%s stores %#x for the digits %c%c' % (what, g(bad[0]), chr(h), chr(bad[0])))
                continue
            cnt = bits if isinstance(bits, int) else m.conc(m.vlen(m.get(Ptr('this', (fld,)))))
            if not isinstance(cnt, int):
                r.undecided.append('%s: length' % what)
                continue
            for j in range(8):
                if 8 * k + j >= cnt:
                    break
                p = Ptr('this', (fld, '_M_elems', 8 * k + j)) if isinstance(bits, int) else Ptr('this', (fld, 8 * k + j))
                ok = isbit(m, m.get(p), exp, j)
                if ok is None:
                    r.undecided.append('%s: bit %d is %s' % (what, 8 * k + j, str(m.get(p))[:60]))
                    break
                n += 1
                if not ok and exact(o):
                    r.bad('value:' + short, lab.where_fn(fk), '%s does not store bit %d of byte %d spelled %c and a digit' % (what, j, k, chr(h)))
        except GiveUp as e:
            r.undecided.append('%s: %s' % (what, e))
    return n


def check_any(lab, r, rk, name, fk, how, peel):
    """any text: in bounds, and accepted only with the prefix"""
    short = name.replace('eth::', '').split('<')[0]
    f = lab.P.funcs[fk]
    what = '%s::%s' % (name, f['n'])

    def text(m):
        segs = [('op', 'txt', 0, Lin.var('txt.n'))]
        m.st.declare('txt.n', 0, m.max_len)
        return StrV('b:char', segs)

    def post(m, v, a):
        if f['n'] == 'decode' and not m.branch(m.tocond(v)):
            return None
        n = Lin.var('txt.n')
        if m.branch(m.compare('<', n, 2)):
            return 'shorter than the prefix'
        for i, c in enumerate((48, 120)):
            if m.branch(m.compare('!=', m.get(Ptr('given', (i,))), c)):
                return 'without the prefix 0x'
        return None

    def mk(m):
        t = text(m)
        m.st.heap['given'] = t
        return t
    m, outs = run_parse(lab, rk, fk, how, mk, post, peel)
    for u in gaveup(outs):
        r.undecided.append('%s: %s' % (what, lab.rel(u)))
    for o in rets(outs):
        if o.val:
            if exact(o) and o.st.point() is not None:
                r.bad('prefix:' + short, lab.where_fn(fk), '%s accepts a text %s' % (what, o.val))
            else:
                r.undecided.append('%s: a text %s (not certain)' % (what, o.val))
    return bounds(lab, r, m, what, short), len(rets(outs))


def c18(repo, work, r, thorough):
    ntxt = nval = nb = nops = nacc = ndig = 0
    lab = Lab(repo, work, 'mainnet')
    sizes = dict(Bytes=(1, 2, 3) if not thorough else (1, 2, 3, 4), Bitvector=(1, 4, 7, 8, 9, 16), Bitlist=(1,))
    seen = set()
    for k, f in lab.P.funcs.items():
        if f['qn'] == 'helpers::hextoint' and 'body' in f:
            def args(m, f):
                m.st.declare('ch', -128, 127)
                m.st.domain('ch', range(-128, 128))
                return [Lin.var('ch')]

            def post(m, v, a):
                t = m.astab(v) if not isinstance(v, int) else v
                if t is None or not isinstance(t, int) and t.sym != 'ch':
                    return 'result %r' % (v,)
                bad = [c for c in sorted(m.domain('ch')) if (t if isinstance(t, int) else t.f[c]) != DIGITS.get(c, 0)]
                if bad:
                    return ('bad', bad[0])
                return ('ok', len(m.domain('ch')))
            m, outs = lab.run(k, None, args=args, post=post)
            for u in gaveup(outs):
                r.undecided.append('hextoint: %s' % lab.rel(u))
            for o in outs:
                if o.kind == 'throw' and exact(o) and any(c in DIGITS for c in o.st.bset.get('ch', ())):
                    r.bad('digit', lab.where_fn(k), 'hextoint refuses a hex digit')
                if o.kind != 'ret':
                    continue
                if isinstance(o.val, str):
                    r.undecided.append('hextoint: ' + o.val)
                elif o.val[0] == 'bad':
                    if exact(o):
                        r.bad('digit', lab.where_fn(k), 'hextoint has a wrong value for character %d' % o.val[1])
                else:
                    ndig += o.val[1]
            bounds(lab, r, m, 'helpers::hextoint', 'digit')
    for rk, name in lab.classes():
        with shield(r, name):
            g = re.match(r'^eth::(\w+)(?:<(\d+)>)?$', name)
            if not g:
                continue
            fa, sz = g.group(1), int(g.group(2) or 0)
            if fa not in sizes:
                continue
            seen.add(fa)
            if r.violations and time.monotonic() > Machine.START + 90:
                continue        # a defect multiplies the traces: what is found so far is enough
            ops = [(k, f) for k, f in lab.P.funcs.items() if f.get('rec') == rk and 'body' in f]
            # printing
            if sz <= 48:
                for k, f in ops:
                    if f['n'] in ('to_string', 'encode') and not f.get('params'):
                        nops += 1
                        ntxt += check_text(lab, r, rk, name, k, 10 if fa == "Bitlist" else 60)
            # parsing
            if sz not in sizes[fa] and fa != 'Bitlist':
                continue
            for k, f in ops:
                how = string_args(lab, k)
                mm = f.get('m') or {}
                if not how or f['n'].startswith('operator') or mm.get('st') or mm.get('acc'):
                    continue
                nops += 1
                a, b = check_any(lab, r, rk, name, k, how, 8 if fa == 'Bytes' else (4 if fa == 'Bitlist' else 20))
                nb += a
                nacc += b
                nbytes = {'Bytes': sz, 'Bitvector': (sz + 7) // 8, 'Bitlist': 2}[fa]
                for i in range(nbytes):
                    nval += check_value(lab, r, rk, name, k, how, nbytes, i, {'Bytes': None, 'Bitvector': sz, 'Bitlist': 'all'}[fa])
    r.coverage.update(operations=nops, bytes_printed=ntxt, bytes_parsed=nval, bounds_obligations=nb, accepting_traces=nacc, characters=ndig)
    if seen != set(sizes) or not nops or (not ntxt and not r.violations):
        raise NotDecided('nothing analysed')
