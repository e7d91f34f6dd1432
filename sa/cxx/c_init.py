"""C19: default-constructed values are determinate, and nothing indeterminate is read."""
import re
from . import spec
from .lab import *
from .c_parse import all_presets, fam, peel_for
from .c_tree import constructors, Trees
from .models import MODELS, model
from ..poly import Lin
from ..report import NotDecided


def undet(m, v, path=''):
    """path of an indeterminate leaf of a value, or None"""
    if v is UNINIT:
        return path or '(the value)'
    if isinstance(v, StructV):
        for n, x in v.f.items():
            u = undet(m, x, path + '.' + str(n))
            if u:
                return u
    elif isinstance(v, ArrV):
        for i, x in sorted(v.over.items(), key=lambda t: str(t[0])):
            u = undet(m, x, '%s[%s]' % (path, i))
            if u:
                return u
        if isinstance(v.n, int) and len([i for i in v.over if isinstance(i, int)]) < v.n:
            d = v.default
            if not (isinstance(d, tuple)):
                return undet(m, d, path + '[]')
    elif isinstance(v, VecV):
        for g in v.segs:
            if g[0] == 'e':
                u = undet(m, g[1], path + '[]')
                if u:
                    return u
    return None


def cap(m):
    m.max_len = 1 << 26


def cpuid(m, f, this, args, node):
    """the leaf exists or it does not; the registers are only written when it does"""
    outs = args[-4:]
    if m.choose(2) == 0:
        for n, p in zip('abcd', outs):
            m.put(p, m.fresh('cpuid.' + n, 0, (1 << 32) - 1))
        return 1
    return 0


def obligations(r, lab, m, what):
    n = 0
    for tag, where, msg, ex in m.obl:
        if tag == 'uninit':
            if ex:
                r.bad('read:' + str(where).split(' ')[0].split('/')[-1].split(':')[0] + ':' + what, lab.rel(where), '%s: %s' % (what, msg))
            else:
                r.undecided.append('%s at %s: %s' % (what, lab.rel(where), msg))
    return m.nobl.get('uninit', 0)


def c19(repo, work, r, thorough):
    MODELS['__get_cpuid'] = MODELS['__get_cpuid_count'] = cpuid
    nctor = nread = nval = 0
    done = set()
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            short = name.replace('eth::', '')
            # constructors
            nb = re.match(r'^Bytes<(\d+)>$', short)
            for ck in constructors(lab, rk):
                f = lab.P.funcs[ck]
                if nb and int(nb.group(1)) > 3 and f.get('params'):
                    continue        # the same template with a smaller parameter is analysed
                if f.get('defaulted') and 'body' not in f:
                    continue        # never used, so clang has not defined it
                m = Machine(lab.P, 3)

                def fn():
                    a = lab.args(m, f)
                    v = m.construct(ck, f, a, 'R:' + rk)
                    return undet(m, v)
                outs = m.explore(State, fn)
                nctor += 1
                if not (f.get('params') or ()):
                    nval += 1
                for u in gaveup(outs):
                    r.undecided.append('%s constructor: %s' % (name, lab.rel(u)))
                for o in rets(outs):
                    if o.val and exact(o) and o.st.point() is not None:
                        r.bad('ctor:' + short.split('<')[0], lab.where_cls(rk), '%s%s leaves %s%s indeterminate' % (name, '' if f.get('params') else ' constructed by default', short, o.val))
                nread += obligations(r, lab, m, name)
            # methods
            if fam(name)[1] > 1024:
                continue
            for mm in ('serialize', 'deserialize', 'hash_tree', 'encode', 'decode'):
                fk = lab.impl(rk, mm)
                if nb and mm == 'decode' and int(nb.group(1)) > 3:
                    continue
                if fk is None or 'body' not in lab.P.funcs.get(fk, {}) or fk in done:
                    continue
                done.add(fk)
                m, outs = lab.run(fk, rk, peel=2, setup=cap)
                for u in gaveup(outs):
                    r.undecided.append('%s::%s: %s' % (name, mm, lab.rel(u)))
                nread += max(1, obligations(r, lab, m, '%s::%s' % (name, mm)))
    # helpers that are not virtual
    lab = Lab(repo, work, 'mainnet')
    nh = 0
    for k, f in sorted(lab.P.funcs.items()):
        rk = f.get('rec')
        if not f.get('repo') or 'body' not in f or f['qn'].startswith('witness') or k in done:
            continue
        wanted = rk and f['n'] in ('operator+', 'operator^=', 'to_string', 'from_string', 'from_hexstring', 'to_integer_little_endian', 'operator[]', 'to_array') and lab.m0.is_ssz(rk)
        wanted = wanted or rk and lab.P.records.get(rk, {}).get('qn') == 'ssz::Hasher' and f['n'] not in ('sha256_sse', 'hash_64b_blocks') and 'operator' not in f['n']
        b = re.search(r'Bytes<(\d+)>$', lab.P.records[rk]['name']) if wanted else None
        if b and f['n'] == 'from_string' and int(b.group(1)) > 3:
            continue
        if not wanted or fam(lab.P.records[rk]['name'])[1] > 64:
            continue
        nh += 1
        if f['n'] == 'Hasher':
            m = Machine(lab.P, 2)

            def fn():
                v = m.construct(k, f, lab.args(m, f), 'R:' + rk)
                return undet(m, v)
            outs = m.explore(State, fn)
            for o in rets(outs):
                if o.val and exact(o) and o.st.point() is not None:
                    r.bad('ctor:Hasher', lab.where_fn(k), 'a constructor of ssz::Hasher leaves %s indeterminate' % o.val)
        else:
            m, outs = lab.run(k, None if (f.get('m') or {}).get('st') else rk, peel=3, setup=cap)
        for u in gaveup(outs):
            r.undecided.append('%s: %s' % (f['qn'], lab.rel(u)))
        nread += max(1, obligations(r, lab, m, f['qn']))
    # the tree code on small inputs: scratch buffers and zero-subtree table
    T = Trees(lab)
    nt = 0
    for cnt, lim in ((1, 0), (1, 8), (2, 0), (3, 0), (3, 16), (5, 8), (6, 0), (7, 64)):
        outs, obl = T.build(T.chunks, T.leaves(cnt), lim)
        nt += 1
        nread += 1
        T.m.obl = obl
        obligations(r, lab, T.m, 'ssz::HashTree')
        for u in gaveup(outs):
            r.undecided.append('HashTree: %s' % lab.rel(u))

    def src(n):
        return lambda mm: VecV('b:unsigned char', [('e', byte(mm, i)) for i in range(n)])

    def byte(mm, i):
        mm.st.declare('b[%d]' % i, 0, 255)
        return Lin.var('b[%d]' % i)
    for n in (0, 1, 31, 32, 33, 65):
        outs, obl = T.build(T.bytes, src(n), 0)
        nt += 1
        T.m.obl = obl
        obligations(r, lab, T.m, 'ssz::HashTree')
        for u in gaveup(outs):
            r.undecided.append('HashTree: %s' % lab.rel(u))
    r.coverage.update(constructors=nctor, default_constructors=nval, methods=len(done), helpers=nh, trees=nt, reads_checked=nread)
    if not nval or not nh:
        raise NotDecided('nothing analysed')
