"""C09: equality compares every field."""
import re
from .lab import *
from ..poly import Lin
from ..report import NotDecided


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def strip_casts(e):
    while isinstance(e, dict) and (e['k'] in ('Cast', 'Paren') or e['k'] == 'Un' and e.get('op') in ('*', '&')):
        e = e['e']
    return e


def isdata(n, t, m):
    """the limit of a list is not part of its value"""
    return 'limit' not in n


def equal(m, st, pa, pb, tk, na, nb, facts, opaque):
    """None if the two sub-objects are entailed equal, else the path of a leaf that may differ"""
    x, y = sorted((na, nb))
    if facts.get((x, y)):
        return None
    t = m.ty(tk)
    if t['k'] in ('int', 'bool', 'enum'):
        a, b = m.get(pa), m.get(pb)
        if a == b:
            return None
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return None if st.eq0(poly.L(a) - b) or m.decide(Cond('eq', poly.L(a) - b)) else na
        return na
    rk = m.reckey(tk)
    if rk is None:
        return na
    q = m.recqn(rk)
    if q.startswith('std::'):
        if q == 'std::array':
            a, b = m.get(pa), m.get(pb)
            fa, fb = m.flatten(a), m.flatten(b)
            if fa is not None and fb is not None and len(fa) == len(fb) and all(p == q_ or isinstance(p, (int, Lin)) and isinstance(q_, (int, Lin)) and st.eq0(poly.L(p) - q_) for p, q_ in zip(fa, fb)):
                return None
        if q in ('std::vector', 'std::array'):
            # compared element by element
            try:
                va, vb = m.get(pa), m.get(pb)
                if q == 'std::array':
                    fa, fb = m.field(va, '_M_elems'), m.field(vb, '_M_elems')
                    ln = fa.n if isinstance(fa, ArrV) else None
                    el = fa.el if isinstance(fa, ArrV) else None
                    base = ('_M_elems',)
                else:
                    la, lb = m.vlen(va), m.vlen(vb)
                    if not st.eq0(poly.L(la) - lb):
                        return na
                    lo, hi = st.bounds(poly.L(la))
                    ln = lo if lo == hi else None
                    el = va.el
                    base = ()
                if ln is not None and ln <= 64:
                    for i in range(ln):
                        pa1, pb1 = Ptr(pa.obj, pa.path + base + (i,)), Ptr(pb.obj, pb.path + base + (i,))
                        r = equal(m, st, pa1, pb1, el, m.objname(pa1) or na + '[%d]' % i, m.objname(pb1) or nb + '[%d]' % i, facts, opaque)
                        if r:
                            return r
                    return None
            except (GiveUp, Prune, AttributeError):
                pass
        return na
    for n, ft in m.fields(rk):
        if not isdata(n, ft, m):
            continue
        r = equal(m, st, pa + n, pb + n, ft, na + '.' + n, nb + '.' + n, facts, opaque)
        if r:
            return r
    return None


def c09(repo, work, r, thorough):
    lab = Lab(repo, work, 'minimal')
    P = lab.P
    base = [k for k, f in P.funcs.items() if f['qn'] == 'ssz::Container::operator==']
    ncall = 0
    # 1. nothing but a class's own operator== (for its base subobject) uses the data-less comparison
    for k, f in P.funcs.items():
        if 'body' not in f:
            continue
        for x in walk(f['body']):
            if x.get('f') in base and x.get('k') in ('MCall', 'Call'):
                ncall += 1
                obj = strip_casts(x.get('o') or (x.get('a') or [None])[0])
                own = f['n'] in ('operator==', 'operator!=') and f.get('rec') and f['rec'] in P.records and lab.m0.is_ssz(f['rec']) and isinstance(obj, dict) and obj['k'] == 'This'
                if own:
                    continue
                what = f['qn']
                t = x.get('o') or (x.get('a') or [{}])[0]
                cls = None
                for y in walk(t):
                    if y.get('k') == 'Cast' and y.get('ck') == 'DerivedToBase':
                        rk = lab.m0.reckey(y['e'].get('t', ''))
                        cls = rk and lab.m0.recqn(rk) and P.records[rk]['name']
                if f['qn'].startswith('witness::'):
                    a = None
                    for p in f.get('params') or ():
                        rk = lab.m0.reckey(lab.m0.ty(p['t']).get('to', p['t']))
                        if rk and lab.m0.is_ssz(rk):
                            a = rk
                    nm = P.records[a]['name'] if a else cls
                    r.bad('base-equality:%s' % nm, lab.where_cls(a) if a else '?', 'a comparison of two %s values with == selects ssz::Container::operator==, which is always true' % nm)
                else:
                    r.bad('base-equality:' + what, lab.rel('%s:%s (%s)' % (f['file'], x.get('l', f['line']), f['qn'])),
                          '%s compares %s values with ssz::Container::operator==, which ignores their data' % (what, cls or 'container'))
    # 2. a result of true entails that all data members are equal
    ncls = ntrace = 0
    for rk, name in lab.classes():
        with shield(r, name):
            ops = [mm['f'] for mm in P.records[rk].get('methods') or () if mm['n'] == 'operator==' and 'body' in P.funcs.get(mm['f'], {})]
            ops = [k for k in ops if len(P.funcs[k].get('params') or ()) == 1 and lab.m0.reckey(lab.m0.ty(P.funcs[k]['params'][0]['t']).get('to', P.funcs[k]['params'][0]['t'])) == rk]
            if not ops:
                continue
            ncls += 1
            for fk in ops:
                def args(m, f):
                    m.st.heap['that'] = LazyV('R:' + rk, 'that')
                    return [Ptr('that')]
                m, outs = lab.run(fk, rk, args=args, post=lambda m, v, a: m.branch(m.tocond(v)))
                for u in gaveup(outs):
                    r.undecided.append('%s::operator==: %s' % (name, lab.rel(u)))
                for o in rets(outs):
                    if not exact(o) or o.val is not True:
                        continue
                    ntrace += 1
                    at(m, o)
                    facts = {}
                    opaque = []
                    for c, b in o.st.bools.items():
                        if isinstance(c, tuple) and c and c[0] == 'eqv' and b:
                            facts[tuple(sorted(c[1:3]))] = True
                            if not all(re.match(r'^(this|that)[\w.\[\]]*$', str(z)) for z in c[1:3]):
                                opaque.append(c)
                    bad = equal(m, o.st, Ptr('this'), Ptr('that'), 'R:' + rk, 'this', 'that', facts, opaque)
                    if bad:
                        pre = bad
                        txt = ' '.join(str(c) for c in opaque)
                        cover = False
                        while pre:
                            if re.search(re.escape(pre) + r'\b', txt):
                                cover = True
                                break
                            pre = pre.rsplit('.', 1)[0] if '.' in pre else ''
                        if cover:
                            r.undecided.append('%s::operator== compares %s through an intermediate value' % (name, bad))
                        else:
                            r.bad('ignored:%s:%s' % (name, bad), lab.where_fn(fk), '%s::operator== can return true although %s differs' % (name, bad.replace('this.', '')))
                if outs and not any(o.kind == 'ret' and o.val is not False for o in outs):
                    r.bad('never:' + name, lab.where_fn(fk), '%s::operator== never returns true' % name)
    r.coverage.update(calls_of_base_comparison=ncall, classes_with_own_comparison=ncls, true_traces=ntrace, ssz_classes=len(lab.classes()))
    if not ncls:
        raise NotDecided('no comparison operator found')
