"""C20: the predicates on validators and attestations, compared with the specification on every abstract trace."""
import re
from . import spec
from .lab import *
from .c_containers import Fields
from .c_equal import equal
from .c_parse import vecfields
from ..poly import Lin
from ..report import NotDecided


class Undecided(Exception):
    pass


def num(m, p):
    """the integer a Slot-like object holds"""
    for _ in range(4):
        v = m.get(p)
        if isinstance(v, (int, Lin)):
            return poly.L(v)
        rk = v.rec if isinstance(v, StructV) else m.reckey(v.t) if isinstance(v, LazyV) else None
        fs = m.fields(rk) if rk else ()
        if len(fs) != 1:
            break
        p = p + fs[0][0]
    raise GiveUp('value of %s' % (p,))


def lt(m, a, b):
    return m.branch(Cond('ge', b - a - 1))


def le(m, a, b):
    return m.branch(Cond('ge', b - a))


def eq(m, a, b):
    return m.branch(Cond('eq', a - b))


def feasible(st):
    """an integer point satisfies the facts of the trace"""
    return st.point() is not None


def report(lab, r, fk, name, m, outs, cases):
    n = 0
    for u in gaveup(outs):
        r.undecided.append('%s: %s' % (name, lab.rel(u)))
    for o in outs:
        if o.kind == 'throw' and exact(o):
            r.bad('throws:' + name, lab.where_fn(fk), '%s can throw' % name)
        if o.kind != 'ret' or not exact(o):
            continue
        n += 1
        got, want = o.val
        cases.add((name, want))
        if want is None:
            r.undecided.append('%s: comparison through an intermediate value' % name)
        if want is None or got is want or got == want:
            continue
        at(m, o)
        if not feasible(o.st):
            r.undecided.append('%s: no witness for a trace that differs' % name)
            continue
        path = ' and '.join(('%s' if b else 'not(%s)') % (c,) for c, b in o.st.path[:6])
        r.bad('predicate:' + name, lab.where_fn(fk), '%s returns %s where the specification has %s (when %s)' % (name, str(got).lower(), str(want).lower(), path))
    return n


def c20(repo, work, r, thorough):
    lab = Lab(repo, work, 'mainnet')
    nt = 0
    cases = set()
    C = spec.CONSTANTS['mainnet']

    def cls(c):
        rk = lab.cls(c)
        if rk is None:
            raise NotDecided('anchor vanished: eth::' + c)
        return rk, Fields(lab, c, rk)

    def method(rk, n, np):
        for mm in lab.P.records[rk].get('methods') or ():
            if mm['n'] == n and mm['np'] == np:
                return mm['f']
        return None

    rk, F = cls('Validator')
    fld = lambda m, n: num(m, Ptr('this', (F.cpp[n],)))
    val = lambda n, np: method(rk, n, np)

    def active(m, e):
        return le(m, fld(m, 'activation_epoch'), e) and lt(m, e, fld(m, 'exit_epoch'))

    def slashable(m, e):
        return eq(m, fld(m, 'slashed'), poly.L(0)) and le(m, fld(m, 'activation_epoch'), e) and lt(m, e, fld(m, 'withdrawable_epoch'))

    def queue(m, e):
        return eq(m, fld(m, 'activation_eligibility_epoch'), poly.L(C['FAR_FUTURE_EPOCH'])) and eq(m, fld(m, 'effective_balance'), poly.L(C['MAX_EFFECTIVE_BALANCE']))
    found = 0
    for n, np, want in (('is_active', 1, active), ('is_slashable', 1, slashable), ('is_eligible_for_activation_queue', 0, queue)):
        fk = val(n, np)
        if fk is None or 'body' not in lab.P.funcs.get(fk, {}):
            r.undecided.append('Validator::%s not found' % n)
            continue
        found += 1

        def post(m, v, a):
            got = m.branch(m.tocond(v))
            e = None
            if a:
                e = num(m, a[0]) if isinstance(a[0], Ptr) else num(m, m.alloc('epoch', a[0]))
            return got, want(m, e)
        m, outs = lab.run(fk, rk, post=post)
        nt += report(lab, r, fk, 'Validator::' + n, m, outs, cases)

    # slashable attestation data: double vote or surround vote
    rk, F = cls('AttestationData')
    fk = method(rk, 'is_slashable', 1)
    if fk and 'body' in lab.P.funcs.get(fk, {}):
        found += 1

        def args(m, f):
            m.st.heap['that'] = LazyV('R:' + rk, 'that')
            return [Ptr('that')]

        def post(m, v, a):
            got = m.branch(m.tocond(v))
            ck, CF = cls('Checkpoint')
            g = lambda who, f: num(m, Ptr(who, (F.cpp[f], CF.cpp['epoch'])))
            same_target = eq(m, g('this', 'target'), g('that', 'target'))
            surround = lt(m, g('this', 'source'), g('that', 'source')) and lt(m, g('that', 'target'), g('this', 'target'))
            if not same_target:
                return got, surround
            # equal targets: slashable iff the data differ somewhere
            facts, diff = {}, []
            for c, b in m.st.bools.items():
                if isinstance(c, tuple) and c and c[0] == 'eqv':
                    if b:
                        facts[tuple(sorted(c[1:3]))] = True
                    else:
                        diff.append(c)
            leaf = equal(m, m.st, Ptr('this'), Ptr('that'), 'R:' + rk, 'this', 'that', facts, [])
            if leaf is None:
                return got, False
            if diff or any(x.vars() and known(m, x) for x in m.st.ne):
                return got, True
            if any(not plain(c) for c in m.st.bools):
                return got, None
            return got, ('either', leaf)
        m, outs = lab.run(fk, rk, args=args, post=post)
        for o in rets(outs):
            if exact(o) and isinstance(o.val[1], tuple):
                # the result does not depend on a field that decides it
                at(m, o)
                if feasible(o.st):
                    r.bad('predicate:AttestationData::is_slashable', lab.where_fn(fk), 'AttestationData::is_slashable returns %s for equal target epochs whether or not %s is equal' % (str(o.val[0]).lower(), o.val[1][1].replace('this.', '')))
                o.val = (o.val[0], o.val[0])
        nt += report(lab, r, fk, 'AttestationData::is_slashable', m, outs, cases)
    else:
        r.undecided.append('AttestationData::is_slashable not found')

    # indexed attestations: indices not empty, sorted, without duplicates
    rk, F = cls('IndexedAttestation')
    fk = method(rk, 'is_valid', 1)
    if fk and 'body' in lab.P.funcs.get(fk, {}):
        found += 1
        fi = F.cpp['attesting_indices']
        ft = dict(members(lab, rk))[fi]
        lk = lab.m0.reckey(ft)
        vf = vecfields(lab.m0, lk)
        for n in range(0, 6 if thorough else 5):
            def prep(m, a):
                q = Ptr('this', (fi, vf[0]))
                old = m.expand(m.get(q))
                m.put(q, VecV(old.el, [('e', LazyV(old.el, 'i%d' % k)) for k in range(n)]))

            def post(m, v, a):
                got = m.branch(m.tocond(v))
                xs = [num(m, Ptr('this', (fi, vf[0], k))) for k in range(n)]
                return got, n > 0 and all(lt(m, xs[k], xs[k + 1]) for k in range(n - 1))
            m, outs = lab.run(fk, rk, prep=prep, post=post, peel=n + 2)
            nt += report(lab, r, fk, 'IndexedAttestation::is_valid', m, outs, cases)
    else:
        r.undecided.append('IndexedAttestation::is_valid not found')
    r.coverage.update(predicates=found, traces=nt, outcomes=len(cases))
    if not found:
        raise NotDecided('anchor vanished: no predicate found')


def known(m, x):
    return len(x.c) == 2 and x.k == 0 and sorted(x.c.values()) == [-1, 1]


def plain(c):
    return isinstance(c, tuple) and c and c[0] == 'eqv' and all(re.match(r'^(this|that)[\w.\[\]]*$', str(z)) for z in c[1:3])
