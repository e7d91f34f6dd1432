"""C17 (constants), C21 (initialization order), C22 (accessors), and the C++ half of C03 (static and mutable storage)."""
import os, re
from . import spec
from .lab import *
from .graph import Graph, nodes
from .c_containers import Fields, each
from ..report import NotDecided

SYNC = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::lock_guard', 'std::scoped_lock', 'std::unique_lock', 'std::call_once', 'std::once_flag', 'std::atomic')


# ---------------------------------------------------------------- C17
def flat(v):
    if isinstance(v, bool):
        return [int(v)]
    if isinstance(v, (int, str)):
        return [v]
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    if isinstance(v, dict):
        return flat(v.get('b') or []) + flat(v.get('f') or [])
    return [None]


def c17(repo, work, r, thorough):
    n = 0
    missing = {}
    per = {}
    for preset in front.PRESETS:
        want = spec.CONSTANTS[preset]
        try:
            P = front.load(repo, work, preset)
        except RuntimeError as e:
            names = set(re.findall(r"no member named '(\w+)' in namespace 'constants'", str(e))) | set(re.findall(r"use of undeclared identifier '(?:constants::)?(\w+)'", str(e)))
            names = {x for x in names if x in want}
            if not names:
                raise
            for x in sorted(names):
                r.bad('missing:%s:%s' % (preset, x), 'config/%s.hpp.in' % preset, 'constant %s is used but not defined in the %s preset' % (x, preset))
            continue
        for u, e in P.failed:
            for x in set(re.findall(r"no member named '(\w+)' in namespace 'constants'", e)):
                r.bad('missing:%s:%s' % (preset, x), u, 'constant %s is used but not defined in the %s preset' % (x, preset))
        seen = per[preset] = {}
        m = Machine(P)
        for k, g in sorted(P.globals.items()):
            if not g.get('repo') or g.get('local') or g['n'] not in want or '::' + g['n'] not in '::' + g['qn'] or g.get('member'):
                continue
            w = '%s:%s (%s)' % (g['file'].replace(repo.rstrip('/') + '/', ''), g['line'], g['qn'])
            v = flat(g.get('val')) if g.get('val') is not None else value(P, g, k)
            if not v or None in v:
                r.undecided.append('%s (%s preset): value not constant' % (g['qn'], preset))
                continue
            x = want[g['n']]
            n += 1
            seen[g['n']] = v
            if isinstance(x, bytes):
                ok = list(x) == v or len(v) == 1 and v[0] == int.from_bytes(x, 'little') and len(x) > 1
            else:
                ok = v == [x]
            if not ok:
                r.bad('value:%s:%s' % (preset, g['n']), w, '%s is %s in the %s preset; the specification has %s' % (g['n'], fmt(v), preset, fmt(list(x) if isinstance(x, bytes) else [x])))
    for a in per:
        for x in sorted(set().union(*per.values()) - set(per[a])):
            # not used by the code, or the unit would not compile
            missing.setdefault(a, []).append(x)
    r.coverage.update(constants_checked=n, names={a: sorted(b) for a, b in per.items()}, absent_and_unused=missing)
    if not n and not r.violations:
        raise NotDecided('anchor vanished: no constant of the specification found')


def fmt(v):
    return v[0] if len(v) == 1 else '0x' + bytes(v).hex()


def value(P, g, k):
    m = Machine(P, 2)

    def fn():
        p = m.globptr(k)
        v = m.get(p)
        return m.flatten(v) if not isinstance(v, (int, Lin)) else [v]
    try:
        outs = m.explore(State, fn)
    except Exception:
        return None
    if len(outs) == 1 and outs[0].kind == 'ret' and outs[0].st.imprecise is None:
        v = outs[0].val
        if v and all(isinstance(x, int) for x in v):
            return list(v)
    return None


# ---------------------------------------------------------------- C21
def dynamic(g):
    return g.get('repo') and not g.get('local') and not g.get('tls') and not g.get('constinit') and g.get('init')


def c21(repo, work, r, thorough):
    nd = nf = nu = 0
    for preset in front.PRESETS if thorough else front.PRESETS[:1]:
        for defs in ((), ('-DCUSTOM_HASHER',)):
            P = front.load(repo, work, preset, defs)
            if not any(u.endswith('hashtree.cpp') for u in P.units):
                raise NotDecided('anchor vanished: ssz/hashtree.cpp is not analysed')
            G = Graph(P)
            rel = lambda g: '%s:%s (%s)' % (g['file'].replace(repo.rstrip('/') + '/', ''), g['line'], g['qn'])
            for k, g in sorted(P.globals.items()):
                if not dynamic(g):
                    continue
                nd += 1
                seen = G.reach(sorted(G.edges(g['init'])))
                nf += len(seen)
                units = [(None, g['init'])] + [(fk, p) for fk in seen for p in G.parts(P.funcs.get(fk) or {})]
                for fk, e in units:
                    if e is None:
                        continue
                    for x, mode in G.uses(e, lambda x: x.get('k') == 'Glob'):
                        h = P.globals.get(x['g'])
                        if h is None or x['g'] == k or not h.get('repo') or h.get('local') or h.get('tls'):
                            continue
                        nu += 1
                        via = G.path(seen, fk) if fk else 'its own initializer'
                        elsewhere = None
                        if not h.get('def') and not h.get('constexpr') and not h.get('init'):
                            if not scalar(P, h):
                                elsewhere = 'which another translation unit defines%s' % (' (programs built with CUSTOM_HASHER)' if defs else '')
                        elif dynamic(h) and not h.get('inline'):
                            if h['file'] != g['file'] and h['file'].endswith(('.cpp', '.cc', '.cxx')):
                                elsewhere = 'which is dynamically initialized in %s' % h['file'].replace(repo.rstrip('/') + '/', '')
                            elif h['file'] == g['file'] and h['line'] > g['line'] and not g.get('inline'):
                                elsewhere = 'which is initialized after it'
                        if elsewhere:
                            r.bad('order:%s:%s' % (g['n'], h['n']), rel(g), 'the initialization of %s needs %s, %s (through %s)' % (g['qn'], h['qn'], elsewhere, via))
    r.coverage.update(dynamic_initializers=nd, functions_reachable=nf, uses_of_globals=nu)


def scalar(P, g):
    t = g['t']
    m = Machine(P)
    return m.ty(t)['k'] in ('int', 'ptr', 'enum') and str(t).startswith('c') and False


# ---------------------------------------------------------------- C22
def public(x):
    return x.get('acc') == 0


def const_field(m, tk):
    """the type a reference or pointer refers to is const"""
    t = m.ty(tk)
    return t['k'] in ('ref', 'ptr') and str(t['to']).startswith('c')


def fieldmatch(fields, n):
    for f in fields:
        if fieldname(f) == n:
            return f
    return None


def who(m, p, fields):
    """names of the fields of *this that hold the value v"""
    out = []
    for f, t in fields:
        try:
            if same(m, m.get(Ptr('this', (f,))), p):
                out.append(f)
        except (GiveUp, Prune):
            pass
    return out


def same(m, a, b):
    if isinstance(a, LazyV) and isinstance(b, LazyV):
        return a.name == b.name
    try:
        a = m.expand(a) if isinstance(a, LazyV) else a
        b = m.expand(b) if isinstance(b, LazyV) else b
    except (GiveUp, Prune):
        return False
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return m.st.eq0(poly.L(a) - b)
    if isinstance(a, (StructV, LazyV)) and isinstance(b, (StructV, LazyV)):
        ks = set(getattr(a, 'f', ())) | set(getattr(b, 'f', ()))
        return all(same(m, m.field(a, k), m.field(b, k)) for k in ks)
    if isinstance(a, VecV):
        return a.segs == b.segs
    return a == b or repr(a) == repr(b)


def c22(repo, work, r, thorough):
    na = ns = nc = nfun = 0
    cls = set()
    for preset in front.PRESETS if thorough else front.PRESETS[:1]:
        lab = Lab(repo, work, preset)
        P = lab.P
        G = Graph(P)
        for c in spec.CONTAINERS:
            rk = lab.cls(c)
            if rk is None:
                continue
            fields = [(n, t) for n, t in members(lab, rk)]
            names = [n for n, _ in fields]
            mut = {f['n'] for f in P.records[rk].get('fields') or () if f.get('mut')}
            byname = {}
            for mth in P.records[rk].get('methods') or ():
                if public(mth) and not mth.get('st') and not mth.get('del'):
                    byname.setdefault(mth['n'], []).append(mth)
            for n, ms in sorted(byname.items()):
                f = fieldmatch(names, n)
                if f is None:
                    continue
                get = [x for x in ms if x['np'] == 0]
                if get and not any(x.get('c') for x in get):
                    r.bad('nonconst:%s.%s' % (c, n), '%s (%s::%s)' % (lab.where_cls(rk).split(':')[0] + ':%d' % get[0]['l'], c, n), 'accessor %s::%s cannot be called on a const object' % (c, n))
                for x in get:
                    cls.add(c)
                    fk = x['f']
                    fn = P.funcs.get(fk) or {}
                    w = lab.where_fn(fk) if fn else lab.where_cls(rk)
                    ret = fn.get('ret') or x.get('ret')
                    na += 1
                    if ret and lab.m0.ty(ret)['k'] in ('ref', 'ptr') and not const_field(lab.m0, ret):
                        r.bad('mutable-ref:%s.%s' % (c, n), w, 'accessor %s::%s hands out a modifiable reference to the block\'s own data' % (c, n))
                    if 'body' not in fn:
                        if fn:
                            r.undecided.append('%s::%s has no body' % (c, n))
                        continue
                    m, outs = lab.run(fk, rk)
                    for u in gaveup(outs):
                        r.undecided.append('%s::%s: %s' % (c, n, lab.rel(u)))
                    for o in rets(outs):
                        if not exact(o):
                            continue
                        at(m, o)
                        v = o.val
                        if isinstance(v, Ptr):
                            if v.obj != 'this':
                                if v.obj == 'ret' or not v.path:
                                    r.undecided.append('%s::%s returns %s' % (c, n, v))
                                else:
                                    r.undecided.append('%s::%s returns a reference outside the object' % (c, n))
                            elif not v.path or v.path[0] != f:
                                r.bad('wrong-field:%s.%s' % (c, n), w, 'accessor %s::%s returns the field %s' % (c, n, v.path[0] if v.path else '(the object)'))
                            elif len(v.path) > 1:
                                r.undecided.append('%s::%s returns a part of %s' % (c, n, f))
                            continue
                        try:
                            ok = same(m, m.get(Ptr('this', (f,))), v)
                        except (GiveUp, Prune):
                            continue
                        if not ok:
                            other = who(m, v, fields)
                            if other:
                                r.bad('wrong-field:%s.%s' % (c, n), w, 'accessor %s::%s returns the field %s' % (c, n, other[0]))
                            elif differs(m, m.get(Ptr('this', (f,))), v):
                                r.bad('wrong-value:%s.%s' % (c, n), w, 'accessor %s::%s returns %s instead of its field' % (c, n, str(v)[:80]))
                            else:
                                r.undecided.append('%s::%s returns %s' % (c, n, str(v)[:80]))
                # setters: the argument ends up in the field named after the method, the other fields are untouched
                for x in [x for x in ms if x['np'] == 1]:
                    fn = P.funcs.get(x['f']) or {}
                    if 'body' not in fn:
                        continue
                    ns += 1
                    m, outs = lab.run(x['f'], rk)
                    for u in gaveup(outs):
                        r.undecided.append('%s::%s: %s' % (c, n, lab.rel(u)))
                    for o in rets(outs):
                        if not exact(o):
                            continue
                        at(m, o)
                        for g, t in fields:
                            v = m.get(Ptr('this', (g,)))
                            try:
                                old = m.typeval(t, 'this.' + g)
                                unchanged = same(m, v, old)
                            except (GiveUp, Prune):
                                continue
                            if g == f and unchanged:
                                r.bad('setter:%s.%s' % (c, n), lab.where_fn(x['f']), 'setter %s::%s leaves the field unchanged' % (c, n))
                            elif g != f and not unchanged and differs(m, v, old):
                                r.bad('setter:%s.%s' % (c, n), lab.where_fn(x['f']), 'setter %s::%s modifies the field %s' % (c, n, g))
            # const methods must not write a mutable field
            for mth in P.records[rk].get('methods') or ():
                if mut and mth.get('c'):
                    fn = P.funcs.get(mth['f']) or {}
                    for e in G.parts(fn):
                        for x, mode in G.uses(e or {}, lambda x: x.get('k') == 'Mem' and x.get('n') in mut and x.get('r') == rk):
                            if mode in ('write',) and x['n'] in [q for q in names]:
                                F = Fields(lab, c, rk)
                                if x['n'] in F.cpp.values():
                                    r.bad('mutable:%s.%s' % (c, x['n']), lab.where_fn(mth['f']), 'const method %s::%s modifies the field %s' % (c, mth['n'], x['n']))
        # casts
        for fk, f in sorted(P.funcs.items()):
            if not f.get('repo'):
                continue
            nfun += 1
            for e in G.parts(f):
                for x in nodes(e or {}):
                    if x.get('k') == 'Cast' and x.get('x') in ('const', 'c', 'fun', 'reint', 'static'):
                        nc += 1
                        if drops(lab.m0, x):
                            r.bad('const-cast:%s' % f['qn'].split('<')[0], lab.rel('%s:%s (%s)' % (f['file'], x.get('l'), f['qn'])), 'a cast removes const from %s' % lab.m0.ty(x['e']['t']).get('to', x['e']['t']))
    r.coverage.update(accessors=na, setters=ns, classes_with_accessors=sorted(cls), casts_examined=nc, functions_examined=nfun)
    if not na:
        raise NotDecided('anchor vanished: no accessor found')


def differs(m, a, b):
    """the two values are certainly different for some object"""
    if isinstance(a, LazyV) and isinstance(b, LazyV):
        return a.name != b.name and a.t == b.t
    try:
        a = m.expand(a) if isinstance(a, LazyV) else a
        b = m.expand(b) if isinstance(b, LazyV) else b
    except (GiveUp, Prune):
        return False
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return m.st.refuted_eq0(poly.L(a) - b)
    if isinstance(a, (StructV, LazyV)) and isinstance(b, (StructV, LazyV)):
        ks = set(getattr(a, 'f', ())) | set(getattr(b, 'f', ()))
        return any(differs(m, m.field(a, k), m.field(b, k)) for k in sorted(ks) if k[:1] != '#')
    if isinstance(a, LazyV) and isinstance(b, LazyV):
        return a.name != b.name and a.t == b.t
    if isinstance(a, ArrV) and isinstance(b, ArrV) and a.n == b.n and isinstance(a.n, int) and a.n <= 4096:
        return a.n > 0 and differs(m, m.elem(a, 0), m.elem(b, 0))
    return False


def drops(m, x):
    """the explicit cast removes const from what is pointed or referred to"""
    a, b = x['e'].get('t', ''), x.get('t', '')
    if x.get('lv'):
        return a.startswith('c') and not b.startswith('c')
    ta, tb = m.ty(a), m.ty(b)
    while ta['k'] == 'ptr' and tb['k'] == 'ptr':
        if str(ta['to']).startswith('c') and not str(tb['to']).startswith('c'):
            return True
        ta, tb = m.ty(ta['to']), m.ty(tb['to'])
    return False


# ---------------------------------------------------------------- C03, C++ half
def statics(repo, work, r, thorough=False):
    P = front.load(repo, work, 'mainnet')
    G = Graph(P)
    rel = lambda f, l: '%s:%s (%s)' % (f['file'].replace(repo.rstrip('/') + '/', ''), l, f['qn'])
    roots = [k for k, f in P.funcs.items() if f['qn'].startswith(('ssz::HashTree::', 'ssz::Hasher::')) or f['n'] in ('hash_tree', 'hash_tree_root', 'hash_tree_')]
    if not roots:
        raise NotDecided('anchor vanished: hashing code')
    seen = G.reach(sorted(roots))
    ng = nfun = 0
    m = Machine(P)
    synced = set()
    for rk, q in P.records.items():
        if q['qn'] in SYNC:
            synced.add(rk)
    for fk in sorted(seen):
        f = P.funcs.get(fk) or {}
        if not f.get('repo'):
            continue
        nfun += 1
        locks = any(m.recqn(m.reckey(x['t'])) in SYNC for e in G.parts(f) for x in nodes(e or {}) if isinstance(x.get('t'), str) and m.ty(x['t'])['k'] == 'rec')
        for e in G.parts(f):
            if e is None:
                continue

            def pick(x):
                if x.get('k') != 'Glob' and not (x.get('k') == 'Var' and x.get('static')):
                    return False
                return True
            for x, mode in G.uses(e, pick):
                g = P.globals.get(x.get('g'))
                if g is None or not g.get('repo'):
                    continue
                ng += 1
                if g.get('const') or g.get('constq') or g.get('tls') or str(g['t']).startswith('c'):
                    continue
                if m.recqn(m.reckey(g['t'])) in SYNC or mode not in ('write', 'addr'):
                    continue
                if locks:
                    r.undecided.append('%s modifies %s under a lock' % (f['qn'], g['qn']))
                    continue
                if mode == 'addr':
                    r.undecided.append('%s takes the address of %s' % (f['qn'], g['qn']))
                    continue
                r.bad('static:%s' % g['n'], rel(f, x.get('l') or f['line']), 'hashing modifies %s, which has static storage duration and is shared by concurrent calls (%s)' % (g['qn'], G.path(seen, fk)))
            # mutable members of objects that calls may share
            for x, mode in G.uses(e, lambda x: x.get('k') == 'Mem'):
                if mode == 'write' and (f.get('m') or {}).get('c'):
                    q = P.records.get(x.get('r')) or {}
                    for fl in q.get('fields') or ():
                        if fl['n'] == x['n'] and fl.get('mut') and q.get('repo') and m.recqn(m.reckey(fl['t'])) not in SYNC and not locks and onthis(x):
                            r.bad('mutable:%s.%s' % (q['qn'], x['n']), rel(f, x.get('l') or f['line']), 'a const hashing function modifies the mutable member %s::%s without synchronization' % (q['qn'], x['n']))
    r.coverage.update(cxx_functions=nfun, static_variable_uses=ng)


def onthis(x):
    b = x.get('b')
    while isinstance(b, dict) and b.get('k') in ('Cast', 'Paren'):
        b = b['e']
    return isinstance(b, dict) and b.get('k') in ('This', 'Mem')
