"""C10-C14: what deserialization reads and accepts, decided on the abstract traces of every SSZ type's deserialize/decode."""
import re
from . import spec
from .lab import *
from .c_containers import each, check_deserialize, retbool, cxx_size
from ..poly import Lin
from ..report import NotDecided

MEMTAGS = ('oob', 'sub', 'range', 'null', 'div')
N = Lin.var('buf.n')


def deser(lab, r, rk, name, peel=3, **kw):
    """(key, machine, traces) of the class's deserialize split on its result, or None"""
    fk = lab.impl(rk, 'deserialize')
    if fk is None or 'body' not in lab.P.funcs.get(fk, {}):
        r.undecided.append(name + '::deserialize has no body')
        return None
    key = ('deser', rk, peel)
    if not kw and key in lab.cache:
        m, outs = lab.cache[key]
    else:
        m, outs = lab.run(fk, rk, peel=peel, post=retbool, **kw)
        if not kw:
            lab.cache[key] = (m, outs)
    for u in gaveup(outs):
        r.undecided.append('%s::deserialize: %s' % (name, lab.rel(u)))
    return fk, m, outs


def peel_for(name, thorough):
    if 'Bitlist' in name:
        return 9
    return 6 if thorough else 3


def presets(thorough):
    return front.PRESETS if thorough else ('mainnet',)


def all_presets(repo, work, thorough):
    """every preset; the second one only for classes the first did not have"""
    seen = set()
    labs = [Lab(repo, work, preset) for preset in front.PRESETS]
    small = {fam(name)[0] for lab in labs for _, name in lab.classes() if fam(name)[1] <= 1024}
    for lab in labs:
        for rk, name in lab.classes():
            f, n = fam(name)
            if n > 1024 and f in small:
                continue        # the same template with a smaller parameter is analysed
            if name in spec_names() or name not in seen or thorough:
                seen.add(name)
                yield lab, rk, name


def fam(name):
    m = re.match(r'^(.*VectorFixedSizedParts<.*), (\d+)>$', name)
    return (m.group(1), int(m.group(2))) if m else (name, 0)


def spec_names():
    return {'eth::' + n for n in spec.CONTAINERS}


def accepting(outs):
    return [o for o in rets(outs) if o.val is True and exact(o)]


# ---------------------------------------------------------------- C10
def c10(repo, work, r, thorough):
    nty = nob = ntr = 0
    tags = {}
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            d = deser(lab, r, rk, name, peel_for(name, thorough))
            if not d:
                continue
            fk, m, outs = d
            nty += 1
            ntr += len(outs)
            for t in MEMTAGS:
                tags[t] = tags.get(t, 0) + m.nobl.get(t, 0)
            for tag, where, msg, ex in m.obl:
                if tag in MEMTAGS:
                    if ex:
                        r.bad('%s:%s' % (tag, re.sub(r'^.*\((.*)\)$', r'\1', where)), lab.rel(where), '%s (deserializing %s)' % (msg, name))
                    else:
                        r.undecided.append('%s: %s (deserializing %s)' % (lab.rel(where), msg, name))
    r.coverage.update(types=nty, traces=ntr, obligations=sum(tags.values()), obligations_by_kind=tags)
    if not tags.get('sub') or not tags.get('oob'):
        raise NotDecided('no memory access of any deserialize was analysed')


# ---------------------------------------------------------------- C11
def tiles(st, ranges, n):
    """None if the ranges tile [0, n) in order, else a description; second component says if refuted"""
    cur = poly.L(0)
    for a, b in ranges:
        if not st.eq0(poly.L(a) - cur):
            return 'a part is read from byte %s although the previous one ended at %s' % (a, cur), st.refuted_eq0(poly.L(a) - cur)
        cur = poly.L(b)
    if not st.eq0(cur - n):
        return 'the last part ends at byte %s of %s' % (cur, n), st.refuted_eq0(cur - n)
    return None, False


def desers(o):
    """(pointer, class, begin, end, size) of the nested deserialize calls that succeeded on the trace"""
    out = []
    for e in o.st.events:
        if e[0] == 'deser' and e[3][0] == 'buf':
            out.append((e[1], e[2], e[3][1], e[3][2], e[5]))
    return out


def c11(repo, work, r, thorough):
    nty = nfix = ntr = nvar = 0
    for preset in presets(True):
        lab = Lab(repo, work, preset)
        for F in each(lab, r):
            with shield(r, F.name):
                nty += 1
                check_deserialize(lab, F, r, lambda *a: None, r.bad)
    seen = set()
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            short = name.replace('eth::', '')
            d = deser(lab, r, rk, name, peel_for(name, thorough))
            if not d:
                continue
            fk, m, outs = d
            size = cxx_size(lab, rk, {})
            w = lab.where_fn(fk)
            acc = accepting(outs)
            if size:
                nfix += 1
                for o in acc:
                    ntr += 1
                    at(m, o)
                    if not o.st.eq0(N - size):
                        if o.st.refuted_eq0(N - size):
                            r.bad('length:' + short, w, '%s::deserialize accepts inputs that are not exactly %d bytes long' % (name, size))
                        else:
                            r.undecided.append('%s::deserialize: length not decided' % name)
                if not acc and outs and all(o.kind in ('ret', 'throw') for o in outs):
                    r.bad('never:' + short, w, '%s::deserialize accepts no input' % name)
            elif size == 0 and name.startswith('eth::List'):
                nvar += 1
                if not acc and outs and all(o.kind in ('ret', 'throw') for o in outs):
                    r.bad('never:' + short, w, '%s::deserialize accepts no input' % name)
                for o in acc:
                    ntr += 1
                    at(m, o)
                    st = o.st
                    ds = desers(o)
                    cnt = vec_len(m, rk)
                    if cnt is None:
                        r.undecided.append('%s::deserialize: stored elements not understood' % name)
                        continue
                    if not st.eq0(poly.L(cnt) - len(ds)):
                        if st.refuted_eq0(poly.L(cnt) - len(ds)):
                            r.bad('count:' + short, w, '%s::deserialize stores %s elements after reading %d' % (name, cnt, len(ds)))
                        continue
                    if 'Variable' in name:
                        if not ds:
                            if not st.eq0(N):
                                if st.refuted_eq0(N):
                                    r.bad('empty:' + short, w, '%s::deserialize turns a non-empty input into an empty list' % name)
                            continue
                        a0 = poly.L(ds[0][2])
                        want = poly.L(4 * len(ds))
                        if not st.eq0(a0 - want):
                            if st.refuted_eq0(a0 - want):
                                r.bad('first-offset:' + short, w, '%s::deserialize accepts a first offset %s for %d elements' % (name, a0, len(ds)))
                            continue
                        cur = a0
                        bad = None
                        for i, (p, c, a, b, s) in enumerate(ds):
                            if not st.eq0(poly.L(a) - cur):
                                bad = 'element %d starts at %s instead of %s' % (i, a, cur)
                                ref = st.refuted_eq0(poly.L(a) - cur)
                                break
                            cur = poly.L(b)
                        else:
                            if not st.eq0(cur - N):
                                bad = 'the last element ends at %s of %s' % (cur, N)
                                ref = st.refuted_eq0(cur - N)
                        if bad:
                            if ref:
                                r.bad('parts:' + short, w, '%s::deserialize: %s' % (name, bad))
                            else:
                                r.undecided.append('%s::deserialize: %s' % (name, bad))
                    else:
                        bad, ref = tiles(st, [(a, b) for _, _, a, b, _ in ds], N)
                        if bad and ref:
                            r.bad('parts:' + short, w, '%s::deserialize: %s' % (name, bad))
                        elif bad:
                            r.undecided.append('%s::deserialize: %s' % (name, bad))
                        for _, _, a, b, s in ds:
                            if isinstance(s, int) and s and not st.eq0(poly.L(b) - a - s) and st.refuted_eq0(poly.L(b) - a - s):
                                r.bad('element-size:' + short, w, '%s::deserialize hands an element %s bytes instead of %d' % (name, poly.L(b) - a, s))
    r.coverage.update(containers=nty, fixed_size_types=nfix, list_types=nvar, accepting_traces=ntr)
    if not nfix or not nvar or not ntr:
        raise NotDecided('nothing analysed')


def fill_list(m, rk, n, elem='el%d', bit='bit%d'):
    """the list object has exactly n elements, each arbitrary"""
    vf = vecfields(m, rk)
    if len(vf) != 1:
        raise GiveUp('members of the list')
    q = Ptr('this', (vf[0],))
    m.get(q)
    old = m.get(q)
    if isinstance(old, LazyV):
        old = m.expand(old)
    if m.ty(old.el)['k'] == 'int':
        es = []
        for i in range(n):
            m.st.declare(bit % i, 0, 1)
            m.st.domain(bit % i, (0, 1))
            es.append(('e', Lin.var(bit % i)))
    else:
        es = [('e', LazyV(old.el, elem % i)) for i in range(n)]
    m.put(q, VecV(old.el, es))


def vecfields(m, rk):
    out = []
    for n, t in m.fields(rk):
        k = m.reckey(t)
        if k and m.recqn(k) == 'std::vector':
            out.append(n)
    return out


def vec_len(m, rk):
    """length of the sequence a list object holds in the current state"""
    vf = vecfields(m, rk)
    if len(vf) != 1:
        return None
    try:
        v = m.get(Ptr('this', (vf[0],)))
        return m.vlen(v) if isinstance(v, VecV) else m.clen(v)
    except (GiveUp, Prune, AttributeError):
        return None


# ---------------------------------------------------------------- C12
def ctor_with_limit(lab, rk):
    for mm in lab.P.records[rk].get('methods') or ():
        f = lab.P.funcs.get(mm['f'])
        if f and f['n'] == lab.P.records[rk]['qn'].split('::')[-1] and f.get('rec') == rk:
            ps = f.get('params') or ()
            if len(ps) == 1 and lab.m0.ty(ps[0]['t'])['k'] == 'int':
                return mm['f']
    for k, f in lab.P.funcs.items():
        if f.get('rec') == rk and (f.get('ctor') or 'inits' in f) and len(f.get('params') or ()) == 1 and lab.m0.ty(f['params'][0]['t'])['k'] == 'int':
            return k
    return None


def limit_setter(lab, rk):
    for k, f in lab.P.funcs.items():
        if f.get('rec') == rk and f['n'] == 'limit' and len(f.get('params') or ()) == 1:
            return k
    return None


def is_list(name):
    return name.startswith('eth::List') or name == 'eth::Bitlist'


LIM = Lin.var('limit')


def with_limit(lab, rk, how):
    """builder of a list object that was given the limit `limit` through its constructor or its setter"""
    ck = ctor_with_limit(lab, rk)
    sk = limit_setter(lab, rk)

    def build(m):
        m.st.declare('limit', 1, 1 << 45)
        if how == 'constructor':
            return m.construct(ck, lab.P.funcs[ck], [LIM], 'R:' + rk)
        # through the setter on an arbitrary object
        m.st.heap['this'] = LazyV('R:' + rk, 'this')
        m.invoke(sk, lab.P.funcs[sk], Ptr('this'), [LIM])
        return m.st.heap['this']
    if how == 'constructor':
        return build if ck else None
    return build if sk else None


def element_of(lab, rk):
    t = lab.P.records[rk].get('targs') or ()
    return lab.m0.reckey(t[0]) if t else None


def large_input(m, n, bits=None):
    """the input has n bytes (its last byte ends a list of so many bits) and the limit is 3"""
    m.st.add_eq(poly.L(LIM) - 3)
    if bits is None:
        m.st.add_eq(Lin.var('buf.n') - n)
        return
    v = VecV('b:unsigned char', [('op', 'buf', 0, n - 1), ('e', 1 << bits % 8)])
    m.st.add_eq(Lin.var('buf.n') - n)
    m.put(Ptr('buf'), v)


def c12(repo, work, r, thorough):
    nl = nt = nways = nbig = 0
    over_limit = set()
    lists = set()
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            if not is_list(name):
                continue
            short = name.replace('eth::', '')
            lists.add(name)
            for how in ('constructor', 'setter'):
                b = with_limit(lab, rk, how)
                if b is None:
                    if how == 'constructor':
                        r.undecided.append('%s has no constructor taking a limit' % name)
                    continue
                nways += 1
                fk = lab.impl(rk, 'deserialize')
                m, outs = lab.run(fk, rk, peel=peel_for(name, thorough), post=retbool, this=b, root=True)
                for u in gaveup(outs):
                    r.undecided.append('%s::deserialize: %s' % (name, lab.rel(u)))
                for o in accepting(outs):
                    at(m, o)
                    cnt = vec_len(m, rk)
                    if cnt is None:
                        r.undecided.append('%s::deserialize: stored elements not understood' % name)
                        continue
                    nt += 1
                    over = poly.L(cnt) - LIM - 1
                    if not o.st.ge0(-over - 1):
                        if o.st.point(ge=[over]) is not None:
                            r.bad('limit:' + short, lab.where_fn(fk), '%s::deserialize accepts %s elements although its limit (given through the %s) can be smaller' % (name, cnt, how))
                        else:
                            r.undecided.append('%s::deserialize: limit not decided' % name)
            # counts that do not fit narrower integers, far above a small limit
            esz = {'eth::Bitlist': 1}.get(name) or name.startswith('eth::ListFixed') and cxx_size(lab, element_of(lab, rk), {})
            b = with_limit(lab, rk, 'constructor')
            for cnt in (257, 65537) if esz and b and name.split('<')[0] not in over_limit else ():
                if name == 'eth::Bitlist':
                    nbytes = cnt // 8 + 1
                else:
                    nbytes = cnt * esz
                m, outs = lab.run(lab.impl(rk, 'deserialize'), rk, peel=cnt + 9, post=retbool, this=b, root=True, prep=lambda m, a: large_input(m, nbytes, cnt if name == 'eth::Bitlist' else None))
                nbig += 1
                for o in accepting(outs):
                    if exact(o):
                        r.bad('limit:' + short, lab.where_fn(lab.impl(rk, 'deserialize')), '%s::deserialize can accept %d elements although its limit is 3' % (name, cnt))
                        over_limit.add(name.split('<')[0])
                        break
    # every list inside a container has the limit of the specification (0 would mean unlimited)
    from .c_tree import declared_limits
    nd = 0
    for preset in front.PRESETS:
        lab = Lab(repo, work, preset)
        for F in each(lab, r):
            with shield(r, F.name):
                nd += declared_limits(lab, F, r)
    # Merkleization refuses more chunks than the limit
    nh = tree_refuses(lab, r)
    r.coverage.update(lists=len(lists), ways_to_set_limits=nways, declared_limits=nd, accepting_traces=nt, tree_traces=nh, large_inputs=nbig)
    if not lists or not nt or not nh:
        raise NotDecided('nothing analysed')


def tree_ctors(lab):
    out = []
    for k, f in lab.P.funcs.items():
        if f['qn'].split('<')[0] == 'ssz::HashTree::HashTree' and 'body' in f and len(f.get('params') or ()) == 2:
            out.append(k)
    return out


def tree_refuses(lab, r):
    """no trace of the tree's constructor reaches a hash computation or a normal return with more chunks than a non-zero limit"""
    nt = 0
    ks = tree_ctors(lab)
    if not ks:
        raise NotDecided('anchor vanished: HashTree::HashTree(chunks, limit)')
    for fk in ks:
        f = lab.P.funcs[fk]
        el = lab.m0.reckey(lab.m0.ty(f['params'][0]['t']).get('to', ''))
        if el is None:
            continue
        targ = lab.P.records[el].get('targs')
        if not targ or lab.m0.reckey(targ[0]) is None:
            continue      # the constructor over bytes delegates
        raw = RawTree(lab.P, 2)

        def init():
            s = State()
            s.declare('chunks.n', 0, 1 << 40)
            s.declare('limit', 1, 1 << 45)
            s.heap['chunks'] = VecV(targ[0], [('op', 'chunks', 0, Lin.var('chunks.n'))])
            s.add_ge(Lin.var('chunks.n') - LIM - 1)
            return s

        def fn():
            p = raw.alloc('tree', raw.uninit_rec(f['rec']))
            raw.run_ctor(fk, f, p, [Ptr('chunks'), LIM])
            return True
        outs = raw.explore(init, fn)
        for o in outs:
            nt += 1
            if o.kind == 'throw':
                continue
            if o.kind == 'ret' or o.kind == 'giveup' and o.why.startswith('STOP'):
                if exact(o) and o.st.point(ge=[Lin.var('chunks.n') - LIM - 1]) is not None:
                    r.bad('tree-limit', lab.where_fn(fk), 'HashTree builds a tree of more chunks than its limit instead of refusing')
            elif o.kind == 'giveup':
                r.undecided.append('HashTree::HashTree: %s' % lab.rel(o.why))
    return nt


class RawTree(Machine):
    """the tree's own code, without the summary other classes see; stops where hashing starts"""
    def __init__(self, prog, peel=2):
        super().__init__(prog, peel)
        self.treemodel = False

    def hash_blocks(self, args):
        raise GiveUp('STOP')


# ---------------------------------------------------------------- C13
def bytesym(m, i):
    """the symbol of byte i of the input"""
    v = m.get(Ptr('buf', (i,)))
    t = m.astab(v) if not isinstance(v, int) else None
    return v, t


def isbit(m, val, src, bit):
    """True/False/None: val is bit number `bit` of the input byte src (a one-symbol value) for every byte still possible"""
    t = m.astab(src)
    if t is None:
        return None
    try:
        dom = m.domain(t.sym)
    except GiveUp:
        return None
    c = val
    if isinstance(c, (bool, int)):
        f = lambda x: bool(c)
    elif isinstance(c, Cond) and c.op == 'tab' and c.a.sym == t.sym:
        f = lambda x: bool(c.a.f[x])
    elif isinstance(c, Cond) and c.op in ('ge', 'eq', 'ne') and isinstance(c.a, Lin) and set(c.a.c) == {t.sym}:
        op = {'ge': lambda y: y >= 0, 'eq': lambda y: y == 0, 'ne': lambda y: y != 0}[c.op]
        f = lambda x: op(c.a.k + c.a.c[t.sym] * x)
    elif isinstance(c, Tab) and c.sym == t.sym:
        f = lambda x: bool(c.f[x])
    elif isinstance(c, Lin) and set(c.c) == {t.sym}:
        f = lambda x: bool(c.k + c.c[t.sym] * x)
    elif isinstance(c, Lin) and len(c.c) == 1 and isinstance(m.st.meta.get(('def', next(iter(c.c)))), Tab) and m.st.meta[('def', next(iter(c.c)))].sym == t.sym:
        d = m.st.meta[('def', next(iter(c.c)))]
        a = next(iter(c.c.values()))
        f = lambda x: bool(c.k + a * d.f[x])
    else:
        return None
    try:
        return all(f(x) == bool((t.f[x] >> bit) & 1) for x in dom)
    except KeyError:
        return None


def c13(repo, work, r, thorough):
    ntypes = ntr = nbits = 0
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            short = name.replace('eth::', '')
            bv = re.match(r'^eth::Bitvector<(\d+)>$', name)
            if not (bv or name in ('eth::Boolean', 'eth::Bitlist')):
                continue
            if bv and int(bv.group(1)) > 512:
                continue
            d = deser(lab, r, rk, name, 10 if name == 'eth::Bitlist' else 3)
            if not d:
                continue
            ntypes += 1
            fk, m, outs = d
            w = lab.where_fn(fk)
            acc = accepting(outs)
            if not acc and outs and all(o.kind in ('ret', 'throw') for o in outs):
                r.bad('never:' + short, w, '%s::deserialize accepts no input' % name)
            if name == 'eth::Bitlist':
                nbits += bitlist(lab, rk, m, acc, w, r)
                ntr += len(acc)
                continue
            for o in acc:
                at(m, o)
                ntr += 1
                n = int(bv.group(1)) if bv else 1
                nb = (n + 7) // 8
                if not o.st.ge0(N - nb):
                    continue        # C11
                last = m.get(Ptr('buf', (nb - 1,)))
                t = m.astab(last)
                dom = m.domain(t.sym) if t is not None else None
                if dom is None:
                    r.undecided.append('%s::deserialize: last byte %s' % (name, last))
                    continue
                over = sorted(t.f[x] for x in dom if t.f[x] >> ((n - 1) % 8 + 1))
                if over:
                    r.bad('canonical:' + short, w, '%s::deserialize accepts a %s byte %#x' % (name, 'last' if bv else 'boolean', over[0]))
                    continue
                dm = [nm for nm, ft in m.fields(rk)]
                if len(dm) != 1:
                    r.undecided.append('%s has several members' % name)
                    continue
                for i in range(n):
                    v = m.get(Ptr('this', (dm[0],)) if not bv else Ptr('this', (dm[0], '_M_elems', i)))
                    ok = isbit(m, v, m.get(Ptr('buf', (i // 8,))), i % 8)
                    if ok is None:
                        r.undecided.append('%s::deserialize: bit %d is %s' % (name, i, str(v)[:60]))
                        break
                    nbits += 1
                    if not ok:
                        r.bad('value:' + short, w, '%s::deserialize does not store bit %d of byte %d as bit %d' % (name, i % 8, i // 8, i))
                        break
    r.coverage.update(types=ntypes, accepting_traces=ntr, bits_compared=nbits)
    if ntypes < 3 or not ntr:
        raise NotDecided('nothing analysed')


def bitlist(lab, rk, m, acc, w, r):
    nbits = 0
    vf = vecfields(m, rk)
    for o in acc:
        at(m, o)
        st = o.st
        if not st.ge0(N - 1):
            if st.refuted_ge0(N - 1):
                r.bad('no-bytes:Bitlist', w, 'Bitlist::deserialize accepts an empty input, which has no end marker')
            continue
        lo, hi = st.bounds(N)
        last = m.get(Ptr('buf', (lo - 1 if lo == hi else N - 1,)))
        t = m.astab(last)
        if t is None:
            r.undecided.append('Bitlist::deserialize: last byte %s' % (last,))
            continue
        dom = [t.f[x] for x in m.domain(t.sym)]
        if 0 in dom:
            r.bad('no-marker:Bitlist', w, 'Bitlist::deserialize accepts a last byte of zero, which has no end marker')
            continue
        if lo != hi or len(vf) != 1:
            r.undecided.append('Bitlist::deserialize: trace of unknown length')
            continue
        v = m.get(Ptr('this', (vf[0],)))
        ln = m.vlen(v) if isinstance(v, VecV) else None
        top = {x.bit_length() - 1 for x in dom}
        if len(top) != 1:
            r.undecided.append('Bitlist::deserialize: trace with several marker positions')
            continue
        want = 8 * (lo - 1) + top.pop()
        if ln is None or not st.eq0(poly.L(ln) - want):
            if ln is not None and st.refuted_eq0(poly.L(ln) - want):
                r.bad('count:Bitlist', w, 'Bitlist::deserialize stores %s bits of a %d-byte encoding that has %d' % (ln, lo, want))
            else:
                r.undecided.append('Bitlist::deserialize: number of bits not decided')
            continue
        for i in range(want):
            x = m.elem(v, i)
            ok = isbit(m, x, m.get(Ptr('buf', (i // 8,))), i % 8)
            if ok is None:
                r.undecided.append('Bitlist::deserialize: bit %d is %s' % (i, str(x)[:60]))
                break
            nbits += 1
            if not ok:
                r.bad('value:Bitlist', w, 'Bitlist::deserialize does not store bit %d of byte %d as bit %d' % (i % 8, i // 8, i))
                break
    return nbits


# ---------------------------------------------------------------- C14
PARSE = ('deserialize', 'decode', 'deserialize_', 'decode_')


def heavy(name):
    """text parsing of long byte strings: the same template is analysed with a small parameter"""
    m = re.match(r'^eth::(Bytes|Bitvector)<(\d+)>$', name)
    return bool(m) and int(m.group(2)) > {'Bytes': 4, 'Bitvector': 9}[m.group(1)]


def dropped(m, o):
    """parts whose failure a successful trace does not exclude"""
    out = []
    for e in o.st.events:
        if e[0] in ('deser', 'ydecode'):
            ok = e[4]
            d = m.decide(ok)
            if d is not True:
                what = m.objname(e[1] if e[0] == 'deser' else e[2]) if isinstance(e[1] if e[0] == 'deser' else e[2], Ptr) else None
                out.append((what or 'a nested value', e[-1], d))
        elif e[0] == 'caught':
            out.append(('an exception', e[-1], False))
    return out


def c14(repo, work, r, thorough):
    from .c_equal import walk
    nop = ntr = nparts = ncalls = 0
    seen = set()
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            for op in ('deserialize', 'decode'):
                if heavy(name):
                    continue
                fk = lab.impl(rk, op)
                if fk is None or 'body' not in lab.P.funcs.get(fk, {}):
                    r.undecided.append('%s::%s has no body' % (name, op))
                    continue
                m, outs = lab.run(fk, rk, peel=9 if name == 'eth::Bitlist' and op == 'deserialize' else 2, post=retbool)
                for u in gaveup(outs):
                    r.undecided.append('%s::%s: %s' % (name, op, lab.rel(u)))
                nop += 1
                for o in accepting(outs):
                    at(m, o)
                    ntr += 1
                    nparts += sum(e[0] in ('deser', 'ydecode') for e in o.st.events)
                    for what, where, d in dropped(m, o):
                        r.bad('dropped:%s:%s' % (name.replace('eth::', ''), op), lab.rel(where), '%s::%s can succeed although reading %s failed' % (name, op, what.replace('this.', '')))
                if outs and all(o.kind == 'ret' and o.val is False for o in outs):
                    r.bad('never:%s:%s' % (name.replace('eth::', ''), op), lab.where_fn(fk), '%s::%s never succeeds' % (name, op))
    lab = Lab(repo, work, 'mainnet')
    P = lab.P
    # YAML conversions of the repository
    nconv = 0
    for k, f in P.funcs.items():
        if f['qn'].startswith('YAML::convert<') and f['n'] == 'decode' and f.get('repo') and 'body' in f and len(f.get('params') or ()) == 2:
            mm = re.match(r'^YAML::convert<(.*)>::decode$', f['qn'])
            rk = next((x for x, nm in lab.classes() if nm == mm.group(1)), None)
            rec = P.records.get(f.get('rec'))
            if rec and rec.get('targs') and isinstance(rec['targs'][0], str):
                rk = lab.m0.reckey(rec['targs'][0]) or rk
            if rk is None or not lab.m0.is_ssz(rk):
                continue

            def args(m, f):
                m.st.heap['out'] = LazyV('R:' + rk, 'out')
                return [m.alloc('node', m.typeval(m.ty(f['params'][0]['t'])['to'], 'node')), Ptr('out')]
            m, outs = lab.run(k, None, args=args, post=retbool)
            nconv += 1
            for u in gaveup(outs):
                r.undecided.append('%s: %s' % (f['qn'], lab.rel(u)))
            for o in accepting(outs):
                at(m, o)
                for what, where, d in dropped(m, o):
                    r.bad('dropped:YAML::convert', lab.rel(where), '%s can succeed although decoding %s failed' % (f['qn'], what))
    # results thrown away anywhere else
    tgt = {k for k, f in P.funcs.items() if f['n'] in PARSE and f.get('ret') and lab.m0.ty(f['ret']).get('bool') and (f.get('repo') or f['qn'].startswith(('eth::', 'ssz::')))}
    for k, f in P.funcs.items():
        if 'body' not in f or not f.get('repo'):
            continue
        for x in walk(f['body']):
            if x.get('k') in ('MCall', 'Call') and x.get('f') in tgt:
                ncalls += 1
            if x.get('k') == 'E' and isinstance(x.get('e'), dict):
                y = x['e']
                while y.get('k') in ('Cast', 'Paren') and isinstance(y.get('e'), dict):
                    y = y['e']
                if y.get('k') in ('MCall', 'Call') and y.get('f') in tgt and not (f.get('rec') and lab.m0.is_ssz(f['rec']) and f['n'] in PARSE):
                    r.bad('discarded:' + f['qn'], lab.rel('%s:%s (%s)' % (f['file'], y.get('l', f['line']), f['qn'])), '%s throws away the result of %s' % (f['qn'], P.funcs[y['f']]['qn']))
    r.coverage.update(operations=nop, accepting_traces=ntr, nested_results=nparts, yaml_conversions=nconv, parse_call_sites=ncalls)
    if not nparts or not ncalls:
        raise NotDecided('nothing analysed')
