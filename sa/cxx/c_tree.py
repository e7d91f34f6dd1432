"""C15 (limits and mixed-in lengths), C16 (zero-subtree table), C24 (Merkle roots)."""
import re
from . import spec
from .lab import *
from .c_containers import each, check_hash, tree_of, Fields
from .c_parse import all_presets, is_list, vecfields, fam, fill_list, ctor_with_limit, limit_setter, with_limit, LIM, deser, accepting, peel_for
from .merkle import TreeMachine, ceil_log2
from ..poly import Lin
from ..report import NotDecided

MAXLIM = 1 << 45


def intfield(m, rk):
    """the only integer member of a list class: its limit"""
    out = [n for n, t in m.fields(rk) if m.ty(t)['k'] == 'int' and not m.ty(t).get('bool')]
    return out[0] if len(out) == 1 else None


def element(lab, rk):
    t = lab.P.records[rk].get('targs') or ()
    return lab.m0.reckey(t[0]) if t else None


def elname(lab, rk):
    k = element(lab, rk)
    return lab.P.records[k]['name'].replace('eth::', '') if k else ''


def limit_expr(m, lab, rk, name, lim):
    """expected chunk limit as a value in the current state"""
    if name == 'eth::Bitlist':
        return m.divmod(poly.L(lim) + 255, 256)[0]
    if elname(lab, rk) in ('Slot', 'Boolean'):
        s = {'Slot': 8, 'Boolean': 1}[elname(lab, rk)]
        return m.divmod(poly.L(lim) * s + 31, 32)[0]
    return lim


def capped(field):
    def setup(m):
        m.max_len = 1 << 26

    def prep(m, args):
        m.st.declare('this.' + field, 0, MAXLIM)
        if 'this.' + field in m.st.rng:
            m.st.rng['this.' + field] = (0, MAXLIM)
    return setup, prep


def hash_traces(lab, rk, name, r, peel, count=None):
    fk = lab.impl(rk, 'hash_tree')
    if fk is None or 'body' not in lab.P.funcs.get(fk, {}):
        r.undecided.append(name + '::hash_tree has no body')
        return None
    f = intfield(lab.m0, rk) if is_list(name) else None
    kw = {}
    if f:
        kw['setup'], kw['prep'] = capped(f)
        if count is not None:
            pre, su = kw['prep'], kw['setup']

            def setup(m):
                su(m)
                m.EACH = max(m.EACH, count // 700)
            kw['setup'] = setup

            def prep(m, a):
                pre(m, a)
                fill_list(m, rk, count, 'this.%s[%%d]' % vecfields(m, rk)[0])
            kw['prep'] = prep
    m, outs = lab.run(fk, rk, peel=peel, **kw)
    for u in gaveup(outs):
        r.undecided.append('%s::hash_tree: %s' % (name, lab.rel(u)))
    return fk, m, outs


def declared(preset):
    """(container, field, type, element limit) of every list and bit list field"""
    for c, fs in spec.CONTAINERS.items():
        for f, t in fs:
            if isinstance(t, tuple) and t[0] in ('List', 'Bitlist'):
                yield c, f, t, spec.const(preset, t[-1])


def constructors(lab, rk):
    """constructors other than copy and move"""
    out = []
    for k, f in lab.P.funcs.items():
        if f.get('rec') == rk and (f['n'] == lab.P.records[rk]['name'].replace('eth::', '').split('<')[0] or 'inits' in f) and not f['n'].startswith(('operator', '~')):
            ps = f.get('params') or []
            if len(ps) == 1 and lab.m0.ty(ps[0]['t'])['k'] == 'ref' and lab.m0.reckey(lab.m0.ty(ps[0]['t'])['to']) == rk:
                continue
            if 'body' in f or 'inits' in f or f.get('defaulted'):
                if f['n'].split('<')[0] == lab.P.records[rk]['qn'].split('::')[-1].split('<')[0]:
                    out.append(k)
    return out


def built(lab, fk, rk, probe):
    """explore constructor fk with arbitrary arguments and apply probe(m, pointer) to the new object"""
    f = lab.P.funcs[fk]
    m = Machine(lab.P, 2)

    def init():
        s = State()
        return s

    def fn():
        args = lab.args(m, f)
        v = m.construct(fk, f, args, 'R:' + rk)
        p = m.alloc('obj', v)
        return probe(m, p)
    return m, m.explore(init, fn)


def c15(repo, work, r, thorough):
    nlist = ntr = nfix = nlim = nkeep = nbig = 0
    wide = set()
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            short = name.replace('eth::', '')
            if is_list(name):
                nlist += 1
                h = hash_traces(lab, rk, name, r, 9 if name == 'eth::Bitlist' else 3)
                f = intfield(lab.m0, rk)
                vf = vecfields(lab.m0, rk)
                if not h or not f or len(vf) != 1:
                    r.undecided.append('%s: members not understood' % name)
                    continue
                fk, m, outs = h
                w = lab.where_fn(fk)
                runs = [(m, o) for o in rets(outs)]
                # counts that do not fit narrower integers
                fam_ = (fk.split('I')[0] if name == 'eth::Bitlist' else name.split('<')[0], elname(lab, rk) in ('Slot', 'Boolean'))
                for big in (257,) + ((65537,) if fam_ not in wide else ()):
                    if not any(exact(o) for _, o in runs):
                        break
                    h = hash_traces(lab, rk, name, r, 3, big)
                    runs += [(h[1], o) for o in rets(h[2])]
                    nbig += 1
                wide.add(fam_)
                for m, o in runs:
                    if not exact(o):
                        continue
                    at(m, o)
                    ntr += 1
                    t = tree_of(o.val)
                    cnt = m.clen(m.get(Ptr('this', (vf[0],))))
                    if t is None:
                        if isinstance(o.val, VecV) and all(g[0] == 'e' for g in o.val.segs):
                            r.bad('no-mix:' + short, w, '%s::hash_tree can return chunks without its length mixed in' % name)
                        else:
                            r.undecided.append('%s::hash_tree: result %s' % (name, str(o.val)[:100]))
                        continue
                    src, lim, mix = t
                    if len(mix) != 1:
                        r.bad('mix:' + short, w, '%s::hash_tree mixes a length in %d times on a path (%s elements)' % (name, len(mix), cnt))
                    elif not isinstance(mix[0], (int, Lin)):
                        r.undecided.append('%s::hash_tree mixes in %s' % (name, mix[0]))
                    elif not o.st.eq0(poly.L(mix[0]) - cnt):
                        if o.st.refuted_eq0(poly.L(mix[0]) - cnt):
                            r.bad('mixed:' + short, w, '%s::hash_tree mixes in %s, the list has %s elements' % (name, mix[0], cnt))
                        else:
                            r.undecided.append('%s::hash_tree: mixed-in value not decided' % name)
                    want = limit_expr(m, lab, rk, name, m.get(Ptr('this', (f,))))
                    if not isinstance(lim, (int, Lin)):
                        r.undecided.append('%s::hash_tree: tree limit %s' % (name, lim))
                    elif not o.st.eq0(poly.L(lim) - want):
                        if o.st.refuted_eq0(poly.L(lim) - want):
                            r.bad('tree-limit:' + short, w, '%s::hash_tree builds the tree with limit %s instead of %s' % (name, lim, want))
                        else:
                            r.undecided.append('%s::hash_tree: tree limit not decided' % name)
                # the limit is what the constructor or the setter was given, and parsing keeps it
                for how in ('constructor', 'setter'):
                    b = with_limit(lab, rk, how)
                    if not b:
                        continue
                    mm = Machine(lab.P, 2)

                    def fn():
                        v = b(mm)
                        return mm.get(mm.alloc('o', v) + f)
                    for o in mm.explore(State, fn):
                        if o.kind == 'ret' and exact(o) and isinstance(o.val, (int, Lin)):
                            nlim += 1
                            if o.st.refuted_eq0(poly.L(o.val) - LIM):
                                r.bad('given-limit:' + short, lab.where_cls(rk), '%s keeps the limit %s when its %s is given another' % (name, o.val, how))
                d = deser(lab, r, rk, name, peel_for(name, thorough))
                for o in accepting(d[2]) if d else ():
                    at(d[1], o)
                    nkeep += 1
                    v = d[1].get(Ptr('this', (f,)))
                    if isinstance(v, (int, Lin)) and v != Lin.var('this.' + f) and o.st.refuted_eq0(poly.L(v) - Lin.var('this.' + f)):
                        r.bad('lost-limit:' + short, lab.where_fn(d[0]), '%s::deserialize changes the limit of the list' % name)
            elif name.replace('eth::', '') not in spec.CONTAINERS:
                if fam(name)[1] > 1024:
                    continue
                h = hash_traces(lab, rk, name, r, 2)
                if not h:
                    continue
                fk, m, outs = h
                nfix += 1
                for o in rets(outs):
                    if exact(o):
                        t = tree_of(o.val)
                        ntr += 1
                        if t and t[2]:
                            r.bad('mix:' + short, lab.where_fn(fk), '%s::hash_tree mixes a length into the root of a type that is not a list' % name)
                        if t and isinstance(t[1], int) and t[1]:
                            n = leafcount(lab, rk, name)
                            if n and spec.depth(t[1]) != spec.depth(n):
                                r.bad('tree-limit:' + short, lab.where_fn(fk), '%s::hash_tree pads its %d chunks to a limit of %d' % (name, n, t[1]))
    # containers: no length mixed in; limits of their lists as declared by the specification
    nc = nd = 0
    for preset in front.PRESETS:
        lab = Lab(repo, work, preset)
        for F in each(lab, r):
            with shield(r, F.name):
                nc += 1
                check_hash(lab, F, r, lambda *a: None, r.bad)
                nd += declared_limits(lab, F, r)
    # the tree mixes lengths in as specified
    lab = Lab(repo, work, 'mainnet')
    nm = check_mix(lab, r)
    r.coverage.update(list_types=nlist, other_types=nfix, root_traces=ntr, limits_given=nlim, limits_kept=nkeep, large_counts=nbig, containers=nc, declared_limits=nd, mix_in_obligations=nm)
    if not nlist or not nd or not nm or not nlim:
        raise NotDecided('nothing analysed')


def declared_limits(lab, F, r):
    """every list field of a constructed container has the limit the specification gives it; number of limits compared"""
    nd = 0
    ls = [(f, t, l) for c, f, t, l in declared(lab.preset) if c == F.name]
    if not ls:
        return 0
    for ck in constructors(lab, F.rk):
        def probe(m, p):
            out = []
            for f, t, l in ls:
                if f in F.cpp:
                    q = p + F.cpp[f]
                    ft = dict(members(lab, F.rk))[F.cpp[f]]
                    lf = intfield(m, m.reckey(ft))
                    out.append((f, l, m.get(q + lf) if lf else None))
            return out
        m, outs = built(lab, ck, F.rk, probe)
        for u in gaveup(outs):
            r.undecided.append('%s constructor: %s' % (F.name, lab.rel(u)))
        for o in rets(outs):
            if not exact(o):
                continue
            for f, l, v in o.val:
                if v is None:
                    r.undecided.append('%s.%s: limit not found' % (F.name, f))
                    continue
                nd += 1
                if v is UNINIT or not isinstance(v, (int, Lin)):
                    r.undecided.append('%s.%s: limit %s' % (F.name, f, v))
                elif not o.st.eq0(poly.L(v) - l) and o.st.refuted_eq0(poly.L(v) - l):
                    r.bad('declared-limit:%s.%s' % (F.name, f), lab.where_cls(F.rk), '%s.%s is built with limit %s; the specification has %d (%s preset)' % (F.name, f, v, l, lab.preset))
    return nd


def leafcount(lab, rk, name):
    f, n = fam(name)
    if n:
        return (n * 8 + 31) // 32 if elname(lab, rk) == 'Slot' else n
    return None


# ---------------------------------------------------------------- the tree itself
def method_of(lab, cls, n, npar=None):
    ks = [k for k, f in lab.P.funcs.items() if f['qn'] == cls + '::' + n and 'body' in f and (npar is None or len(f.get('params') or ()) == npar)]
    return ks[0] if ks else None


def chunk_ctor(lab, tm):
    """constructors of HashTree: (over chunks, over bytes)"""
    a = b = None
    for k, f in lab.P.funcs.items():
        if f['qn'] == 'ssz::HashTree::HashTree' and 'body' in f and f.get('params'):
            t = lab.m0.ty(f['params'][0]['t'])
            rk = lab.m0.reckey(t.get('to', f['params'][0]['t']))
            if rk and lab.m0.recqn(rk) == 'std::vector':
                el = lab.P.records[rk]['targs'][0]
                if lab.m0.reckey(el) == tm.chunk_rk:
                    a = k
                elif lab.m0.ty(el)['k'] == 'int':
                    b = k
    return a, b


class Trees:
    def __init__(self, lab):
        self.lab = lab
        self.m = TreeMachine(lab.P)
        self.chunks, self.bytes = chunk_ctor(lab, self.m)
        self.root = method_of(lab, 'ssz::HashTree', 'hash_tree_root')
        self.mix = method_of(lab, 'ssz::HashTree', 'mix_in')
        self.tree = method_of(lab, 'ssz::HashTree', 'hash_tree')
        if not (self.chunks and self.bytes and self.root and self.mix and self.tree):
            raise NotDecided('anchor vanished: ssz::HashTree')
        self.el = 'R:' + self.m.chunk_rk

    def build(self, fk, src, limit, then=None):
        """explore the constructor; then(m, pointer) is evaluated on the tree. Returns (traces, failed obligations)"""
        m = self.m
        f = self.lab.P.funcs[fk]
        m.steps = 0
        m.obl = []

        def init():
            return State()

        def fn():
            m.st.heap['src'] = src(m)
            p = m.alloc('tree', m.uninit_rec(f['rec']))
            m.run_ctor(fk, f, p, [Ptr('src')] + ([limit] if len(f['params']) > 1 else []))
            if then:
                then(m, p)
            v = m.invoke(self.root, self.lab.P.funcs[self.root], p, [])
            root = m.chunkval(m.alloc('r', v))
            w = m.invoke(self.tree, self.lab.P.funcs[self.tree], p, [])
            last = m.chunkval(m.alloc('w', w) + (m.vlen(w) - 1))
            return root, last
        return m.explore(init, fn), m.obl

    def leaves(self, n):
        return lambda m: VecV(self.el, [('e', LazyV(self.el, 'c%d' % i)) for i in range(n)])


def check_mix(lab, r):
    T = Trees(lab)
    n = 0
    mf = lab.P.funcs[T.mix]
    w = lab.where_fn(T.mix)

    def then(m, p):
        m.st.declare('len', 0, (1 << 63) - 1)
        m.invoke(T.mix, mf, p, [Lin.var('len')])
    for cnt, lim in ((1, 0), (1, 4), (2, 0), (3, 8), (4, 1 << 20)):
        outs, obl = T.build(T.chunks, T.leaves(cnt), lim, then)
        want = T.m.node(T.m.rootterm(['c%d' % i for i in range(cnt)], ceil_log2(lim or cnt)), ('len', Lin.var('len')))
        plain = T.m.rootterm(['c%d' % i for i in range(cnt)], ceil_log2(lim or cnt))
        for o in outs:
            if o.kind == 'giveup':
                r.undecided.append('mix_in: %s' % lab.rel(o.why))
            if o.kind == 'ret' and exact(o):
                n += 1
                for what, got in (('root', o.val[0]), ('last chunk of the tree', o.val[1])):
                    if got == want:
                        continue
                    # blame only the mixing: the tree below it is C24
                    k = T.m.terms.get(got)
                    if not k or k[1] != ('len', Lin.var('len')):
                        r.bad('mix_in', w, 'after HashTree::mix_in(len) the %s is %s instead of H(root, len)' % (what, T.m.show(got)))
                    elif k[0] != plain and T.m.terms.get(k[0]) != T.m.terms.get(plain):
                        outs0, _ = T.build(T.chunks, T.leaves(cnt), lim)
                        if outs0 and outs0[0].kind == 'ret' and outs0[0].val[0] != k[0]:
                            r.bad('mix_in', w, 'HashTree::mix_in hashes the length with something else than the root')
    return n


# ---------------------------------------------------------------- C16
def c16(repo, work, r, thorough):
    nl = nt = 0
    size = None
    for preset in front.PRESETS:
        lab = Lab(repo, work, preset)
        T = Trees(lab)
        m = T.m
        w = lab.where_fn(T.chunks)
        lims = {}
        for c, fs in spec.CONTAINERS.items():
            for f, t in fs:
                if isinstance(t, tuple) and t[0] in ('List', 'Bitlist'):
                    lims.setdefault(spec.chunk_limit(preset, t), []).append('%s.%s' % (c, f))
                elif isinstance(t, tuple) and t[0] == 'Vector':
                    n = spec.const(preset, t[2])
                    lims.setdefault(n if t[1] != 'uint64' else (n * 8 + 31) // 32, []).append('%s.%s' % (c, f))
        # limits the code declares itself (they may exceed the specification's)
        for c, f, l in code_limits(lab, r):
            lims.setdefault(l, []).append('%s.%s' % (c, f))
        for lim, who in sorted(lims.items()):
            for cnt in (1, 3) if not thorough else (1, 2, 3, 5, 9):
                if cnt > lim:
                    continue
                outs, obl = T.build(T.chunks, T.leaves(cnt), lim)
                nl += 1
                for tag, where, msg, ex in obl:
                    if tag == 'oob' and ex:
                        r.bad('height:%s' % who[0], lab.rel(where), 'building the tree of %s (limit %d chunks, %s preset): %s' % (who[0], lim, preset, msg))
                for o in outs:
                    if o.kind == 'giveup':
                        r.undecided.append('tree of limit %d: %s' % (lim, lab.rel(o.why)))
                    elif o.kind == 'throw' and cnt <= lim:
                        r.bad('refused:%s' % who[0], w, 'the tree of %s (limit %d chunks, %s preset) cannot be built' % (who[0], lim, preset))
        # the table's entries
        for g, names in m.tables.items():
            gl = lab.P.globals[g]
            wg = lab.rel('%s:%s (%s)' % (gl['file'], gl['line'], gl['qn']))
            if names is None:
                r.undecided.append('%s: initializer not understood (%s)' % (gl['qn'], getattr(m, 'tabwhy', '')))
                continue
            size = len(names)
            for k, t in enumerate(names):
                nt += 1
                if t != m.zeroterm(k):
                    r.bad('entry:%d' % k, wg, 'entry %d of the zero-subtree table is %s, not the hash of two copies of entry %d' % (k, m.show(t), k - 1) if k else 'entry 0 of the zero-subtree table is not the zero chunk')
                    break
    r.coverage.update(limits_checked=nl, table_entries=nt, table_size=size)
    if not nl or not nt and not r.undecided:
        raise NotDecided('no zero-subtree table was used')


def code_limits(lab, r):
    """chunk limits of the lists the containers of the code build"""
    out = []
    for c, f, t, l in declared(lab.preset):
        rk = lab.cls(c)
        if rk is None:
            continue
        F = Fields(lab, c, rk)
        if f not in F.cpp:
            continue
        ft = lab.m0.reckey(dict(members(lab, rk))[F.cpp[f]])
        lf = intfield(lab.m0, ft)
        if not lf:
            continue
        for ck in constructors(lab, rk):
            if lab.P.funcs[ck].get('params'):
                continue
            m, outs = built(lab, ck, rk, lambda m, p: m.get(p + F.cpp[f] + lf))
            for o in rets(outs):
                if isinstance(o.val, int) and o.val:
                    out.append((c, f, spec.chunk_limit(lab.preset, t[:-1] + (o.val,))))
    return out


# ---------------------------------------------------------------- C24
def leaf_bytes(lab, m, o, src, n):
    """the n bytes a tree is built from, as values"""
    return [m.elem(src, i) for i in range(n)]


def c24(repo, work, r, thorough):
    lab = Lab(repo, work, 'mainnet')
    T = Trees(lab)
    m = T.m
    w = lab.where_fn(T.chunks)
    ntree = 0
    maxn = 64 if thorough else 20
    for n in range(1, maxn + 1):
        d0 = ceil_log2(n)
        ds = list(range(d0, 42)) if thorough or n <= 4 else [d0, d0 + 1, d0 + 2, 17, 40]
        lims = [0, n, n + 1] + [1 << d for d in ds if 1 << d >= n] + [(1 << d) - 1 for d in ds if (1 << d) - 1 >= n and d > 1]
        for lim in sorted(set(lims)):
            outs, obl = T.build(T.chunks, T.leaves(n), lim)
            want = m.rootterm(['c%d' % i for i in range(n)], ceil_log2(lim or n))
            ntree += compare(lab, r, m, outs, obl, want, w, '%d chunk(s), limit %d' % (n, lim), 'chunks:')
    # large counts: whole runs of nodes at a time
    sizes = sorted({c for k in (range(5, 33) if thorough else (7, 8, 9, 15, 16, 17, 31, 32)) for c in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {21, 100, 1000, 0xaaaa, 0x5555, 0x15555, 99999})
    for n in sizes:
        d0 = ceil_log2(n)
        for lim in sorted({0, n, 1 << d0, 1 << 40}) if thorough or n < 1000 else (0, 1 << 40):
            m.big(n)
            outs, obl = T.build(T.chunks, lambda mm: VecV(T.el, [('op', 'N0', 0, n)]), lim)
            ntree += compare(lab, r, m, outs, obl, 'N%d[0]' % ceil_log2(lim or n), w, '%d chunks, limit %d' % (n, lim), 'chunks:')
            m.bign = None
    # bytes are packed into chunks in order, the last one padded with zeros; no bytes is one zero chunk
    nby = 0
    for n in list(range(0, 70)) + [95, 96, 97, 128, 129, 160]:
        def src(mm):
            return VecV('b:unsigned char', [('e', Lin.var(mm_byte(mm, i))) for i in range(n)])
        bs = [Lin.var('b[%d]' % i) for i in range(n)]
        leaves = []
        for k in range(0, max(n, 1), 32):
            leaves.append(m.canon((bs[k:k + 32] + [0] * 32)[:32]))
        for lim in (0, 8):
            outs, obl = T.build(T.bytes, src, lim)
            want = m.rootterm(leaves, ceil_log2(lim or len(leaves)))
            nby += compare(lab, r, m, outs, obl, want, lab.where_fn(T.bytes), '%d byte(s), limit %d' % (n, lim), 'bytes:')
    nleaf = check_leaves(repo, work, r, thorough)
    # the root of a type is the root of such a tree: of the type's own limit, with the count of a list mixed in
    c15(repo, work, r, thorough)
    r.coverage.update(trees_over_chunks=ntree, trees_over_bytes=nby, every_chunk_count_to=maxn, largest_chunk_count=sizes[-1], leaf_traces=nleaf, hashes=getattr(m, 'nhash', 0))
    if not ntree or not nby or not nleaf:
        raise NotDecided('nothing analysed')


def mm_byte(m, i):
    v = 'b[%d]' % i
    m.st.declare(v, 0, 255)
    return v


def compare(lab, r, m, outs, obl, want, w, what, key):
    n = 0
    for tag, where, msg, ex in obl:
        if ex and tag in ('oob', 'range', 'null', 'uninit'):
            r.bad(key + tag, lab.rel(where), 'building a tree over %s: %s' % (what, msg))
    for o in outs:
        if o.kind == 'giveup':
            r.undecided.append('tree over %s: %s' % (what, lab.rel(o.why)))
        elif o.kind == 'throw':
            r.bad(key + 'refused', w, 'a tree over %s is refused' % what)
        elif o.kind == 'ret' and exact(o):
            n += 1
            if o.val[0] != want:
                r.bad(key + 'root', w, 'the root over %s is %s instead of %s' % (what, m.show(o.val[0], 5)[:300], m.show(want, 5)[:300]))
            elif o.val[1] != want:
                r.bad(key + 'last', w, 'the last chunk of the tree over %s is not its root' % what)
    return n


def bytes_of_chunk(m, v):
    """32 byte values of a chunk value"""
    fl = m.flatten(v) if not isinstance(v, LazyV) else None
    return fl


def seg_roots(m, segs):
    out = []
    for g in segs:
        if g[0] == 'e' and isinstance(g[1], TermV) and g[1].t[0] == 'root':
            out.append(g[1].t[1])
        else:
            return None
    return out


def check_leaves(repo, work, r, thorough):
    """what the trees of every type are built from"""
    nt = 0
    for lab, rk, name in all_presets(repo, work, thorough):
        with shield(r, name):
            short = name.replace('eth::', '')
            if short in spec.CONTAINERS:
                F = Fields(lab, short, rk)
                nt += bool(check_hash(lab, F, r, r.bad))
                continue
            if fam(name)[1] > 1024:
                continue
            h = hash_traces(lab, rk, name, r, 10 if name == 'eth::Bitlist' else 3)
            if not h:
                continue
            fk, m, outs = h
            w = lab.where_fn(fk)
            basic = elname(lab, rk) in ('Slot', 'Boolean')
            runs = [(m, o) for o in rets(outs)]
            for big in ((257, 2048) if name == 'eth::Bitlist' else (257,) if is_list(name) else ()):
                if not any(exact(o) for _, o in runs):
                    break
                h = hash_traces(lab, rk, name, r, 3, big)
                runs += [(h[1], o) for o in rets(h[2])]
            for m, o in runs:
                if not exact(o):
                    continue
                at(m, o)
                t = tree_of(o.val)
                v = o.val
                single = t is None and isinstance(v, VecV) and len(v.segs) == 1 and v.segs[0][0] == 'e'
                if t is None and not single:
                    r.undecided.append('%s::hash_tree: result %s' % (name, str(v)[:80]))
                    continue
                src = t[0] if t else v
                nt += 1
                if not isinstance(src, VecV):
                    r.undecided.append('%s::hash_tree: built from %s' % (name, str(src)[:80]))
                    continue
                try:
                    msg = leaf_error(lab, m, o, rk, name, src, single, basic)
                except (GiveUp, Prune) as e:
                    r.undecided.append('%s::hash_tree: %s' % (name, e))
                    continue
                if msg is None:
                    continue
                if msg[0]:
                    r.bad('leaves:' + short, w, '%s::hash_tree %s' % (name, msg[1]))
                else:
                    r.undecided.append('%s::hash_tree %s' % (name, msg[1]))
    return nt


def leaf_error(lab, m, o, rk, name, src, single, basic):
    short = name.replace('eth::', '')
    st = o.st
    if name.startswith('eth::List') or name.startswith('eth::Vector'):
        if name.startswith('eth::List'):
            vf = vecfields(m, rk)
            cnt = m.conc(m.clen(m.get(Ptr('this', (vf[0],)))))
            base = 'this.' + vf[0]
        else:
            cnt = fam(name)[1]
            base = 'this.' + m.fields(rk)[0][0] + '._M_elems'
        if not isinstance(cnt, int):
            return False, 'trace with an unknown number of elements'
        want = ['%s[%d]' % (base, i) for i in range(cnt)]
        if basic:
            if single:
                return False, 'result is a single chunk'
            got = [(g[1] if g[0] == 'ser' else None) for g in src.segs if m.seglen(g) != 0]
            if None in got:
                return False, 'is built from %s' % (str(src)[:80],)
            return None if got == want else (True, 'is built from the elements %s instead of all in order' % (got,))
        got = seg_roots(m, src.segs)
        if got is None:
            if cnt == 0 and len(src.segs) == 1 and src.segs[0][0] == 'e':
                fl = bytes_of_chunk(m, src.segs[0][1])
                if fl is not None:
                    return None if all(x == 0 for x in fl) else (True, 'of an empty list is not built from the zero chunk')
            if src.segs and all(g[0] == 'ser' for g in src.segs):
                return True, 'is built from serialized elements instead of their roots'
            return False, 'is built from %s' % (str(src)[:80],)
        if cnt == 0 and not got:
            return True, 'of an empty list is built from no chunk at all'
        return None if got == want else (True, 'is built from the roots of %s instead of all elements in order' % (got,))
    # leaf types: their own serialization
    if name == 'eth::Bitlist':
        vf = vecfields(m, rk)
        v = m.get(Ptr('this', (vf[0],)))
        v = m.expand(v) if isinstance(v, LazyV) else v
        cnt = m.conc(m.vlen(v))
        if not isinstance(cnt, int):
            return False, 'trace with an unknown number of bits'
        ln = m.conc(m.vlen(src))
        if ln != (cnt + 7) // 8:
            if isinstance(ln, int):
                # zero bytes beyond the bits do not change the tree unless they add chunks
                if (max(ln, 1) + 31) // 32 == (max((cnt + 7) // 8, 1) + 31) // 32 and ln > (cnt + 7) // 8:
                    pass
                else:
                    return True, 'is built from %d bytes for %d bits' % (ln, cnt)
            else:
                return False, 'length %s' % (ln,)
        bits = [m.elem(v, i) for i in range(cnt)]
        return packed(m, [m.elem(src, i) for i in range(ln)], bits)
    if single:
        fl = bytes_of_chunk(m, src.segs[0][1])
        if fl is None:
            return False, 'result %s' % (src,)
    else:
        n = m.conc(m.vlen(src))
        if not isinstance(n, int):
            return False, 'length %s' % (n,)
        fl = [m.elem(src, i) for i in range(n)]
    dm = [n for n, _ in m.fields(rk)]
    if len(dm) != 1:
        return False, 'members %s' % dm
    x = m.get(Ptr('this', (dm[0],)))
    mm = re.match(r'^eth::(Bytes|Bitvector)<(\d+)>$', name)
    if mm:
        n = int(mm.group(2))
        el = [m.get(Ptr('this', (dm[0], '_M_elems', i))) for i in range(n)]
        if mm.group(1) == 'Bytes':
            want = el
        else:
            return packed(m, fl, el)
    elif name == 'eth::Slot':
        want = [ByteOf(poly.L(x), 8, i) for i in range(8)]
    elif name == 'eth::Boolean':
        return packed(m, fl, [x])
    else:
        return False, 'type without a reference'
    got = fl[:len(want)]
    rest = fl[len(want):]
    if len(got) < len(want):
        return True, 'is built from %d bytes instead of %d' % (len(got), len(want))
    if any(y != 0 for y in rest if isinstance(y, int)) or (len(fl) + 31) // 32 != (len(want) + 31) // 32:
        return True, 'is built from %d bytes instead of %d' % (len(fl), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if not samebyte(m, a, b):
            return True, 'has %s as byte %d instead of %s' % (a, i, b)
    return None


def samebyte(m, a, b):
    if a == b:
        return True
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return m.st.eq0(poly.L(a) - b)
    return False


def packed(m, bs, bits):
    """the bytes bs hold the bits, least significant first"""
    for i, b in enumerate(bs):
        e = poly.L(0)
        for j, x in enumerate(bits[8 * i:8 * i + 8]):
            x = m.lin(x) if not isinstance(x, (int, Lin)) else x
            e = e + poly.L(x) * (1 << j)
        if isinstance(b, Tab) or not isinstance(b, (int, Lin)):
            try:
                b = m.lin(b)
            except (GiveUp, Prune):
                return False, 'byte %d is %s' % (i, b)
        if not m.st.eq0(poly.L(b) - e):
            if m.st.refuted_eq0(poly.L(b) - e):
                return True, 'has %s as byte %d instead of %s' % (b, i, e)
            return False, 'byte %d not decided' % i
    return None
