"""C07 (fields of containers), C08 (sizes), C15/C16 parts about containers, C26 (layout), decided on abstract traces."""
import re
from . import spec
from .lab import *
from ..poly import Lin
from ..report import NotDecided

CAP = (1 << 26)


def small_len(m):
    m.max_len = CAP


class Fields:
    """pairs the members of a C++ container with the fields of its specification"""
    def __init__(self, lab, name, rk):
        self.lab, self.name, self.rk = lab, name, rk
        self.spec = spec.CONTAINERS[name]
        mem = {}
        for n, t in members(lab, rk):
            mem[fieldname(n)] = n
        self.cpp = {f: mem[f] for f, _ in self.spec if f in mem}      # spec field -> member
        self.extra = sorted(n for f, n in mem.items() if f not in self.cpp)
        self.renamed = []
        miss = [f for f, _ in self.spec if f not in self.cpp]
        if miss:
            # a renamed member is identified by the YAML key it is encoded under
            fk, m, outs = lab.method(rk, 'encode')
            for o in rets(outs or []):
                for k, v in ymap(o.val) or ():
                    if k in miss and v and v.startswith('this.') and k not in self.cpp:
                        x = v[5:]
                        if x in self.extra:
                            self.cpp[k] = x
                            self.extra.remove(x)
                            self.renamed.append((k, x))
        self.field = {v: k for k, v in self.cpp.items()}
        self.miss = [f for f, _ in self.spec if f not in self.cpp]

    def nm(self, objname):
        """spec path of an object name such as this.slot_"""
        if objname.startswith('this.'):
            x = objname[5:]
            h = re.split(r'[.\[]', x, 1)
            if h[0] in self.field:
                return self.field[h[0]] + x[len(h[0]):]
            return x
        return objname

    def leaves(self, preset):
        """(field, offset in the fixed part, size, variable?)"""
        off = 0
        out = []
        for f, t in self.spec:
            s = spec.size(preset, t)
            out.append((f, off, s or 4, not s))
            off += s or 4
        return out, off


def ymap(v):
    """((key, object name or None), ...) of an encoded node"""
    if isinstance(v, TermV) and v.t[0] == 'ymap':
        out = []
        for k, x in v.t[1]:
            n = None
            if isinstance(x, TermV) and x.t[0] == 'yaml' and isinstance(x.t[1], tuple) and x.t[1][0] == 'val':
                n = x.t[1][1]
            out.append((k, n))
        return out
    return None


def misplaced(l):
    """four bytes of one value, but not its bytes 0..3 in order"""
    return None not in l and len({x[0] for x in l}) == 1 and [x[1] for x in l] != [0, 1, 2, 3]


def words(segs, m=None):
    """collapse serialized segments to a list of ('ser', name, len), ('word', Lin|int), or None when unreadable"""
    out = []
    acc = []
    for g in segs:
        if g[0] == 'e':
            acc.append(g[1])
            if len(acc) == 4:
                if all(isinstance(x, int) for x in acc):
                    out.append(('word', sum(x << 8 * i for i, x in enumerate(acc))))
                elif all(isinstance(x, ByteOf) and x.i == i and x.lin == acc[0].lin for i, x in enumerate(acc)):
                    out.append(('word', acc[0].lin))
                elif m is not None and m.intbytes(acc):
                    out.append(('word', m.intbytes(acc)[0]))
                elif m is not None and misplaced([m.asbyte(x) for x in acc]):
                    out.append(('ser', '<bytes %s of an offset>' % ','.join(str(m.asbyte(x)[1]) for x in acc), 4))
                else:
                    return None
                acc = []
        elif g[0] == 'ser':
            if acc:
                return None
            out.append(g)
        else:
            return None
    return None if acc else out


def check_serialize(lab, F, r, prop_fields, prop_layout):
    """returns True when decided. Violations are passed to prop_fields(key, where, msg) / prop_layout(...)"""
    fk, m, outs = lab.method(F.rk, 'serialize', setup=None)
    fk = lab.impl(F.rk, 'serialize')
    if fk is None or 'body' not in lab.P.funcs.get(fk, {}):
        r.undecided.append('%s::serialize has no body' % F.name)
        return False
    m, outs = lab.run(fk, F.rk, setup=small_len)
    w = lab.where_fn(fk)
    good = False
    lay, fixed = F.leaves(lab.preset)
    for u in gaveup(outs):
        r.undecided.append('%s::serialize: %s' % (F.name, lab.rel(u)))
    for o in rets(outs):
        if not exact(o):
            continue
        at(m, o)
        v = o.val
        if not isinstance(v, VecV):
            r.undecided.append('%s::serialize: result %s' % (F.name, v))
            continue
        ws = words(v.segs, m)
        if ws is None:
            r.undecided.append('%s::serialize: bytes of no field in the result' % F.name)
            continue
        good = True
        got = [(x[1] if x[1][:1] == '<' else '%s' % F.nm(x[1])) if x[0] == 'ser' else '<offset>' for x in ws]
        want = ['<offset>' if var else f for f, _, _, var in lay] + [f for f, _, _, var in lay if var]
        a = [x for x in got if x[:1] != '<']
        b = [x for x in want if x[:1] != '<']
        if a != b:
            prop_fields('serialize:' + F.name, w, '%s::serialize writes fields %s; the specification order is %s' % (F.name, diff(a, b), ', '.join(b)))
            continue
        if got != want:
            prop_layout('layout:' + F.name, w, '%s::serialize lays out %s instead of %s' % (F.name, got, want))
            continue
        offs = [x[1] for x in ws if x[0] == 'word']
        vl = [x[2] for x in ws if x[0] == 'ser'][len([1 for l in lay if not l[3]]):]
        exp = poly.L(fixed)
        for i, x in enumerate(offs):
            if not m.st.eq0(exp - x) and m.st.refuted_eq0(exp - x):
                prop_layout('offset:' + F.name, w, '%s::serialize: offset of the variable field number %d is %s, not %s' % (F.name, i + 1, x, exp))
                break
            exp = exp + vl[i]
    return good


def diff(a, b):
    if len(a) > 6:
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return '... %s at position %d (expected %s)' % (x, i + 1, y)
        if len(a) < len(b):
            return '... without %s' % b[len(a)]
        return '... and further %s' % a[len(b):]
    return ', '.join(map(str, a)) or 'none'


def retbool(m, v, a):
    """turns a boolean result into a trace split"""
    return m.branch(m.tocond(v))


def word_at(m, st, off, buf='buf', n=4):
    """the number stored at a byte position: the symbol of a read of n bytes, or the sum of the bytes read one by one; None when it is not read"""
    bs = ['%s[%d]' % (buf, off + i) for i in range(n)]
    some = any(b in st.rng for b in bs)
    for v in st.rng:
        if v.startswith('le%d(%s[%d])#' % (n, buf, off)):
            if some:
                m.bytesof(Lin.var(v))
            return Lin.var(v)
    if not some:
        return None
    for b in bs:
        if b not in st.rng:
            st.declare(b, 0, 255)
    return Lin({b: 1 << 8 * i for i, b in enumerate(bs)}, 0)


def check_deserialize(lab, F, r, bad, exactlen=None):
    fk = lab.impl(F.rk, 'deserialize')
    if fk is None or 'body' not in lab.P.funcs.get(fk, {}):
        r.undecided.append('%s::deserialize has no body' % F.name)
        return False
    m, outs = lab.run(fk, F.rk, post=retbool)
    w = lab.where_fn(fk)
    for u in gaveup(outs):
        r.undecided.append('%s::deserialize: %s' % (F.name, lab.rel(u)))
    lay, fixed = F.leaves(lab.preset)
    good = False
    for o in rets(outs):
        if o.val is not True or not exact(o):
            continue
        at(m, o)
        st = o.st
        n = Lin.var('buf.n')
        seen = {}
        offs = {}
        okk = True
        for _, off, _, var in lay:
            wd = word_at(m, st, off) if var else None
            if wd is not None:
                offs[off] = wd
        for f, off, size, var in lay:
            mem = F.cpp.get(f)
            if mem is None:
                continue
            val = m.get(Ptr('this', (mem,)))
            src = st.meta.get(('des', val.name)) if isinstance(val, LazyV) else None
            if src is None and isinstance(val, LazyV) and val.name == 'this.' + mem:
                bad('deserialize:' + F.name, w, '%s::deserialize returns true without having read field %s' % (F.name, f))
                okk = False
                continue
            if src is None:
                r.undecided.append('%s::deserialize: field %s is read in a way not understood (%s)' % (F.name, f, val))
                okk = False
                continue
            seen[f] = src
        if not okk or F.miss:
            continue
        good = True
        vars_ = [x for x in lay if x[3]]
        for f, off, size, var in lay:
            if f not in seen:
                continue
            obj, a, b = seen[f]
            if obj != 'buf':
                r.undecided.append('%s::deserialize: field %s is read from a copy' % (F.name, f))
                continue
            if not var:
                ea, eb = poly.L(off), poly.L(off + size)
            else:
                i = [x[0] for x in vars_].index(f)
                if off not in offs:
                    bad('deserialize:' + F.name, w, '%s::deserialize: the offset of field %s at byte %d is not read' % (F.name, f, off))
                    continue
                ea = offs[off]
                if i + 1 < len(vars_):
                    nx = vars_[i + 1][1]
                    if nx not in offs:
                        bad('deserialize:' + F.name, w, '%s::deserialize: the offset at byte %d is not read' % (F.name, nx))
                        continue
                    eb = offs[nx]
                else:
                    eb = n
            if not (st.eq0(poly.L(a) - ea) and st.eq0(poly.L(b) - eb)):
                if not (st.refuted_eq0(poly.L(a) - ea) or st.refuted_eq0(poly.L(b) - eb)):
                    r.undecided.append('%s::deserialize: range of field %s not decided' % (F.name, f))
                    continue
                bad('deserialize:' + F.name, w, '%s::deserialize reads field %s from bytes [%s, %s) instead of [%s, %s)' % (F.name, f, a, b, ea, eb))
                okk = False
        if exactlen and okk:
            if not vars_:
                if not st.eq0(n - fixed) and st.refuted_eq0(n - fixed):
                    exactlen('length:' + F.name, w, '%s::deserialize accepts inputs that are not exactly %d bytes long' % (F.name, fixed))
            else:
                o0 = offs.get(vars_[0][1])
                if o0 is not None and not st.eq0(o0 - fixed) and st.refuted_eq0(o0 - fixed):
                    exactlen('first-offset:' + F.name, w, '%s::deserialize accepts a first offset other than %d' % (F.name, fixed))
                ch = [offs[x[1]] for x in vars_ if x[1] in offs] + [n]
                for x, y in zip(ch, ch[1:]):
                    if not st.ge0(y - x) and st.refuted_ge0(y - x):
                        exactlen('offset-order:' + F.name, w, '%s::deserialize accepts offsets that decrease or point past the end (%s > %s)' % (F.name, x, y))
    if not any(o.val is True for o in rets(outs)) and outs and all(o.kind == 'ret' for o in outs):
        bad('deserialize:' + F.name, w, '%s::deserialize never succeeds' % F.name)
    return good


def tree_of(v):
    """(source VecV, limit, mixins) of a returned hash tree, or None"""
    if isinstance(v, VecV) and len(v.segs) == 1 and v.segs[0][0] == 'tree':
        t = v.segs[0][1]
        if isinstance(t, TermV) and t.t[0] == 'tree':
            return t.t[1:]
    return None


def check_hash(lab, F, r, bad, mixbad=None):
    fk, m, outs = lab.method(F.rk, 'hash_tree')
    if outs is None:
        r.undecided.append('%s::hash_tree has no body' % F.name)
        return False
    w = lab.where_fn(fk)
    good = False
    want = [f for f, _ in F.spec]
    for u in gaveup(outs):
        r.undecided.append('%s::hash_tree: %s' % (F.name, lab.rel(u)))
    for o in rets(outs):
        if not exact(o):
            continue
        t = tree_of(o.val)
        if t is None:
            if isinstance(o.val, VecV) and len(o.val.segs) == 1 and o.val.segs[0][0] == 'e' and len(want) == 1:
                src, lim, mix = o.val, 0, ()
            else:
                r.undecided.append('%s::hash_tree: result %s' % (F.name, str(o.val)[:200]))
                continue
        else:
            src, lim, mix = t
        if not isinstance(src, VecV):
            r.undecided.append('%s::hash_tree: leaves %s' % (F.name, str(src)[:200]))
            continue
        names = []
        for g in src.segs:
            if g[0] == 'e' and isinstance(g[1], TermV) and g[1].t[0] == 'root':
                names.append(F.nm(g[1].t[1]))
            elif g[0] == 'ser' and len(src.segs) == 1:
                names.append(str(g[1]))
            else:
                names = None
                break
        if names is None:
            # a tree over the serialization of the whole container is not its hash tree, but only say so when all leaves are serialized fields
            if src.segs and all(g[0] == 'ser' for g in src.segs) and len(src.segs) > 1:
                bad('hash_tree:' + F.name, w, '%s::hash_tree hashes the serialized fields instead of their roots' % F.name)
                good = True
            else:
                r.undecided.append('%s::hash_tree: leaves %s' % (F.name, str(src)[:200]))
            continue
        good = True
        if names != want:
            bad('hash_tree:' + F.name, w, '%s::hash_tree covers fields %s; the specification order is %s' % (F.name, diff(names, want), ', '.join(want)))
        at(m, o)
        li = poly.L(lim) if isinstance(lim, (int, Lin)) else None
        if mixbad:
            if mix:
                mixbad('container-mix:' + F.name, w, '%s::hash_tree mixes a length into the root of a container' % F.name)
            if li is not None and li.is_const() and li.k and spec.depth(li.k) != spec.depth(len(want)):
                mixbad('container-limit:' + F.name, w, '%s::hash_tree pads the tree of its %d fields to a limit of %d chunks' % (F.name, len(want), li.k))
    return good


def check_encode(lab, F, r, bad):
    fk, m, outs = lab.method(F.rk, 'encode')
    if outs is None:
        r.undecided.append('%s::encode has no body' % F.name)
        return False
    w = lab.where_fn(fk)
    want = [f for f, _ in F.spec]
    good = False
    for u in gaveup(outs):
        r.undecided.append('%s::encode: %s' % (F.name, lab.rel(u)))
    for o in rets(outs):
        if not exact(o):
            continue
        ym = ymap(o.val)
        if ym is None:
            r.undecided.append('%s::encode: result %s' % (F.name, str(o.val)[:160]))
            continue
        good = True
        keys = [k for k, _ in ym]
        if keys != want:
            bad('encode-keys:' + F.name, w, '%s::encode writes the keys %s; the specification has %s' % (F.name, diff(keys, want), ', '.join(want)))
        for k, n in ym:
            if n is None:
                r.undecided.append('%s::encode: value under key %s not understood' % (F.name, k))
            elif F.nm(n) != k and k in want:
                bad('encode:' + F.name, w, '%s::encode writes %s under the key %s' % (F.name, F.nm(n), k))
    return good


def check_decode(lab, F, r, bad):
    fk = lab.impl(F.rk, 'decode')
    if fk is None or 'body' not in lab.P.funcs.get(fk, {}):
        r.undecided.append('%s::decode has no body' % F.name)
        return False
    m, outs = lab.run(fk, F.rk, post=retbool)
    w = lab.where_fn(fk)
    for u in gaveup(outs):
        r.undecided.append('%s::decode: %s' % (F.name, lab.rel(u)))
    good = False
    for o in rets(outs):
        if o.val is not True or not exact(o):
            continue
        at(m, o)
        for f, t in F.spec:
            mem = F.cpp.get(f)
            if mem is None:
                continue
            val = m.get(Ptr('this', (mem,)))
            src = o.st.meta.get(('dec', val.name)) if isinstance(val, LazyV) else None
            if src is None and isinstance(val, LazyV) and val.name == 'this.' + mem:
                bad('decode:' + F.name, w, '%s::decode returns true without having read field %s' % (F.name, f))
                continue
            if not (isinstance(src, TermV) and src.t[0] == 'sub' and isinstance(src.t[1], TermV) and src.t[1].t[0] == 'node'):
                r.undecided.append('%s::decode: field %s is read in a way not understood (%s)' % (F.name, f, src or val))
                continue
            good = True
            if src.t[2] != f:
                bad('decode:' + F.name, w, '%s::decode reads field %s from the key %s' % (F.name, f, src.t[2]))
    return good


def each(lab, r):
    for name in spec.CONTAINERS:
        rk = lab.cls(name)
        if rk is None:
            raise NotDecided('anchor vanished: class eth::' + name)
        yield Fields(lab, name, rk)


def c07(repo, work, r, thorough):
    n = dec = 0
    for preset in (front.PRESETS if thorough else ('mainnet',)):
        lab = Lab(repo, work, preset)
        for F in each(lab, r):
            with shield(r, F.name):
                for f in F.miss:
                    r.bad('member:%s.%s' % (F.name, f), lab.where_cls(F.rk), 'container %s has no field %s, which the specification requires' % (F.name, f))
                ext = [x for x in F.extra if lab.m0.is_ssz(lab.m0.reckey(dict(members(lab, F.rk))[x]))]
                for x in ext:
                    r.bad('extra:%s.%s' % (F.name, x), lab.where_cls(F.rk), 'container %s has a field %s that the specification does not have' % (F.name, x))
                for op in (lambda: check_serialize(lab, F, r, r.bad, r.bad), lambda: check_deserialize(lab, F, r, r.bad), lambda: check_hash(lab, F, r, r.bad),
                           lambda: check_encode(lab, F, r, r.bad), lambda: check_decode(lab, F, r, r.bad)):
                    n += 1
                    dec += bool(op())
        r.coverage['traces_' + preset] = lab.traces
    r.coverage.update(containers=len(spec.CONTAINERS), codec_operations=n, codec_operations_decided=dec, fields=sum(len(x) for x in spec.CONTAINERS.values()))
    if not dec:
        raise NotDecided('no codec of any container could be analysed')


# ---------------------------------------------------------------- C08
def intconst(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Lin) and v.is_const():
        return v.k
    return None


def cxx_size(lab, rk, memo, stack=()):
    """SSZ size of a class from its structure: 0 for variable, None when the class is not built from other SSZ members"""
    name = lab.P.records[rk]['name'].replace('eth::', '')
    m = re.match(r'^Bytes<(\d+)>$', name)
    if m:
        return int(m.group(1))
    m = re.match(r'^Bitvector<(\d+)>$', name)
    if m:
        return (int(m.group(1)) + 7) // 8
    if name == 'Slot':
        return 8
    if name == 'Boolean':
        return 1
    if name == 'Bitlist' or name.startswith('List'):
        return 0
    if name in spec.CONTAINERS:
        return spec.size(lab.preset, name)
    r = lab.P.records[rk]
    m = re.match(r'^VectorFixedSizedParts<', name)
    if m and len(r.get('targs') or ()) == 2:
        el = lab.m0.reckey(r['targs'][0])
        n = r['targs'][1]
        s = cxx_size(lab, el, memo) if el else None
        if s is not None and isinstance(n, int):
            return s * n
    return None


def ssz_const(lab, rk):
    """value of the class constant ssz_size, or None"""
    for k, g in lab.P.globals.items():
        if g.get('member') and g['n'] == 'ssz_size' and g.get('rec') == rk:
            return g.get('val') if isinstance(g.get('val'), int) else None, g
    return None, None


def c08(repo, work, r, thorough):
    n = nd = nc = ns = 0
    for preset in front.PRESETS:
        lab = Lab(repo, work, preset)
        for rk, name in lab.classes():
            with shield(r, name):
                short = name.replace('eth::', '')
                want = cxx_size(lab, rk, {})
                if want is None:
                    r.undecided.append('no reference size for ' + name)
                    continue
                n += 1
                fk, m, outs = lab.method(rk, 'get_ssz_size')
                if outs is None:
                    r.undecided.append(name + '::get_ssz_size has no body')
                    continue
                for o in rets(outs):
                    v = intconst(o.val)
                    if v is None and exact(o) and isinstance(o.val, Lin) and o.st.refuted_eq0(o.val - want):
                        r.bad('size:' + short, lab.where_fn(fk), '%s reports SSZ size %s; its parts have %s bytes (%s preset)' % (name, o.val, want if want else 'variable size, to be reported as 0,', preset))
                        continue
                    if v is None or not exact(o):
                        r.undecided.append('%s::get_ssz_size is not a constant: %s' % (name, o.val))
                        continue
                    nd += 1
                    if v != want:
                        r.bad('size:' + short, lab.where_fn(fk), '%s reports SSZ size %d; its parts have %s bytes (%s preset)' % (name, v, want if want else 'variable size, to be reported as 0,', preset))
                cv, g = ssz_const(lab, rk)
                if g is not None and cv is not None:
                    nc += 1
                    if cv != want:
                        r.bad('constant:' + short, lab.rel('%s:%s' % (g['file'], g['line'])), '%s::ssz_size is %d; its parts have %s bytes (%s preset)' % (name, cv, want or 'a variable number of', preset))
                # bytes really produced
                if want and want <= (70000 if thorough else 9000):
                    sk = lab.impl(rk, 'serialize')
                    if sk and 'body' in lab.P.funcs.get(sk, {}):
                        m, outs = lab.run(sk, rk, setup=small_len)
                        for o in rets(outs):
                            if not exact(o) or not isinstance(o.val, VecV):
                                continue
                            at(m, o)
                            ln = m.vlen(o.val)
                            ns += 1
                            if not m.st.eq0(poly.L(ln) - want) and (m.st.ge0(poly.L(ln) - want - 1) or m.st.ge0(poly.L(want) - ln - 1)):
                                r.bad('bytes:' + short, lab.where_fn(sk), '%s::serialize produces %s bytes, the type has %d (%s preset)' % (name, ln, want, preset))
    r.coverage.update(types=n, run_time_sizes=nd, compile_time_sizes=nc, serializations_measured=ns)
    if not nd:
        raise NotDecided('no size could be analysed')
