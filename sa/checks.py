"""property id -> function(repo, work, tier) -> report.Result"""
import re
from .report import NotDecided, Result


def _rel(repo, w):
    # the witness only calls the public wrapper
    w = re.sub(r'\S*kernel_witness\.cpp:\d+ \((\w+)\)', r'ssz/hasher.hpp (Hasher::hash_64b_blocks through \1)', w)
    return w.replace(repo.rstrip('/') + '/', '')


def kernel_check(prop):
    def run(repo, work, tier):
        from .kernels import PublicKernels
        r = Result()
        k = PublicKernels(repo, work)
        res = k.all()
        tot = {}
        names = []
        for n, a in sorted(res.items()):
            for key, v in a['stats'].items():
                tot[key] = tot.get(key, 0) + v
            if a['undecided']:
                r.undecided.append('%s: %s' % (n, a['undecided']))
            else:
                names.append(n)
            for p, w, m in a['viol']:
                # an abandoned analysis still reports what it proved wrong before it stopped
                if p == prop:
                    r.bad('%s:%s' % (prop, w.split(' (')[0].split('/')[-1]), _rel(repo, w), m)
        r.coverage.update(routines=len(res), routines_decided=len(names))
        r.coverage['routine_names'] = names
        sel = dict(C01=('digest_words', 'instructions', 'traces', 'exits', 'loop_heads'),
                   C02=('loads', 'stores', 'aligned_checks', 'traces', 'instructions'),
                   C03=('stores', 'instructions', 'traces'),
                   C04=('exits', 'calls', 'instructions', 'traces'))[prop]
        for s in sel:
            r.coverage[s] = tot.get(s, 0)
        r.coverage['loop_invariants'] = [dict(l, routine=n) for n, a in sorted(res.items()) for l in a['m'].loopinfo.values()]
        r.rule = RULES[prop]
        if prop == 'C03':
            from .cxx import c_misc
            try:
                c_misc.statics(repo, work, r, tier == 'thorough')
            except NotDecided as e:
                r.undecided.insert(0, str(e))
        r.coverage['explanation'] = RULES[prop]
        return r
    return run


def dispatch_check(prop):
    def run(repo, work, tier):
        from .dispatch import Dispatch, Unsupported
        r = Result()
        d = Dispatch(repo, work)
        try:
            d.run()
        except (NotDecided, Unsupported) as e:
            d.undecided.insert(0, str(e))
        for p, key, w, m in d.viol:
            if p == prop:
                r.bad(key, _rel(repo, w), m)
        r.undecided += d.undecided
        r.coverage.update(d.stats)
        r.coverage['selection_table'] = ['%s -> %s (%s)' % (t[1], t[2], t[3]) for t in d.table]
        r.samples = r.coverage['selection_table'][:4]
        r.rule = RULES[prop]
        r.coverage['explanation'] = RULES[prop]
        return r
    return run


RULES = dict(
    C01='Abstract interpretation of the machine code of every hashing routine in a value-numbering domain (XOR/AND normal forms, sums modulo 2^32) with affine loop invariants: at every exit all n blocks are done and every stored 32-bit word has the same normal form as the FIPS 180-4 digest word of its own block.',
    C02='Same interpretation: every load and store is proved inside [input, input+64n), [output, output+32n), the routine\'s own frame or a constant table, for every n and content; accesses that need alignment are only made to addresses proved aligned (never to caller buffers); output writes cover exactly 32n bytes.',
    C03='No hashing routine stores to static storage (effect analysis of every store instruction) and the C++ hashing code has no mutable static or mutable member storage.',
    C04='At every exit rbx, rbp, r12-r15, rsp and the return address are the entry values and at every call the stack is 16-byte aligned (typestate of the frame along every abstract path).',
    C05='Over all CPUID answers, the instructions reachable in the routine the default hasher selects belong to extensions the CPU reports.',
    C06='Over all CPUID answers and all IMPL arguments (0..31 enumerated), implemented() equals the documented bits and the routine called by hash_64b_blocks is the documented one.',
)
CHECKS = {p: kernel_check(p) for p in ('C01', 'C02', 'C03', 'C04')}
CHECKS.update({p: dispatch_check(p) for p in ('C05', 'C06')})


def cxx(prop, mod, fn):
    def run(repo, work, tier):
        import importlib
        M = importlib.import_module('sa.cxx.' + mod)
        r = Result()
        r.rule = RULES[prop]
        try:
            getattr(M, fn)(repo, work, r, tier == 'thorough')
        except NotDecided as e:
            r.undecided.insert(0, str(e))
        r.coverage['explanation'] = RULES[prop]
        return r
    return run


from .cxx.rules import CXX   # noqa: E402
for _p, (_mod, _fn, _rule) in CXX.items():
    RULES[_p] = _rule
    CHECKS[_p] = cxx(_p, _mod, _fn)
