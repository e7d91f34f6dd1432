"""Front end: runs the extractor over every C++ translation unit of the repository for one preset and merges the results."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SRC = os.path.join(VERIF, 'extract', 'extract.cpp')
PRESETS = ('minimal', 'mainnet')

# the phase0 containers and the basic and composite SSZ types they are made of
CONTAINERS = ('Fork ForkData Checkpoint SigningData AttestationData IndexedAttestation PendingAttestation Attestation Eth1Data '
              'DepositMessage DepositData Deposit BeaconBlockHeader VoluntaryExit SignedVoluntaryExit SignedBeaconBlockHeader '
              'ProposerSlashing AttesterSlashing BeaconBlockBody BeaconBlock SignedBeaconBlock Validator BeaconState').split()
WITNESS_TYPES = ['Bytes<1>', 'Bytes<3>', 'Bytes<4>', 'Bytes<8>', 'Bytes<20>', 'Bytes<32>', 'Bytes<48>', 'Bytes<96>',
                 'Bitvector<1>', 'Bitvector<4>', 'Bitvector<7>', 'Bitvector<8>', 'Bitvector<9>', 'Bitvector<16>', 'Bitvector<19>',
                 'VectorFixedSizedParts<Root, 1>', 'VectorFixedSizedParts<Root, 3>', 'VectorFixedSizedParts<Gwei, 1>', 'VectorFixedSizedParts<Gwei, 5>',
                 'VectorFixedSizedParts<Checkpoint, 2>',
                 'ListFixedSizedParts<Root>', 'ListFixedSizedParts<Gwei>', 'ListFixedSizedParts<Checkpoint>', 'ListFixedSizedParts<Validator>', 'ListFixedSizedParts<Deposit>',
                 'ListFixedSizedParts<Eth1Data>', 'ListFixedSizedParts<ProposerSlashing>', 'ListFixedSizedParts<SignedVoluntaryExit>',
                 'ListVariableSizedParts<Attestation>', 'ListVariableSizedParts<PendingAttestation>', 'ListVariableSizedParts<AttesterSlashing>']
PLAIN = ['Slot', 'Boolean', 'Bitlist']
WITNESS = '''
#include <sstream>
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "helpers/bytes_to_int.hpp"
#include "helpers/math.hpp"
#include "ssz/hasher.hpp"
#include "ssz/hashtree.hpp"
namespace eth {
%(inst)s
}
namespace witness {
using namespace eth;
template <class T> bool w_eq(const T &a, const T &b) { return a == b; }
template <class T> bool w_ne(const T &a, const T &b) { return a != b; }
template <class T> void w_new() { T t; (void)t; }
void w_hasher() { ssz::Hasher h; ssz::Hasher g{ssz::Hasher::IMPL::NONE}; (void)h; (void)g; }
template <class T> bool w_conv(const YAML::Node &n, T &t) { return YAML::convert<T>::decode(n, t); }
template <class T> YAML::Node w_enc(const T &t) { return YAML::convert<T>::encode(t); }
Bytes<12> w_plus(const Bytes<4> &a, const Bytes<8> &b) { return a + b; }
void w_xor(Bytes<4> &a, const Bytes<4> &b) { a ^= b; }
/*optional*/ std::uint64_t w_le64(const std::uint8_t *p) { return helpers::to_integer_little_endian<std::uint64_t>(p); }
/*optional*/ std::uint32_t w_le32(const std::uint8_t *p) { return helpers::to_integer_little_endian<std::uint32_t>(p); }
/*optional*/ std::uint64_t w_isqrt(std::uint64_t x) { return helpers::integer_squareroot<std::uint64_t>(x); }
/*optional*/ int w_hex(char c) { return helpers::hextoint(c); }
%(uses)s
%(values)s
}
'''
# one operation on values each (C28); the last argument selects the part of the result
VALUE_WITNESS = """
U8 v_bytes_of_u32(std::uint32_t x, Z i) { return Bytes<4>(x)[i]; }
U8 v_bytes_of_u64(std::uint64_t x, Z i) { return Bytes<32>(x)[i]; }
U8 v_bytes_of_u16(std::uint16_t x, Z i) { return Bytes<8>(x)[i]; }
U8 v_bytes_of_u8(std::uint8_t x, Z i) { return Bytes<8>(x)[i]; }
U8 v_bytes_of_bool(bool x, Z i) { return Bytes<4>(x)[i]; }
std::uint32_t v_u32_of_bytes(const Bytes<4> &a) { return a.to_integer_little_endian<std::uint32_t>(); }
std::uint64_t v_u64_of_bytes(const Bytes<8> &a) { return a.to_integer_little_endian<std::uint64_t>(); }
U8 v_array_bytes(std::array<U8, 4> a, Z i) { return Bytes<4>(a)[i]; }
U8 v_at(const Bytes<32> &a, Z i) { return a[i]; }
U8 v_at_mut(Bytes<32> &a, Z i) { return a[i]; }
U8 v_data(Bytes<32> &a, Z i) { return a.data()[i]; }
U8 v_begin(Bytes<32> &a, Z i) { return *(a.begin() + i); }
U8 v_cbegin(const Bytes<32> &a, Z i) { return *(a.cbegin() + i); }
Z v_range(Bytes<32> &a) { return a.end() - a.begin(); }
Z v_crange(const Bytes<32> &a) { return a.cend() - a.cbegin(); }
Z v_size(const Bytes<32> &a) { return a.size(); }
U8 v_to_array(const Bytes<32> &a, Z i) { return a.to_array()[i]; }
U8 v_to_vector(Bytes<32> &a, Z i) { std::vector<U8> v = a; return v[i]; }
Z v_to_vector_size(Bytes<32> &a) { std::vector<U8> v = a; return v.size(); }
U8 v_set(Bytes<32> &a, U8 x, Z j, Z i) { a[j] = x; return a[i]; }
U8 v_concat(const Bytes<4> &a, const Bytes<8> &b, Z i) { return (a + b)[i]; }
U8 v_concat48(const Bytes<1> &a, const Bytes<3> &b, Z i) { return (a + b)[i]; }
U8 v_xor_right(Bytes<32> &a, const Bytes<32> &b, Z i) { a ^= b; return b[i]; }
U8 v_xor_zero(Bytes<32> &a, Z i) { Bytes<32> z; a ^= z; return a[i]; }
U8 v_xor_into_zero(const Bytes<32> &a, Z i) { Bytes<32> z; z ^= a; return z[i]; }
U8 v_xor_ones(const Bytes<8> &a, Z i) { Bytes<8> z(~std::uint64_t(0)); z ^= a; return z[i]; }
bool v_eq_vector(const Bytes<4> &a, const std::vector<U8> &v) { return a == v; }
bool v_eq_bytes(const Bytes<4> &a, const Bytes<4> &b) { return a == b; }
bool v_eq_shorter(const Bytes<4> &a, const Bytes<3> &b) { return a == b; }
bool v_eq_longer(const Bytes<4> &a, const Bytes<8> &b) { return a == b; }
std::uint64_t v_slot(std::uint64_t x) { const Slot s{x}; return s; }
std::uint64_t v_slot_new() { const Slot s{}; return s; }
std::uint64_t v_slot_ref(Slot s, std::uint64_t x) { std::uint64_t &r = s; r = x; const Slot t = s; return t; }
U8 v_slot_bytes(std::uint64_t x, Z i) { const Slot s{x}; return Bytes<8>(static_cast<Bytes8>(s))[i]; }
bool v_boolean(bool x) { const Boolean s{x}; return s; }
bool v_boolean_new() { const Boolean s{}; return s; }
bool v_boolean_ref(Boolean s, bool x) { bool &r = s; r = x; const Boolean t = s; return t; }
U8 v_boolean_bytes(bool x) { const Boolean s{x}; return static_cast<Bytes1>(s)[0]; }
Z v_vector_size(VectorFixedSizedParts<Gwei, 5> &a) { return a.size(); }
Z v_vector_range(VectorFixedSizedParts<Gwei, 5> &a) { return a.end() - a.begin(); }
Z v_vector_crange(VectorFixedSizedParts<Gwei, 5> &a) { return a.cend() - a.cbegin(); }
std::uint64_t v_vector_at(VectorFixedSizedParts<Gwei, 5> &a, Z i) { const Slot s = *(a.begin() + i); return s; }
std::uint64_t v_vector_cat(VectorFixedSizedParts<Gwei, 5> &a, Z i) { const Slot s = *(a.cbegin() + i); return s; }
Z v_list_size(ListFixedSizedParts<Gwei> &a) { return a.size(); }
Z v_list_range(ListFixedSizedParts<Gwei> &a) { return a.end() - a.begin(); }
Z v_list_crange(ListFixedSizedParts<Gwei> &a) { return a.cend() - a.cbegin(); }
Z v_list_data_size(ListFixedSizedParts<Gwei> &a) { return a.data().size(); }
std::uint64_t v_list_at(ListFixedSizedParts<Gwei> &a, Z i) { const Slot s = *(a.begin() + i); return s; }
std::uint64_t v_list_cat(ListFixedSizedParts<Gwei> &a, Z i) { const Slot s = *(a.cbegin() + i); return s; }
std::uint64_t v_list_data(ListFixedSizedParts<Gwei> &a, Z i) { const Slot s = a.data()[i]; return s; }
Z v_varlist_size(ListVariableSizedParts<Attestation> &a) { return a.size(); }
Z v_varlist_range(ListVariableSizedParts<Attestation> &a) { return a.end() - a.begin(); }
Z v_varlist_crange(ListVariableSizedParts<Attestation> &a) { return a.cend() - a.cbegin(); }
const Attestation *v_varlist_at(ListVariableSizedParts<Attestation> &a, Z i) { return &*(a.begin() + i); }
const Attestation *v_varlist_cat(ListVariableSizedParts<Attestation> &a, Z i) { return &*(a.cbegin() + i); }
Z v_bitlist_size(Bitlist &a) { return a.size(); }
U8 v_bitvector_of(std::array<bool, 9> a, Z i) { return Bitvector<9>(a).serialize()[i]; }
"""
# the operations that are loops over the bytes, at further sizes
VALUE_SIZES = (1, 7, 8, 13, 20, 48, 96, 300)
for _n in VALUE_SIZES:
    VALUE_WITNESS += """U8 v_xor_right_N(Bytes<N> &a, const Bytes<N> &b, Z i) { a ^= b; return b[i]; }
U8 v_xor_zero_N(Bytes<N> &a, Z i) { Bytes<N> z; a ^= z; return a[i]; }
U8 v_xor_into_zero_N(const Bytes<N> &a, Z i) { Bytes<N> z; z ^= a; return z[i]; }
U8 v_concat_right_N(const Bytes<20> &a, const Bytes<N> &b, Z i) { return (a + b)[i]; }
U8 v_concat_left_N(const Bytes<N> &a, const Bytes<20> &b, Z i) { return (a + b)[i]; }
U8 v_to_vector_N(Bytes<N> &a, Z i) { std::vector<U8> v = a; return v[i]; }
Z v_to_vector_size_N(Bytes<N> &a) { std::vector<U8> v = a; return v.size(); }
U8 v_copy_N(const Bytes<N> &a, Bytes<N> b, Z i) { b = a; return b[i]; }
bool v_eq_vector_N(const Bytes<N> &a, const std::vector<U8> &v) { return a == v; }
bool v_eq_bytes_N(const Bytes<N> &a, const Bytes<N> &b) { return a == b; }
""".replace('N', str(_n))
VALUE_LINES = 'using U8 = std::uint8_t; using Z = std::size_t;\n' + '\n'.join('/*optional*/ ' + l for l in VALUE_WITNESS.strip().split('\n'))


def ensure_extractor(work):
    sha = hashlib.sha256(open(SRC, 'rb').read()).hexdigest()
    bd = os.path.join(VERIF, 'build')
    exe = os.path.join(bd, 'extract-' + sha[:16])
    if os.path.exists(exe):
        return exe
    try:
        os.makedirs(bd, exist_ok=True)
        tmp = os.path.join(bd, 'tmp-%d' % os.getpid())
        open(tmp, 'w').close()
    except OSError:
        tmp = exe = os.path.join(work, 'extract')
    subprocess.check_call(['bash', os.path.join(VERIF, 'extract', 'build.sh'), tmp])
    if tmp != exe:
        os.rename(tmp, exe)
    return exe


def overlay(repo, work, preset):
    d = os.path.join(work, 'ov-' + preset)
    inc = os.path.join(d, 'include')
    os.makedirs(inc, exist_ok=True)
    s = open(os.path.join(repo, 'config', preset + '.hpp.in')).read().replace('@CMAKE_SOURCE_DIR@', repo)
    open(os.path.join(inc, 'config.hpp'), 'w').write(s)
    return d


def flags(repo, ov):
    return ['-std=c++20', '-w', '-I' + ov, '-I' + os.path.join(ov, 'include'), '-I' + repo, '-I' + os.path.join(repo, 'include')]


_rd = None


def resource_dir():
    global _rd
    if _rd is None:
        _rd = subprocess.check_output(['/usr/bin/clang++', '-print-resource-dir'], text=True).strip()
    return _rd


def units(repo):
    out = []
    for d in ('ssz', 'common', 'helpers', 'beacon-chain', 'config', 'src', 'lib'):
        for f in sorted(glob.glob(os.path.join(repo, d, '**', '*.cpp'), recursive=True)):
            b = os.path.basename(f)
            if b.startswith('test') or b.endswith('_test.cpp') or '/test' in f or b == 'main.cpp':
                continue
            out.append(f)
    return out


class Program:
    def __init__(self):
        self.types, self.records, self.funcs, self.globals = {}, {}, {}, {}
        self.units, self.failed = [], []
        self.by_qn = {}
        self.broken = {}     # optional witness -> (file, line, error) in the code it instantiates
        self.rec_by_name = {}

    def merge(self, d):
        self.types.update(d['types'])
        for k, v in d['records'].items():
            o = self.records.get(k)
            if o is None or 'incomplete' in o:
                self.records[k] = v
            elif 'incomplete' not in v:
                have = {m['f'] for m in o.get('methods', ())}
                for m in v.get('methods', ()):   # implicit members may only be declared where they are used
                    if m['f'] not in have:
                        o['methods'].append(m)
        for k, v in d['funcs'].items():
            o = self.funcs.get(k)
            if o is None or ('body' not in o and 'body' in v):
                self.funcs[k] = v
        for k, v in d['globals'].items():
            o = self.globals.get(k)
            if o is None or ('init' not in o and 'init' in v):
                self.globals[k] = v

    def index(self):
        for k, f in self.funcs.items():
            self.by_qn.setdefault(f['qn'], []).append(k)
        for k, r in self.records.items():
            self.rec_by_name.setdefault(r['name'], k)


def load(repo, work, preset, defs=()):
    exe = ensure_extractor(work)
    ov = overlay(repo, work, preset)
    fl = flags(repo, ov) + ['-resource-dir', resource_dir()]  + list(defs)
    rel = [(u, os.path.relpath(u, repo)) for u in units(repo)]
    wt = []
    # one witness per group keeps the units small enough to run in parallel
    groups = [WITNESS_TYPES[i::3] for i in range(3)]
    plain = [(CONTAINERS + PLAIN)[i::3] for i in range(3)]
    for i in range(3):
        p = os.path.join(work, 'witness-%s-%d.cpp' % (preset, i))
        inst = '\n'.join('template class %s;' % t for t in groups[i])
        uses = '\n'.join('void w_use%d(const %s &a, %s &m, const YAML::Node &n) { (void)w_eq(a, a); (void)w_ne(a, a); w_new<%s>(); (void)w_conv(n, m); (void)w_enc(a); (void)(a == m); (void)a.hash_tree_root(); }' % (j, t, t, t)
                         for j, t in enumerate(groups[i] + plain[i]))
        open(p, 'w').write(WITNESS % dict(inst=inst, uses=uses, values=VALUE_LINES if i == 2 else ''))
        wt.append((p, 'witness%d' % i))
    jobs = wt + rel
    prog = Program()

    def one(a):
        i, (path, name) = a
        out = os.path.join(work, '%s-%d.json' % (preset, i))
        cmd = [exe, repo.rstrip('/') + '/:' + ov + '/', 'u%d_' % i, out, path, '--'] + fl
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode and name.startswith('witness'):   # a helper that is gone or renamed: do without its witness
            with open(path) as f:
                lines = f.read().split('\n')
            bad = {int(m) - 1 for m in re.findall(re.escape(path) + r':(\d+):\d+: (?:error|note: in instantiation)', p.stderr)}
            at = None
            for l in p.stderr.split('\n'):
                g = re.match(r'^(\S+?):(\d+):\d+: error: (.*)', l)
                if g:
                    at = g.groups()
                g = re.match(re.escape(path) + r':(\d+):\d+: note: in instantiation', l)
                if g and at and at[0].startswith(repo.rstrip('/') + '/'):
                    w = re.search(r'\b(\w+)\(', lines[int(g.group(1)) - 1])
                    prog.broken[w.group(1) if w else '?'] = at
            if bad and all(lines[b].startswith('/*optional*/') for b in bad):
                for b in bad:
                    lines[b] = ''
                with open(path, 'w') as f:
                    f.write('\n'.join(lines))
                p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode or not os.path.exists(out):
            return name, None, p.stderr
        with open(out) as f:
            t = f.read()
        d = json.loads(t.replace(os.path.join(ov, 'include', 'config.hpp'), os.path.join(repo, 'config', preset + '.hpp.in')))
        os.unlink(out)
        return name, d, ''
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, d, err in ex.map(one, list(enumerate(jobs))):
            if d is None:
                prog.failed.append((name, err.strip().split('\n')[0] if err else ''))
                if name.startswith('witness'):
                    raise RuntimeError('the witness unit does not compile against this tree: ' + err[:2000])
            else:
                prog.units.append(name)
                prog.merge(d)
    prog.index()
    prog.preset = preset
    prog.repo = repo
    return prog
