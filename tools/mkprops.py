#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the property statements in step)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=hook)))
ASM=["ssz/sha256_shani.asm","ssz/sha256_avx.asm","ssz/sha256_avx2.asm","ssz/sha256_avx_one_block.asm","ssz/transpose_avx2.asm","ssz/reg_sizes.asm","ssz/hasher.cpp"]
p("C01","Every SHA-256 implementation hashes every block correctly",
  "For every implementation that can be selected (SHA-NI, AVX2, AVX, single-block), every block count n and every content of the 64*n input bytes, output bytes 32*i..32*i+31 are the SHA-256 digest of input bytes 64*i..64*i+63. In particular all implementations agree with each other, whatever n is modulo their lane count and however many loop iterations run.",
  ["inputs"],"all block counts n >= 0, all input contents, all four implementations",
  "The tests hash one fixed message of 1, 4 or 8 blocks; the odd-tail path of the SHA-NI code, the remainder paths of the AVX/AVX2 code and every second loop iteration are never executed.",
  ASM,[("two-block and one-block rounds","ssz/sha256_shani.asm:sha256_shani"),("four-lane rounds and tail loop","ssz/sha256_avx.asm:sha256_4_avx"),("eight-lane rounds, hand-over to four-lane code","ssz/sha256_avx2.asm:sha256_8_avx2"),("single block","ssz/sha256_avx_one_block.asm:sha256_1_avx"),("block loop","ssz/hasher.cpp:Hasher::sha256_sse")],
  observe=["bytes written through the output pointer"])
p("C02","Hashing touches exactly the caller's buffers, at any alignment",
  "Hashing n blocks reads only the 64*n input bytes and writes all and only the 32*n output bytes (nothing at all when n is 0); every other memory access stays inside the routine's own stack frame or its constant tables. No access requires the caller's input or output buffer to be aligned.",
  ["inputs"],"all block counts, all buffer addresses and alignments, all implementations",
  "The tests use exactly-fitting, compiler-aligned buffers and never look beside them; a one-vector over-read or an alignment-requiring load passes.",
  ASM,[("pointer and counter updates per iteration","ssz/sha256_*.asm loops"),("unaligned loads and stores on caller buffers","movdqu/vmovups/vmovdqu in ssz/sha256_*.asm"),("frame layout","struc STACK / stack_frame in ssz/sha256_avx*.asm")],
  observe=["memory adjacent to the buffers","faults on unaligned buffers"])
p("C03","Hashing is reentrant",
  "Hashing keeps no state between or across calls: neither the SHA-256 routines nor the C++ code around them (hasher selection, Merkleization) modifies storage shared by several calls, so any number of threads may hash concurrently and each call's result depends only on its own arguments.",
  ["schedules"],"all interleavings of concurrent hash calls",
  "The tests are single-threaded; a scratch area in static storage gives correct digests until two calls overlap.",
  ASM+["ssz/hasher.hpp","ssz/hashtree.cpp","ssz/hashtree.hpp"],[("scratch space of the kernels","spill slots in ssz/sha256_*.asm"),("immutable globals","ssz/hashtree.cpp:zero_hash_array, HashTree::hasher")],
  observe=["digests computed by concurrent threads"])
p("C04","SHA-256 routines honour the System V calling convention",
  "On every path to a return, each SHA-256 routine restores rbx, rbp, r12-r15 and the stack pointer to their values at entry and leaves the caller's stack contents alone; inner calls get a correctly aligned stack and no caller relies on a register its callee destroys.",
  ["inputs"],"all block counts, all implementations, all callers",
  "A test only notices a clobbered register if its compiler happened to keep something live there; the one call pattern in the tests does not.",
  ASM,[("prologue/epilogue pairs","ssz/sha256_avx_one_block.asm, ssz/sha256_avx2.asm, ssz/sha256_avx.asm"),("frame alignment","FRAMESZ / STACK_ALIGNMENT_MASK in ssz/sha256_avx2.asm")],
  observe=["caller's callee-saved registers and stack after a hash call"])
p("C05","The automatically selected hasher runs only instructions the CPU has",
  "Whatever instruction-set extensions the CPU reports, the implementation chosen by default uses (including in everything it calls) only instructions from extensions that the CPU has reported, so hashing never faults with an illegal instruction.",
  ["configurations"],"all combinations of reported CPU features",
  "Tests run on at most two CPU models and skip an implementation the CPU lacks.",
  ["ssz/hasher.cpp","ssz/hasher.hpp"]+ASM[:5],[("selection under feature guards","ssz/hasher.cpp:Hasher::best_sha256_implementation"),("instructions used by each routine","ssz/sha256_*.asm")],
  observe=["SIGILL on CPUs lacking an extension"])
p("C06","CPU feature detection and implementation selection are exact",
  "The reported feature set is a function of CPUID alone: SHA iff leaf 7 EBX bit 29, AVX2 iff leaf 7 EBX bit 5, AVX iff leaf 1 ECX bit 28, SSE iff leaf 1 ECX bit 0, and a leaf the CPU does not have counts as all-zero. A default-constructed hasher (or one given no single known implementation) uses the first available of SHA, AVX2, AVX, single-block; a hasher asked for one named implementation uses that one.",
  ["configurations"],"all CPUID results, all constructor arguments",
  "Each run of the tests sees one CPUID result, and a wrong but working implementation gives the same digests.",
  ["ssz/hasher.cpp","ssz/hasher.hpp"],[("feature detection","ssz/hasher.cpp:Hasher::implemented"),("selection","ssz/hasher.cpp:Hasher::best_sha256_implementation"),("explicit selection","ssz/hasher.cpp:Hasher::Hasher(IMPL)")],
  observe=["Hasher::implemented()","which routine hash_64b_blocks calls"])
CONT=["common/containers.hpp","beacon-chain/attestation.cpp","beacon-chain/attestation.hpp","beacon-chain/beacon_block.hpp","beacon-chain/beacon_state.hpp","beacon-chain/deposits.hpp","beacon-chain/eth1data.hpp","beacon-chain/validator.cpp","beacon-chain/validator.hpp"]
p("C07","All codecs of a container agree on its fields and follow the spec order",
  "For every phase0 container type, SSZ serialization, SSZ deserialization, Merkleization, YAML encoding and YAML decoding all cover the same fields: every field exactly once, in the order the Ethereum phase0 specification gives, each YAML entry under its own spec field name.",
  ["inputs","programs"],"all container types, all five codec operations, all values",
  "The container tests do not build at this commit and need external vectors; a swap of two same-typed fields done consistently in reader and writer round-trips.",
  CONT,[("field lists","serialize_/deserialize_/hash_tree_/encode_/decode_ calls in every container")],
  observe=["serialized bytes","hash_tree_root","YAML keys"])
p("C08","Declared SSZ sizes equal the sum of the parts",
  "Every fixed-size container reports as its SSZ size exactly the number of bytes its serialization produces, that is, the sum of its fields' sizes; a container reports size 0 (variable) exactly when one of its fields is variable-size; and the size used at compile time equals the size reported at run time. This holds under both the minimal and the mainnet presets.",
  ["configurations","programs"],"all container types, both presets",
  "No test covers the size constants in the part that builds; a wrong constant only shows in a list or container embedding the type.",
  CONT+["common/bitvector.hpp","common/bytes.hpp","common/slot.hpp","common/boolean.hpp"],[("size constants","ssz_size / get_ssz_size in every container")],
  observe=["get_ssz_size()","T::ssz_size","offsets in serialized data"])
p("C09","Equality of containers compares every field",
  "Two values of the same SSZ type compare equal with == only if all their fields are equal; no SSZ type that carries data is compared by the data-less comparison of the common base class, neither directly nor as a field or element of another type.",
  ["inputs","programs"],"all SSZ types, all pairs of values",
  "The only users of == among the tests do not build, and they compare values expected to be equal, so a comparison that is always true passes.",
  ["ssz/ssz_container.hpp","common/bitlist.hpp","common/bitvector.hpp","common/bytes.hpp"]+CONT,[("base-class comparison","ssz/ssz_container.hpp:Container::operator=="),("defaulted comparisons","operator== in every container")],
  observe=["a == b","a != b","AttestationData::is_slashable"])
DES=["ssz/ssz_container.cpp","common/containers.hpp","common/bitlist.cpp","common/bitvector.hpp","common/boolean.hpp","common/bytes.hpp","common/slot.hpp","helpers/bytes_to_int.hpp"]
p("C10","Deserialization never reads outside the given bytes",
  "Whatever byte sequence it is given - empty, truncated, with arbitrary offsets - deserializing any SSZ type reads only bytes inside the given range, and every sub-range it hands to a nested type lies inside that range with begin not after end.",
  ["inputs"],"all byte sequences of all lengths, all SSZ types",
  "No test deserializes malformed data (and the deserialization tests do not build).",
  DES,[("offset and length checks","ssz/ssz_container.cpp:Container::deserialize_"),("offset walk","common/containers.hpp:ListVariableSizedParts::deserialize"),("element walk","common/containers.hpp:ListFixedSizedParts::deserialize, VectorFixedSizedParts::deserialize"),("last-byte access","common/bitlist.cpp:Bitlist::deserialize")],
  observe=["memory reads of deserialize(it, end)"])
p("C11","Deserialization accepts only the exact length and offset layout",
  "Deserialization succeeds on a fixed-size type only if the input has exactly that type's size, and on a container or list with variable-size parts only if the first offset equals the length of the fixed part (or offset table), offsets never decrease and none points past the end. Bytes that belong to no field are never accepted.",
  ["inputs"],"all byte sequences, all SSZ types",
  "No test deserializes malformed data; accepting too much is invisible on well-formed vectors.",
  DES,[("length checks","deserialize in leaf types and vectors"),("offset checks","ssz/ssz_container.cpp:Container::deserialize_, common/containers.hpp:ListVariableSizedParts::deserialize")],
  observe=["return value of deserialize"])
p("C12","Over-long lists are rejected, never Merkleized past their limit",
  "Deserializing a list or bitlist that was given a limit fails if the data holds more elements than the limit, and Merkleization refuses more chunks than the tree's limit instead of writing past its buffer. Every list field of a container is given the phase0 limit of that field, so the same holds for whole blocks and states.",
  ["inputs"],"all byte sequences, all lists with a limit, all chunk counts",
  "Tests only use well-formed lists, which are within their limits.",
  ["common/containers.hpp","common/bitlist.cpp","ssz/hashtree.cpp"],[("element limit","limit_ in common/containers.hpp, common/bitlist.hpp"),("chunk limit","ssz/hashtree.cpp:HashTree::HashTree")],
  observe=["return value of deserialize","heap writes of hash_tree_root"])
p("C13","Only canonical bit patterns are accepted",
  "Deserialization rejects a boolean byte other than 0 or 1, a bit vector with a bit set beyond its length, and a bit list whose last byte is zero or missing (no end marker).",
  ["inputs"],"all byte sequences for booleans, bit vectors and bit lists",
  "No test feeds a non-canonical encoding.",
  ["common/boolean.hpp","common/bitvector.hpp","common/bitlist.cpp"],[("range check","common/boolean.hpp:Boolean::deserialize"),("padding check","common/bitvector.hpp:Bitvector::deserialize"),("end-marker search","common/bitlist.cpp:Bitlist::deserialize")],
  observe=["return value of deserialize","contents and size after deserialize"])
p("C14","No parse failure is dropped",
  "If deserializing or decoding a nested part, element or string reports failure, the enclosing operation reports failure too (returns false or throws); no success value can be returned after an ignored or overwritten failure.",
  ["inputs"],"all inputs, all nesting shapes, every call site of deserialize/decode",
  "Tests only parse valid data, on which ignoring the result is harmless.",
  DES+CONT+["bench/bench_sha256_impl.cpp"],[("result checks","every call of deserialize/decode/deserialize_/decode_/from_hexstring")],
  observe=["return value of the outermost deserialize/decode"])
p("C15","List roots commit to the list's limit and length; other roots do not",
  "The hash tree root of every list and bitlist is computed over a tree sized by the list's own limit and then has the current element (or bit) count mixed in exactly once, on every path including the empty list; roots of vectors, basic values and containers never have a length mixed in. Every list field of a container has the limit the phase0 specification gives it, and parsing a value does not change that limit.",
  ["inputs","programs"],"all list types, all list contents and limits",
  "The Merkleization tests do not build here, and a missing length or limit only shows for particular lengths.",
  ["common/containers.hpp","common/bitlist.cpp","ssz/hashtree.cpp","ssz/ssz_container.cpp","common/slot.hpp"],[("mix_in after building","hash_tree/hash_tree_x in common/containers.hpp and common/bitlist.cpp"),("tree limit","HashTree constructor calls")],
  observe=["hash_tree_root()"])
p("C16","The zero-subtree table covers every declared limit",
  "For every list and vector limit declared in either network preset, padding the tree up to that limit only uses zero-subtree hashes that the precomputed table contains, and entry k of the table is the hash of two copies of entry k-1 starting from the all-zero chunk.",
  ["configurations"],"all declared limits in both presets, all tree heights",
  "No built test touches Merkleization; an out-of-range height only occurs for the largest limits.",
  ["ssz/hashtree.cpp","config/mainnet.hpp.in","config/minimal.hpp.in","beacon-chain/beacon_state.hpp","beacon-chain/beacon_block.hpp","beacon-chain/attestation.hpp","common/containers.hpp"],[("table depth","ssz/hashtree.cpp:ZERO_HASH_DEPTH, zero_hash_array_helper"),("height index","ssz/hashtree.cpp:merkleize"),("limits","member initializers of list fields")],
  observe=["roots of sparse lists"])
p("C17","Preset constants equal the phase0 specification",
  "Every network constant of the minimal and the mainnet preset, and every preset-independent protocol constant, has the value (and, for byte-string constants, the byte order) that the phase0 specification and network configuration give it, and both presets define every constant the code uses.",
  ["configurations"],"every constant, both presets",
  "No test reads the constants; builds use one preset at a time.",
  ["config/constants.hpp","config/mainnet.hpp.in","config/minimal.hpp.in"],[("constant definitions","config/*.hpp, config/*.hpp.in")],
  observe=["constants::*","sizes and limits derived from them"])
p("C18","Hex text form is real hex and only real hex is accepted",
  "The text form of bytes, bit vectors and bit lists is 0x followed by two hex digits per byte, for every byte value, and the digit table maps the characters 0-9, a-f, A-F to their values and no other character to a nonzero value. Parsing requires the 0x prefix, stores exactly the bytes or bits the digits spell, never stores beyond the destination, and looks no character up outside the digit table, whatever the input string.",
  ["inputs"],"all byte values, all input strings",
  "No built test covers text encoding; most byte values and characters are never tried.",
  ["common/bitlist.cpp","common/bitvector.hpp","common/bytes.hpp","helpers/bytes_to_int.hpp"],[("to_string","common/bitlist.cpp, common/bitvector.hpp, common/bytes.hpp"),("digit table","helpers/bytes_to_int.hpp:Table"),("from_hexstring/bytes_from_str","common/bitlist.cpp, common/bitvector.hpp, common/bytes.hpp")],
  observe=["to_string()","YAML text","from_hexstring/decode on arbitrary strings"])
p("C19","Every default-constructed value is fully initialized",
  "Default-constructing any SSZ value, and any hasher, initializes all of its data members to a determinate value, so serializing, hashing or comparing a fresh value never reads indeterminate memory; local scratch values are likewise written before they are read.",
  ["programs"],"all SSZ types and constructors, all paths",
  "Uninitialized members usually read as zero in a test process.",
  ["common/bitvector.hpp","common/bitlist.hpp","common/boolean.hpp","common/slot.hpp","common/bytes.hpp","ssz/hasher.hpp","ssz/hasher.cpp","ssz/hashtree.cpp"]+CONT[:1],[("constructors and member initializers","every class deriving from ssz::Container, ssz::Hasher")],
  observe=["serialize()/hash_tree_root() of a default-constructed value"])
p("C20","Validator and attestation predicates equal the specification",
  "For all epochs, balances and flags: a validator is active iff activation_epoch <= epoch < exit_epoch, slashable iff not slashed and activation_epoch <= epoch < withdrawable_epoch, and eligible for the activation queue iff its eligibility epoch is FAR_FUTURE_EPOCH and its effective balance equals MAX_EFFECTIVE_BALANCE. Two attestations are slashable iff they differ with equal target epoch (double vote) or the first surrounds the second, and an indexed attestation is rejected unless its indices are non-empty, sorted and free of duplicates.",
  ["inputs"],"all field values, including equal and boundary epochs",
  "No test covers the predicates; only boundary values distinguish < from <=.",
  ["beacon-chain/validator.cpp","beacon-chain/attestation.cpp"],[("predicates","Validator::is_active, is_eligible_for_activation_queue, is_slashable; AttestationData::is_slashable; IndexedAttestation::is_valid")],
  observe=["return values of the predicates"])
p("C21","Initialization does not depend on link order",
  "No object with static storage duration needs, for its own initialization, a dynamically initialized object of another translation unit or one defined later in its own, so the zero-subtree hashes and the hasher have the same value in every program, whatever the link order and whichever hasher a program installs.",
  ["configurations","programs"],"all link orders, default and custom hasher builds",
  "A test binary exercises one link order.",
  ["ssz/hashtree.cpp","ssz/hashtree.hpp","ssz/hasher.hpp","config/constants.hpp"],[("namespace-scope initializers","ssz/hashtree.cpp:zero_hash_array, HashTree::hasher; config/constants.hpp")],
  observe=["roots computed by programs linked in different orders"])
p("C22","Read accessors are read-only and return the field they name",
  "Every public accessor of blocks, block bodies and states returns the field it is named after, by value or by reference to const and callable on a const object, and no code casts constness away, so holding a const block or state never allows it to be modified. Every setter stores its argument in the field it is named after and changes nothing else.",
  ["programs"],"all client programs, all accessors",
  "A test can only sample accessors, and which programs compile is not something a test observes.",
  ["beacon-chain/beacon_state.hpp","beacon-chain/beacon_block.hpp","ssz/hashtree.hpp"],[("accessor signatures and bodies","BeaconState, BeaconBlock, BeaconBlockBody, HashTree")],
  observe=["types and values returned by accessors"])
p("C23","Deserialize inverts serialize",
  "For every SSZ type, every input that is the canonical encoding of a value within the type's limits is accepted, and the value stored is the one encoded: each basic value, byte and bit is the one at its place in the input, each element of a list or vector and each field of a container is parsed from its own sub-range. Together with the canonical form of serialization, deserializing what serialize() returned gives back an equal value.",
  ["inputs"],"all values of all types",
  "The container tests do not build and only sample test vectors.",
  DES+CONT,[("deserialize","all SSZ types")],observe=["acceptance of canonical encodings","the value after deserialize()"])
p("C24","The hash tree root equals the SSZ specification's Merkle root",
  "For every chunk count, chunk content and limit, the root computed by the hash tree is the SSZ merkleize() value: the binary Merkle root of the chunks padded with zero chunks to the next power of two of the limit. The root of every SSZ type is that root over the chunks of the type's own content, in order, with the limit the type has, and with the length mixed in for lists and bit lists only.",
  ["inputs"],"all chunk counts, contents and limits",
  "The Merkleization tests do not build and sample a few lengths.",
  ["ssz/hashtree.cpp","common/containers.hpp","common/bitlist.cpp","ssz/ssz_container.cpp"],[("level-by-level reduction","ssz/hashtree.cpp:merkleize"),("trees of types","hash_tree() of every SSZ type")],observe=["hash_tree_root()"])
p("C25","The ceiling logarithm is exact",
  "For every unsigned 64-bit n the ceiling-logarithm helper, which sizes every Merkle tree, returns the least k with 2^k >= n (0 for n = 0).",
  ["inputs"],"all unsigned 64-bit integers","No test calls this helper.",
  ["helpers/math.hpp"],[("log2ceil","helpers/math.hpp")],observe=["return values"])
p("C26","Serialization produces the canonical SSZ layout",
  "serialize() of every SSZ type writes exactly the canonical encoding: integers little-endian, bits from the least significant bit of each byte, a bit list's end marker directly behind its last bit, the fixed parts of a container or the elements of a sequence in order, and for every variable-size part a four-byte little-endian offset that equals the position of that part, all parts following in order without gaps.",
  ["inputs"],"all values of all types",
  "The serialization tests do not build and only sample test vectors.",
  DES+CONT,[("serialize","ssz/ssz_container.cpp:serialize_, common/*.hpp, common/bitlist.cpp")],observe=["bytes returned by serialize()"])
p("C27","The integer square root is exact",
  "For every unsigned 64-bit x the integer square root helper returns floor(sqrt(x)).",
  ["inputs"],"all unsigned 64-bit integers","No test calls this helper.",
  ["helpers/math.hpp"],[("integer_squareroot, ct_sqrt","helpers/math.hpp")],observe=["return values"])
p("C28","Operations on values are exact",
  "For all operands: constructing Bytes, Slot and Boolean from integers, arrays and vectors and converting them back denotes exactly the same bytes or number (little-endian, zero-filled); concatenation and exclusive-or of Bytes, comparison of Bytes with Bytes of any size and with byte vectors, size(), indexing, iteration in both directions, data() and assignment return or change exactly the bytes or elements they denote and nothing else.",
  ["inputs"],"all operand values; sequences of any content",
  "The tests use a few operators on one or two values.",
  ["common/bytes.hpp","common/slot.hpp","common/boolean.hpp","common/containers.hpp"],[("operators and conversions","common/bytes.hpp, common/slot.hpp, common/boolean.hpp"),("access to elements","common/containers.hpp")],observe=["return values and operands of public operations"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
