"""property -> (module, function, the rule applied)"""
ABS = 'Abstract interpretation of the clang AST (trace partitioning over a polyhedral domain, heap of symbolic containers). '
CXX = dict(
    C07=('c_containers', 'c07', ABS + 'For every container type and each of serialize, deserialize, hash_tree, encode and decode, the sequence of fields the code hands to the codec is computed on every trace and compared with the phase0 field list (order, names, no repeats).'),
    C08=('c_containers', 'c08', ABS + 'For every type and both presets, the value get_ssz_size() returns, the compile-time ssz_size constant and the number of bytes serialize() produces are computed symbolically and compared with each other and with the phase0 size of the type.'),
    C09=('c_equal', 'c09', ABS + 'operator== of every SSZ type is run on two arbitrary values; on every trace returning true each field of the two is provably equal. No == on SSZ values resolves to ssz::Container::operator==.'),
    C10=('c_parse', 'c10', ABS + 'deserialize() of every SSZ type is run on an input of arbitrary length and content; every dereference of the input and every range handed on must be provably inside the input.'),
    C11=('c_parse', 'c11', ABS + 'On every trace of deserialize() that returns true, the length of the input and the offsets read are provably those of the exact SSZ layout.'),
    C12=('c_parse', 'c12', ABS + 'With a list limit set, no trace of deserialize() returning true leaves more elements than the limit, no tree is built from more chunks than its limit, and every list field of a constructed container carries the specification\'s limit.'),
    C13=('c_parse', 'c13', ABS + 'On every trace of deserialize() of booleans, bit vectors and bit lists that returns true the input bytes are provably canonical.'),
    C14=('c_parse', 'c14', ABS + 'Every nested deserialize/decode is forced to fail in turn; no trace of the enclosing operation returns success afterwards.'),
    C15=('c_tree', 'c15', ABS + 'For every SSZ type the tree hash_tree() returns is computed symbolically: lists build over their own limit and mix in their element count exactly once on every trace; other types never do.'),
    C16=('c_tree', 'c16', ABS + 'zero_hash_array is evaluated symbolically from its initializer, and every limit declared by a container in either preset (and every limit the tree code can be given) indexes inside it.'),
    C17=('c_misc', 'c17', 'Constant evaluation of every constant in both presets (generated config headers) compared with the phase0 specification table.'),
    C18=('c_text', 'c18', ABS + 'Printing: the text of every byte-like type is 0x plus two digit characters per serialized byte, each pair provably that byte. Parsing: every text-consuming operation is run on an arbitrary text (all reads and stores in bounds, accepted only with the prefix) and on full-length digit texts (each stored byte or bit provably the one spelled).'),
    C19=('c_init', 'c19', ABS + 'Every constructor of every SSZ type and of Hasher is run; the constructed value has no indeterminate leaf, and no codec, helper or tree trace reads an indeterminate value.'),
    C20=('c_pred', 'c20', ABS + 'Each predicate is run on arbitrary field values; every trace is partitioned against the specification and each satisfiable cell must return the specified answer.'),
    C21=('c_misc', 'c21', 'Dependency graph of the initializers of all objects with static storage: initializer -> functions reached -> dynamically initialized objects; edges to another translation unit or to a later object of the same unit are violations.'),
    C22=('c_misc', 'c22', ABS + 'Every public accessor of states, blocks and bodies: signature (const, by value or reference to const) from the AST; the returned location and the location stored by setters from abstract execution; no const_cast anywhere.'),
    C24=('c_tree', 'c24', ABS + 'The tree code is executed abstractly on symbolic chunks with SHA-256 as an uninterpreted function; the resulting term is compared with the SSZ Merkle root term for every chunk count and limit enumerated; for every type hash_tree() builds that tree over its own bytes or parts, with its own limit, and mixes the count in exactly for lists.'),
    C23=('c_layout', 'c23', ABS + 'No rejecting trace of deserialize() is satisfiable together with the canonical layout, the limit and successfully parsed parts; on accepting traces every stored value is the one at its place in the input and every nested part gets its own sub-range. serialize() is shown to write that canonical layout (the analysis of C26), the other half of the round trip.'),
    C25=('c_math', 'c25', ABS + 'log2ceil is run on an arbitrary n; every trace has one result k, and no n of the trace lies outside (2^(k-1), 2^k].'),
    C27=('c_math', 'c27', ABS + 'integer_squareroot is interpreted in the domain of offsets from the true root s (s^2 <= x < (s+1)^2), from every value the cut library root can have; every trace returns s.'),
    C28=('c_value', 'c28', ABS + 'Every public operation on Bytes, Slot, Boolean and the sequence types is interpreted on arbitrary operands (through one-line uses of it); its result is the operand bytes, number or element the operation denotes.'),
    C26=('c_layout', 'c26', ABS + 'The byte sequence serialize() returns is computed symbolically for every type (field values, nested encodings and their lengths are symbols) and compared with the canonical layout: order, offsets, byte order, bit order, end marker.'),
)
