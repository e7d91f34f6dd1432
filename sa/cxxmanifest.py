"""Technique and level note of the C++ checks for MANIFEST.json."""
T = 'Trusted: clang\'s AST, the interpreter in sa/cxx (models of the standard library and yaml-cpp in models.py). Traces that use a construct without a model, or that the polyhedral domain cannot decide, are reported as undecided and raise no alarm.'
A = 'abstract interpretation of the typed AST (trace partitioning, polyhedra, symbolic heap)'
CLAIMS = {
 'C07': (A, 'All containers, both presets, all five codecs; all values. ' + T),
 'C08': (A + ' + constant evaluation', 'All types, both presets. List lengths capped at 2^26 (offsets are 32-bit). ' + T),
 'C09': (A + ' + overload-resolution query', 'All SSZ types, all pairs of values; vectors element-wise. ' + T),
 'C10': (A, 'Loops over elements are unrolled a fixed number of times and then summarised. ' + T),
 'C11': (A, 'Loops over elements are unrolled a fixed number of times and then summarised. ' + T),
 'C12': (A, 'All lists with a limit. ' + T),
 'C13': (A, 'Bit vectors and lists of all sizes used. ' + T),
 'C14': (A + ' + use-of-result query on every call site', 'Each nested failure is injected as an abstract result. ' + T),
 'C15': (A, 'All SSZ types. ' + T),
 'C16': (A + ' + constant evaluation', 'Both presets. ' + T),
 'C17': ('constant evaluation of the AST against the specification table', 'The table in sa/cxx/spec.py is trusted.'),
 'C18': (A + ' (finite tables of one symbol)', 'Byte strings to 3 bytes (4 thorough; the template code does not depend on the size), bit vectors to 16 bits, bit lists to 2 bytes; per byte all 22 x 22 digit pairs and all characters. ' + T),
 'C19': (A + ' with an indeterminate value', 'All constructors; codecs with loops unrolled; tree code on small inputs. ' + T),
 'C20': (A, 'All field values (64-bit), lists of indices up to the unrolling bound and summarised beyond. ' + T),
 'C21': ('static-initialization dependency graph over the call graph', 'Default and CUSTOM_HASHER builds. Calls through function pointers are over-approximated.'),
 'C22': ('signature and cast queries on the AST + abstract interpretation of accessor bodies', T),
 'C24': (A + ' with SHA-256 uninterpreted', 'Bounded: chunk counts 1..20 (thorough: 64) under every limit class up to 2^41, selected counts to 2^32+1, byte lengths to 160; within these all contents. The roots of types are compared as in C15. ' + T),
 'C23': (A, 'Accept direction and stored values. List elements unrolled (3, thorough 5; bit lists to 2 bytes), field and element contents symbolic. ' + T),
 'C25': (A, 'All 64-bit n, partitioned into intervals. ' + T),
 'C27': (A + ' of offsets from the true root', 'All 64-bit x, in cells of squares, non-squares and the possible results of the correctly rounded library root. ' + T),
 'C28': (A + ' of one-line uses of each operation', 'All operand values; each template operation at two or more sizes, sequences of three elements. ' + T),
 'C26': (A, 'All values; sequences of 0..3 elements (thorough 6), bit lists of 0..24, 257 and 2048 bits (thorough also to 64). ' + T),
}
NA = {}
