#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ASMTRUST = 'Trusted: yasm and clang code generation, objdump decoding, the transfer functions in sa/x86insn.py; input and output assumed disjoint, n < 2^58. An instruction or construct without a transfer function makes that routine undecided (reported, no alarm).'
C = {
 'C01': ('abstract interpretation of machine code (value numbering + affine loop invariants)', 'Proves, without unrolling the block loop, that every digest word equals the FIPS 180-4 word for all n and all contents. ' + ASMTRUST),
 'C02': ('abstract interpretation of machine code (affine pointer domain)', 'Proves bounds, exact output coverage and alignment-freedom of every access for all n. ' + ASMTRUST),
 'C03': ('effect analysis of every store + static-storage rule', 'Every store of the kernels is resolved to frame or output; C++ hashing code has no mutable static storage. ' + ASMTRUST),
 'C04': ('abstract interpretation of machine code (frame typestate)', 'Callee-saved registers, rsp, return address and call alignment proved on every abstract path. ' + ASMTRUST),
 'C05': ('ISA-class effect analysis over the call graph + abstract interpretation of dispatch', 'All CPUID answers are partitioned exactly; instructions classified by mnemonic table sa/isa.py (trusted). One recorded known finding.'),
 'C06': ('abstract interpretation of compiled dispatch code over all CPUID answers', 'Exact partition of CPUID answers; IMPL arguments 0..31 enumerated. Trusts clang -O1 code generation of the witness unit.'),
}
NA = {
}
try:
    from sa import cxxmanifest
    C.update(cxxmanifest.CLAIMS)
    NA.update(cxxmanifest.NA)
except ImportError:
    pass
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for p in props:
    if p not in C and p not in NA:
        NA[p] = 'Check under construction.'
m = dict(version=1, setup_cmd='bash setup.sh',
  checks=[dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p, evidence_file='evidence/%s.json' % p,
    technique=C[p][0], level='other', level_note=C[p][1]) for p in props if p in C],
  not_applicable=[dict(property=p, reason=NA[p]) for p in props if p not in C],
  notes='Static analysis only; see DESIGN.md. No hooks in /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
