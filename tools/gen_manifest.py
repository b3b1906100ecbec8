#!/usr/bin/env python3
"""MANIFEST.json from the registered checks."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/checks']
import registry
registry.load()
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]

TECH = {}
GVN = 'abstract interpretation to gated value graphs, compared with a specification by normal form'
NOTE = ('Sound for all inputs where the obligation is discharged (see evidence). Trusts the extractor, the models of the standard library '
        'and the normal form rules; integers are mathematical with explicit wrap-around, floating point operations are uninterpreted '
        'beyond IEEE identities that always hold. Undecided obligations (none on the unchanged tree unless listed in the evidence) do not raise an alarm.')
T = {
    'C04': 'abstract interpretation: stream-state typestate at every normal exit',
    'C05': 'abstract interpretation: stream-state typestate at every normal exit',
    'C10': GVN + '; effect analysis of exceptional exits',
    'C11': GVN + '; dependence sets of hashes',
    'C07': GVN + ' (zlib steps uninterpreted, loops as fixpoints); ownership rule over zlib stream objects',
    'C16': GVN + ' of option parsing per option name; table rule comparing option table, short option string and manual page',
    'C26': GVN + '; table rule over the types each printer distinguishes',
    'C20': GVN + ' of everything a program prints; effect query over all functions for writes to standard output',
    'C28': 'effect queries over the syntax trees of all functions: nondeterminism sources, addresses as values, generator seeding, hash table iteration order',
    'C21': 'interprocedural access-path race analysis of every OpenMP region: sharing attributes, loop-index disjointness, section disjointness, reductions, exceptions leaving a region',
    'C27': 'compile-fail witnesses (every header compiled alone, twice and in any pair of files) and a linkage rule over all declarations',
    'C30': GVN + ' of the Release and Debug programs; dominance of index uses by bound tests',
    'C36': 'abstract interpretation over linear forms: affine loop invariants by null space, Fourier-Motzkin entailment, ranking measures; one run per number of extra fields',
    'C34': 'table rule over the binding code and package exports, type-checked against the real headers; ' + GVN + ' for the bound functions',
    'C29': 'purity analysis of contract conditions, transitively; structural comparison of the Debug and Release programs',
}
NA = {
    'C50': 'Bounds the rounding error of floating point scaling and its inverse: a quantitative statement about runtime values that no sound static argument in reach bounds.',
    'C51': 'Completeness of the neighbour search depends on rounding of coordinate divided by voxel size against the compared distances: quantifies over floating point runtime values.',
    'C52': 'A statement about probability distributions of generated values, not about the program text; static analysis can only show which generator and parameters are used (C15, C28, C33).',
    'C53': 'Lies in the zlib library, whose source is not part of this repository; the driving of zlib is C07.',
    'C54': 'Memory and time bounds of whole runs depend on allocator and container growth; no sound static bound is in reach here.',
}
checks, na = [], []
for p in ids:
    if p in registry.CHECKS:
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                           technique=T.get(p, GVN), level='other', level_note=NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'No check for it has been built yet.')))
m = dict(version=1, setup_cmd='bash tool/build.sh', checks=checks, not_applicable=na,
         notes='All checks are static: they parse /repo with clang on every run and never execute it. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', [x['property'] for x in na])
