#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl (every property is either claimed or not applicable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Decided from the compiled form of the current sources without running them. Assumes clang-18 front end and IR semantics, '
        'exact (real/complex) arithmetic for algebraic identities, and the preconditions named in DESIGN.md; obligations the '
        'analysis cannot decide are listed as undecided in the evidence, not reported.')
CLAIM = {
    'P01': 'abstract interpretation of prec_solve over an operator algebra (LLVM IR), compared with the specified operator; loop-nest summaries of the kernels it calls',
    'P02': 'abstract interpretation of the transposed routines over an operator algebra; adjoint identity checked by rewriting; kernel summaries for conjugation',
    'P03': 'abstract interpretation of the product routines over an operator algebra; inverse identity by rewriting',
    'P04': 'abstract interpretation of prec_solve_mrhs over an operator algebra, compared column-wise with the single-vector operator; loop-nest summaries of the multi-vector kernels',
    'P05': 'loop-nest summarisation of the CRS/CCS kernels (affine index analysis over LLVM IR, exact polynomials) against the mathematical specification',
    'P06': 'abstract interpretation of the dense solvers: LAPACK call composition and gather/scatter summaries per rank/transposition scenario, compared with the specified composition',
    'P07': 'argument-flow analysis of every member of the LAPACK facade down to the Fortran call (LLVM IR, reaching stores through the argument slots), compared with the routine\'s signature',
    'P08': 'abstract interpretation of iter_refine over linear expressions in b, the iterate, A and M^-1 (unrolled prefix and inductive loop invariant); argument flow of HIF::hifir',
    'P10': 'backward value-origin slices of thresholds, limits and sizes in the lowered kernels, dominance of the dropping calls, serial and threaded variants',
    'P11': 'argument-role analysis of the call that records a level, of the blocks and Schur complement, and of the constructor; forward typestate of the inverses over all paths',
    'P12': 'path-sensitive must-happen-before analysis of HIF::factorize and clear (specialised control-flow graph: levels present), exceptional edges included',
    'P16': 'path-sensitive ownership typestate analysis of every method of hif::Array (abstract heap of headers, counters and buffers) over all ownership states, exceptional edges included',
    'P13': 'information-flow analysis of the verbosity setting (control dependence regions and data dependence over the lowered factorization, preprocessing and dense solvers), interprocedural in the parameters',
    'P15': 'abstract evaluation of the index ranges of the outlined parallel regions (partition identities over quotient, remainder, team and thread), per-thread reachability, and sharing and barrier dataflow',
    'P24': 'path-sensitive typestate of one elimination step (position, tests passed, entries moved) explored to a fixed point over the control-flow graph of each kernel',
    'P25': 'abstract evaluation of every floating-point store of the step kernels to a polynomial over array elements with canonical index terms, compared with the elimination formula; dataflow of list links, loop ranges and path conditions',
    'P26': 'dataflow over the lowered dropping routines: canonical terms of selection ranges, limits, removal counts and copies, comparison functions and deletion guards, compared with the specified limit and order; serial and outlined threaded versions',
    'P27': 'conditional constant propagation of the validating functions per defect class: facts about the header, a generic row and a generic entry must leave no completing path, loop coverage from trip counts; per class of valid matrix no path may be cut off',
    'P14': 'queries over the type-checked syntax tree, templates and instantiations: uses of every object of static storage duration classified as read or modification, origins of the initialisers of function-local constants, references to sources of non-determinism',
    'P23': 'type-level encoding: witness programs that instantiate every template member for every supported combination are type-checked (not run) in each configuration; coverage of the declared functions read from the syntax tree',
    'P17': 'path-sensitive typestate and value-origin analysis of the matrix-market readers (scan results, stream state, sizes, stored elements) and of the text the writers produce, all exits included',
    'P18': 'interprocedural exception-effect analysis over the call graph of the C library (types thrown, landing-pad clauses, noexcept), and of the values flowing out of each handler',
    'P19': 'conditional constant propagation per null scenario through every exported function: reachable accesses, core calls, outputs and returned value',
    'P20': 'conditional constant propagation per scenario (family, operation, counts, rank, bounds, storage) through every exported function: core call, arguments, stores and status compared with one specification',
    'P21': 'table extraction (debug info, constant tables, syntax tree) and per-position conditional constant propagation through the setters, readers and C parameter routines',
    'P22': 'abstract interpretation of the entry functions per object/size scenario (guard dominance over every effect), symbolic sizes of the workspace allocation',
}
NA = {
    'P30': 'numerical quality of the factorization depends on run-time values of the matrix; no sound static argument in reach bounds it',
    'P31': 'linear complexity is a bound on run-time fill and iteration counts that depend on matrix values; not decidable from the source',
    'P32': 'rank-revealing quality depends on pivoted-QR and condition estimates of run-time matrices; not decidable from the source',
}
exec(open(os.path.join(V, 'tool', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tool', 'claims.py')) else None
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in CLAIM:
        cmd = 'python3 checks/%s.py' % i.lower()
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': CLAIM[i], 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not claimed yet: the analysis for this property is not finished')})
m = {'version': 1, 'setup_cmd': "python3 -c \"import sys; sys.path.insert(0,'lib'); import vt, astq; print(vt.ensure_tool(), astq.ensure())\"",
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo. Every check lowers the current sources itself; nothing is cached between runs except the analyser binary.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
