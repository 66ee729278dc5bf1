import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vt, cruns, crout


def rule(label):
    if 'deferred entries' in label:
        return 'deferred'
    if 'inverse' in label and 'current' in label:
        return 'stale'
    if 'without a Schur' in label:
        return 'trivial'
    if ' uses ' in label or 'off-diagonal block' in label:
        return 'use'
    return 'record'


def body(rep, w):
    rep.rule('record', 'each argument of the call that records a level is the object that plays that role in the kernel, and the constructor of the '
             'level stores each argument in the member of that role')
    rep.rule('stale', 'typestate over every path to the record: after the last change of a permutation its inverse was rebuilt')
    rep.rule('deferred', 'on every path to the record, after the elimination the deferred entries of each permutation were returned to it from its own list')
    rep.rule('trivial', 'on every path without a Schur complement the permutations are identities and the scalings are one')
    rep.rule('use', 'the off-diagonal blocks and the Schur complement are formed with the recorded scalings, permutations, diagonal and leading size')
    k = c = 0
    for mode, prog in cruns.programs(w):
        for f in cruns.kernels(prog):
            k += 1
            cruns.each(rep, 'record', mode, f, lambda K: [(rule(l), l, m, i, '') for l, m, i in crout.roles(K)])
        for f in prog.functions:
            if mode == 'serial' and re.search(r'::Prec\(', f.dem):
                c += crout.record_ctor(rep, f)
    rep.need('record', k, 12, 'kernels')
    rep.need('record', c, 13, 'members of a level')


vt.main('P11', body)
