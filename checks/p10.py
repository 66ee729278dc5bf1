import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vt, cruns, crout


def rule(label):
    if 'compared' in label:
        return 'compare'
    if 'off-diagonal' in label or 'next level' in label:
        return 'offdiag'
    if 'before it is stored' in label:
        return 'applied'
    return 'drop'


def body(rep, w):
    rep.rule('drop', 'the tolerance, the estimate and the limit that reach the dropping of the vector stored in L originate from tau_L, the '
             'estimate of L, alpha_L and the column sizes through q (row sizes through p in the symmetric kernel); of U from tau_U, the '
             'estimate of U, alpha_U and the row sizes through p; both are scaled by kappa_d')
    rep.rule('applied', 'no path from the head of the elimination loop stores a vector in a factor without both droppings of that vector')
    rep.rule('compare', 'condition estimates are compared with kappa only, pivots with kappa_d only')
    rep.rule('offdiag', 'the off-diagonal blocks are limited by alpha and sizes of their own side, and the sizes of the next level are those of '
             'the same side through the same permutation')
    n = 0
    k = 0
    for mode, prog in cruns.programs(w):
        for f in cruns.kernels(prog):
            k += 1
            n += cruns.each(rep, 'drop', mode, f, lambda K: [(rule(l), l, m, i, '') for l, m, i in crout.flow(K)])
    rep.need('drop', k, 12, 'kernels')


vt.main('P10', body)
