import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, algebra, entry


def body(rep, w):
    rep.rule('adjoint-operator', 'the operator of the transposed routine is the exact adjoint (reversed words, conjugated factors, inverse permutations) of the documented plain operator')
    rep.rule('adjoint-pair', 'the interpreted transposed routine equals the adjoint of the interpreted plain routine of the same instantiation and scenario')
    rep.extra['algebra_self_test_identities'] = algebra.self_test()
    prog = algebra.load(w)
    entry.dispatch_rules(rep, w, {'solve', 'mmultiply'}, (1,), True)
    n = algebra.compare(rep, 'adjoint-operator', prog, {'prec_solve_tran', 'prec_prod_tran'})
    rep.need('adjoint-operator', n, 5, 'routine/scenario pairs')
    algebra.pairs(rep, 'adjoint-pair', prog, [('prec_solve', 'prec_solve_tran'), ('prec_prod', 'prec_prod_tran')], 'adj')


vt.main('P02', body)
