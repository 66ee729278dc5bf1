import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, algebra, entry


def body(rep, w):
    rep.rule('product-operator', 'abstract interpretation of prec_prod and prec_prod_tran yields the documented block product')
    rep.rule('inverse-pair', 'the interpreted product composed with the interpreted solve rewrites to the identity, in both orders')
    rep.extra['algebra_self_test_identities'] = algebra.self_test()
    prog = algebra.load(w)
    entry.dispatch_rules(rep, w, {'mmultiply'}, (0, 1))
    n = algebra.compare(rep, 'product-operator', prog, {'prec_prod', 'prec_prod_tran'})
    rep.need('product-operator', n, 5, 'routine/scenario pairs')
    algebra.pairs(rep, 'inverse-pair', prog, [('prec_solve', 'prec_prod'), ('prec_solve_tran', 'prec_prod_tran')], 'inv')


vt.main('P03', body)
