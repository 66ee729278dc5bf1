import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, algebra, entry


def body(rep, w):
    rep.rule('solve-operator', 'abstract interpretation of prec_solve in the operator algebra yields the documented operator')
    rep.extra['algebra_self_test_identities'] = algebra.self_test()
    prog = algebra.load(w)
    entry.dispatch_rules(rep, w, {'solve'}, (0,), True)
    n = algebra.compare(rep, 'solve-operator', prog, {'prec_solve'})
    rep.need('solve-operator', n, 5, 'routine/scenario pairs')


vt.main('P01', body)
