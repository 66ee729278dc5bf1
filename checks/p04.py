import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, algebra, entry, kerncheck


def body(rep, w):
    rep.rule('mrhs-operator', 'prec_solve_mrhs applies to every column the operator prec_solve applies')
    rep.rule('mrhs-kernel', 'the multi-vector kernels compute the same per-column sums as their specification')
    prog = algebra.load(w)
    entry.dispatch_rules(rep, w, {'solve_mrhs'}, (0,), True)
    n = algebra.compare(rep, 'mrhs-operator', prog, {'prec_solve_mrhs'})
    rep.need('mrhs-operator', n, 5, 'routine/scenario pairs')
    bc = w.lower('tus/kern.cpp')
    kp = w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'kern.cfg')).read())
    n = kerncheck.run(rep, 'mrhs-kernel', kp, lambda p: 'mrhs' in p['fn'])
    rep.need('mrhs-kernel', n, 4, 'multi-vector kernels')


vt.main('P04', body)
