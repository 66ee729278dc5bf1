import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, dense


def body(rep, w):
    rep.rule('dense-solve', 'the composition of factor applications, permutations and truncations on every path of a dense solver '
             'entry is the one its factorization calls for, for each transposition and rank scenario')
    bc = w.lower('tus/dense.cpp')
    prog = w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'dense.cfg')).read())
    n = dense.check(rep, 'dense-solve', prog)
    rep.rule('dense-factor', 'the factorization is computed from the matrix handed over, into the arrays the solves read, with columns free to pivot and the eigenvalues of least magnitude truncated')
    dense.check_factor(rep, 'dense-factor', prog)
    rep.need('dense-solve', n, 16, 'solver entries')


vt.main('P06', body)
