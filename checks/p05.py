import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, kerncheck


def body(rep, w):
    rep.rule('sparse-kernel', 'the loop-nest summary of each CRS/CCS kernel equals the product or substitution it is named for')
    bc = w.lower('tus/kern.cpp')
    prog = w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'kern.cfg')).read())
    n = kerncheck.run(rep, 'sparse-kernel', prog)
    rep.need('sparse-kernel', n, 8, 'kernels')


vt.main('P05', body)
