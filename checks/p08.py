import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, entry, refine


def body(rep, w):
    rep.rule('iterate', 'after k solves x is the k-th iterate of x + M^-1 (b - A x) with the requested transposition and rank; exactly N solves, or an early exit with the residual of that x on the right side of the bound its flag stands for; the count returned is the number of solves')
    rep.rule('single', 'up to one iteration: x = M^-1 b (bounded: count 1, flag -1)')
    rep.rule('zero', 'bounded: a zero right-hand side gives x = 0, count 0, flag 0')
    bc = w.lower('tus/refine.cpp')
    p = w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'refine.cfg')).read())
    n = 0
    for f in p.find('^Refine<'):
        n += refine.analyse(rep, f, p)
    rep.need('iterate', n, 20, 'obligations')
    entry.dispatch_rules(rep, w, {k for k in entry.ROUTE if k.startswith('hifir')}, (0, 1))


vt.main('P08', body)
