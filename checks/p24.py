import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vt, cruns, crout


def run(K):
    s = crout.Search(K)
    n = s.run()
    out = []
    for msg, ins, trail in s.bad.values():
        out.append(('typestate', msg[:60], '%s (path: %s)' % (msg, ' > '.join(str(x) for x in trail[-6:])), ins, ''))
    if not out:
        for (label, _), ins in sorted(s.obs.items(), key=lambda x: (x[0][0], str(x[1].loc))):
            out.append(('typestate', label, None, ins, '%s; %d abstract states of the step' % (ins.loc, n)))
    return out


def body(rep, w):
    rep.rule('typestate', 'on every path of the elimination loop: a row and column become part of the factors only after, since the last change of the '
             'position, the pivot passed the test with kappa_d and the estimates of both factors (re)computed for that position passed the tests with '
             'kappa (and, in the symmetric kernel, the pivot has the sign declared by spd), or no position was left to defer to; a deferral moves row and column and everything indexed by them; the step works on the '
             'accepted row and column with their own scalings')
    k = n = 0
    for mode, prog in cruns.programs(w, omp=False):
        for f in cruns.kernels(prog):
            k += 1
            n += cruns.each(rep, 'typestate', mode, f, run)
    rep.need('typestate', k, 6, 'kernels')


vt.main('P24', body)
