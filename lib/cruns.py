"""Common driver of the checks of the factorization kernels."""
import os
import re
import vt
import crout
from ir import Undecided

KR = re.compile(r'^hif::C[RC]S<[a-z:<>]*, int, long> hif::[a-z_]*level_factorize<')


def programs(w, omp=True):
    cfg = open(os.path.join(vt.VERIF, 'cfg', 'crout.cfg')).read()
    out = [('serial', w.dump(w.lower('tus/crout.cpp', []), cfg))]
    if omp:
        out.append(('threaded', w.dump(w.lower('tus/crout.cpp', ['-fopenmp', '-I', os.path.join(vt.VERIF, 'tus', 'omp')]), cfg)))
    return out


def kernels(prog):
    return [f for f in prog.functions if KR.match(f.dem)]


def what(f, mode):
    m = re.match(r'^hif::(C[RC]S<.*?, int, long>) ', f.dem)
    n = re.search(r'hif::(\w*level_factorize(<(?:true|false))?)', f.dem)
    return '%s%s on %s, %s' % (n.group(1), '>' if n.group(2) else '', m.group(1), mode)


def each(rep, rule, mode, f, fn):
    """run fn(K) -> [(rule, label, problem, ins, detail)], recording obligations"""
    w = what(f, mode)
    try:
        res = fn(crout.K(f))
    except crout.Bad as e:
        rep.bad(rule, w, str(e), e.ins.loc if e.ins is not None else f.dem)
        return 0
    except Undecided as e:
        rep.und(rule, w, e)
        return 0
    n = 0
    for r, label, msg, ins, det in res:
        n += 1
        if msg:
            rep.bad(r, '%s: %s' % (w, label), msg, ins.loc if ins is not None else f.dem)
        else:
            rep.ok(r, '%s: %s' % (w, label), det or (str(ins.loc) if ins is not None else ''))
    return n
