import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, entry


def body(rep, w):
    rep.rule('reject', 'a call on an empty preconditioner, or with vectors that differ from each other or from the factorized matrix in length, ends in an error before any workspace, output or level is touched')
    rep.rule('workspace', 'before the level recursion starts the workspace has (number of columns) x (sum of the level sizes) entries')
    rep.rule('allocation', 'a failed workspace allocation leads to an error before the workspace is used')
    bc = w.lower('tus/entry.cpp')
    p = w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'entry.cfg')).read())
    n = 0
    for f in entry.load(p):
        m = entry.member(f)
        if m in entry.ROUTE:
            n += entry.rejects(rep, 'reject', f)
        if m in ('solve', 'mmultiply', 'solve_mrhs'):
            entry.workspace(rep, 'workspace', 'allocation', f)
    rep.need('reject', n, 20, 'operation/scenario pairs')


vt.main('P22', body)
