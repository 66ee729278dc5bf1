import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, entry, history


def body(rep, w):
    rep.rule('levels', 'when the object holds levels, every path of factorize removes them before it builds new ones')
    rep.rule('workspace', 'when the object holds levels, factorize empties the solve workspace, or every operation that uses it enlarges it when it is too small')
    rep.rule('statistics', 'all statistics entries are zeroed before the levels are built')
    rep.rule('dimensions', 'the stored dimensions are those of the matrix given')
    rep.rule('clear', 'clear removes the levels, the workspace and the null-space filters')
    rep.rule('empty', 'empty() reports whether there are levels')
    rep.rule('failure', 'an exception that leaves the factorization passes the removal of the levels built so far')
    bc = w.lower('tus/entry.cpp')
    cfg = os.path.join(vt.VERIF, 'cfg')
    fs = entry.load(w.dump(bc, open(os.path.join(cfg, 'entry.cfg')).read()))
    n = c = 0
    for f in fs:
        m = entry.member(f)
        if m.startswith('factorize'):
            n += history.factorize_rules(rep, f, [g for g in fs if entry.tname(g) == entry.tname(f) and entry.member(g) in ('solve', 'mmultiply', 'solve_mrhs')])
        elif m == 'clear':
            c += history.clear_rules(rep, f, [g for g in fs if entry.tname(g) == entry.tname(f) and entry.member(g) in ('solve', 'mmultiply', 'solve_mrhs')])
        elif m == 'empty':
            history.empty_rule(rep, f)
    rep.need('levels', n, 4, 'factorization calls')
    rep.need('clear', c, 2, 'clear routines')
    k = 0
    for f in entry.load(w.dump(bc, open(os.path.join(cfg, 'entry_eh.cfg')).read())):
        if entry.member(f).startswith('factorize'):
            k += history.failure_rule(rep, f)
    rep.need('failure', k, 4, 'factorization calls')


vt.main('P12', body)
