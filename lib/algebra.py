"""Runs the operator-algebra interpreter over every instantiated multilevel routine and compares with
the documented operators."""
import re
import opalg
from opalg import word, mul, add, nf, adj, one, P
from ir import Undecided
from vecalg import VecInterp, Violation, Top
from vt import VERIF
import os

SCENS = [('intermediate level', {'dense': None}), ('last level, dense solver', {'dense': 'qr'}),
         ('last level, symmetric eigen-solver', {'dense': 'sy'}), ('last level without Schur complement', {'dense': None, 'h': 0}),
         ('last level with empty leading block', {'dense': 'qr', 'm': 0})]


def chain(*ws):
    r = one()
    for w in ws:
        r = mul(r, w if isinstance(w, dict) else word(w))
    return r


def spec_solve(scen):
    """T P' [ B^-1 ... ] P S with B=(I+L)D(I+U)"""
    lo = scen.get('m') != 0
    hi = scen.get('h') != 0
    st = 'S' if scen.get('dense') == 'sy' else 'N'
    pre = chain(('G', 'p'), ('D', 's', 1))
    post = chain(('D', 't', 1), ('G', 'q_inv'))
    B = chain(('Ui', 'N'), ('Db', -1, 0), ('Li', 'N')) if lo else {}
    Sx = word(('S', -1, st)) if hi else {}
    E, F = word(('E', 'N')), word(('F', 'N'))
    core = dict(B)
    if hi:
        z = Sx
        if lo:
            z = add(z, mul(mul(Sx, E), B), -1)
        core = add(core, z)
        if lo:
            core = add(core, mul(mul(B, F), z), -1)
    return nf(mul(mul(post, core), pre))


def spec_prod(scen):
    lo = scen.get('m') != 0
    hi = scen.get('h') != 0
    st = 'S' if scen.get('dense') == 'sy' else 'N'
    pre = chain(('G', 'q'), ('D', 't', -1))
    post = chain(('D', 's', -1), ('G', 'p_inv'))
    core = {}
    if lo:
        Bf = mul(mul(add(P, word(('L', 'N'))), word(('Db', 1, 0))), add(P, word(('U', 'N'))))
        core = add(core, Bf)
    if hi:
        core = add(core, word(('S', 1, st)))
    if lo and hi:
        B = chain(('Ui', 'N'), ('Db', -1, 0), ('Li', 'N'))
        core = add(core, word(('E', 'N')))
        core = add(core, word(('F', 'N')))
        core = add(core, mul(mul(word(('E', 'N')), B), word(('F', 'N'))))
    return nf(mul(mul(post, core), pre))


def madj(p):
    """adjoint, the symmetric eigen-solver being its own adjoint"""
    return nf(adj(p))


def realp(p):
    """over the reals conjugation is the identity"""
    r = {}
    for w, c in p.items():
        w = tuple(('Db', a[1], 0) if a[0] == 'Db' else a for a in w)
        r[w] = r.get(w, 0) + c
    return {w: c for w, c in r.items() if c}


SPEC = {'prec_solve': spec_solve, 'prec_solve_mrhs': spec_solve, 'prec_prod': spec_prod,
        'prec_solve_tran': lambda s: madj(spec_solve(s)), 'prec_prod_tran': lambda s: madj(spec_prod(s))}


def self_test():
    """the two documented operators are inverse to each other (checks the rewrite system itself)"""
    n = 0
    for nm, sc in SCENS:
        a, b = spec_solve(sc), spec_prod(sc)
        I = opalg.one()
        unit = I
        if sc.get('m') == 0:
            unit = nf(mul(mul(word(('D', 's', 1)), opalg.PHI), word(('D', 's', -1)))) if False else None
        x, y = nf(mul(a, b)), nf(mul(b, a))
        if sc.get('m') == 0:
            # only the trailing block exists: P = 0
            x, y = drop_P(x), drop_P(y)
        if sc.get('h') == 0:
            x, y = set_P(x), set_P(y)
        if x != I or y != I:
            raise RuntimeError('operator algebra self test failed in scenario %s: %s' % (nm, opalg.pstr(x)))
        n += 2
    return n


def drop_P(p):
    return nf({w: c for w, c in p.items() if ('P',) not in w})


def set_P(p):
    r = {}
    for w, c in p.items():
        w = tuple(a for a in w if a != ('P',))
        r[w] = r.get(w, 0) + c
    return nf({w: c for w, c in r.items() if c})


SIZES = {'double': 8, 'float': 4, 'std::complex<double>': 16, 'std::complex<float>': 8}


def load(w):
    bc = w.lower('tus/alg.cpp')
    return w.dump(bc, open(os.path.join(VERIF, 'cfg', 'alg.cfg')).read())


def params(f):
    m = re.search(r'hif::Prec<(std::complex<\w+>|\w+), (\w+),', f.dem)
    mr = 'mrhs' in f.dem.split('<')[0]
    k = re.search(r'\(.*?hif::Array<(?:std::array<)?(std::complex<\w+>|\w+)', f.dem)
    if not (m and k):
        raise Undecided('cannot read the instantiation from ' + f.dem[:100])
    v, i, x = m.group(1), m.group(2), k.group(1)
    cx = 'complex' in x
    return dict(complex_=cx, esz=SIZES[x], csz=SIZES[v], ssz=SIZES[v] // (2 if 'complex' in v else 1),
                cols=3 if mr else 1), '%s/%s/%s' % (v, x, i)


def run_all(prog, names):
    """yields (function, instantiation, scenario name, scenario, outcome); outcome: ('poly',p,st)|('viol',..)|('und',..)"""
    for f in prog.functions:
        nm = re.sub(r'^void hif::', '', f.dem).split('<')[0]
        if nm not in names:
            continue
        try:
            pr, inst = params(f)
        except Undecided as e:
            yield nm, f.dem[:60], '', {}, False, ('und', str(e))
            continue
        for sn, sc in SCENS:
            kw = dict(pr)
            cols = kw.pop('cols')
            try:
                v = VecInterp(f, cols, sc, **kw)
                r, st = v.result()
                if isinstance(r, Top):
                    out = ('viol', 'the result uses %s' % r.why, '%s' % nm) if r.definite else ('und', r.why)
                else:
                    out = ('poly', r, v)
            except Violation as e:
                out = ('viol', e.msg, e.loc)
            except Undecided as e:
                out = ('und', str(e))
            except RecursionError as e:
                out = ('und', 'recursion limit')
            except Exception as e:
                out = ('und', 'internal: %s %s' % (type(e).__name__, e))
            yield nm, inst, sn, sc, kw['complex_'], out


def compare(rep, rule, prog, names):
    n = 0
    stats = {'loops': 0, 'calls': 0, 'stores': 0}
    for nm, inst, sn, sc, cx, out in run_all(prog, names):
        what = '%s [%s], %s' % (nm, inst, sn)
        n += 1
        if out[0] == 'und':
            rep.und(rule, what, out[1])
            continue
        if out[0] == 'viol':
            rep.bad(rule, what, out[1], out[2])
            continue
        p = out[1]
        for k in stats:
            stats[k] += out[2].stats[k]
        want = SPEC[nm](sc)
        if not cx:
            p, want = realp(p), realp(want)
        if p == want:
            rep.ok(rule, what, opalg.pstr(p))
        else:
            extra = opalg.pstr({k: c for k, c in p.items() if want.get(k) != c})
            miss = opalg.pstr({k: c for k, c in want.items() if p.get(k) != c})
            rep.bad(rule, what, 'applies %s where the documented operator has %s' % (extra, miss), nm)
    for k, v in stats.items():
        rep.extra['interpreted_' + k] = rep.extra.get('interpreted_' + k, 0) + v
    return n


def unit_in(p, sc):
    if sc.get('m') == 0:
        p = drop_P(p)
    if sc.get('h') == 0:
        p = set_P(p)
    return p


def pairs(rep, rule, prog, prs, kind):
    """compares two interpreted routines with each other"""
    got = {}
    for nm, inst, sn, sc, cx, out in run_all(prog, {x for pr in prs for x in pr}):
        got[(nm, inst, sn)] = (sc, cx, out)
    for a, b in prs:
        for (nm, inst, sn), (sc, cx, out) in sorted(got.items(), key=lambda t: t[0]):
            if nm != a or (b, inst, sn) not in got:
                continue
            what = '%s/%s [%s], %s' % (a, b, inst, sn)
            o2 = got[(b, inst, sn)][2]
            if out[0] != 'poly' or o2[0] != 'poly':
                rep.und(rule, what, 'one side has no operator: %s' % (out[1] if out[0] != 'poly' else o2[1]))
                continue
            x, y = out[1], o2[1]
            if kind == 'adj':
                z = madj(x)
                if not cx:
                    z, y = realp(z), realp(y)
                if z == y:
                    rep.ok(rule, what)
                else:
                    d = opalg.add(z, y, -1)
                    rep.bad(rule, what, 'not adjoint; the difference of the operators is %s' % opalg.pstr(d), b)
            else:
                if not cx:
                    x, y = realp(x), realp(y)
                r1, r2 = unit_in(nf(mul(x, y)), sc), unit_in(nf(mul(y, x)), sc)
                if r1 == one() and r2 == one():
                    rep.ok(rule, what)
                else:
                    rep.bad(rule, what, 'the composition rewrites to %s / %s instead of the identity' % (opalg.pstr(r1)[:300], opalg.pstr(r2)[:300]), b)
