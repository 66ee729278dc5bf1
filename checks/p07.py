import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re
import vt, events
from ir import Lin, Undecided
from spec import SFunc
from kernel import Kernel

LET = {'double': 'd', 'float': 's', 'std::complex<double>': 'z', 'std::complex<float>': 'c'}

# member -> (routine, Fortran arguments as entry parameters / constants / I = info slot)
D = {
    'getrf': ('getrf', 'n n a lda ipiv I'),
    'getrs': ('getrs', 'tran n nrhs a lda ipiv b ldb I'),
    'geqp3': ('geqp3', 'm n a lda jpvt tau work lwork R:rwork I'),
    'ormqr': ('ormqr', 'side trans m n k a lda tau c ldc work lwork I'),
    'laic1': ('laic1', 'job j x 7.0 w 5.0 sestpr s c'),
    'syev': ('syev', "'V uplo n a lda w work lwork R:rwork I"),
    'trsv': ('trsv', 'uplo trans diag n a lda x incx'),
    'trmv': ('trmv', 'uplo trans diag n a lda x incx'),
    'gemv': ('gemv', 'trans m n 2.0 a lda x =1 3.0 y =1'),
    'm_getrf': ('getrf', 'a.nr a.nr a.d a.nr ipiv.d I'),
    'm_getrs': ('getrs', 'tran a.nr =1 a.d a.nr ipiv.d b.d b.sz I'),
    'm_getrs_m': ('getrs', 'tran a.nr b.nc a.d a.nr ipiv.d b.d b.nr I'),
    'm_geqp3': ('geqp3', 'a.nr a.nc a.d a.nr jpvt.d tau.d * * R:* I'),
    'm_syev': ('syev', "'V uplo a.nr a.d a.nr w.d work lwork R:rwork.d I"),
    'm_trsv': ('trsv', 'uplo trans diag a.nr a.d a.nr x.d =1'),
    'm_trmv': ('trmv', 'uplo trans diag a.nr a.d a.nr x.d =1'),
    'm_gemv': ('gemv', 'trans a.nr a.nc 2.0 a.d a.nr x.d =1 3.0 y.d =1'),
    'trcon': ('trcon', 'norm uplo diag n a lda rcond work iwork I'),
    'm_trcon': ('trcon', 'norm uplo diag a.nc a.d a.nr rcond H:3*a.nc H:a.nc I'),
    'm_trcon_r': ('trcon', 'norm uplo diag rank a.d a.nr rcond H:3*a.nc H:a.nc I'),
}
BUF = {('getrf', 'ipiv'): (0, 1), ('getrs', 'ipiv'): (1, 0), ('geqp3', 'jpvt'): (1, 1)}   # (copied in, copied out)
SQUARE = {'m_getrf', 'm_getrs', 'm_getrs_m', 'm_trsv', 'm_trmv', 'm_syev'}
SIZES = {'m_getrs': {'b._size': 'a._nrows'}, 'm_getrs_m': {'b._nrows': 'a._nrows'}}


def params(f):
    return [(x.get('var') or x.get('name')) for x in f.args]


def fld(sf, base, leaf):
    """atom of the header field `leaf` of parameter base"""
    return '%s.%s' % (base, {'nr': '_nrows', 'nc': '_ncols', 'sz': '_size'}[leaf])


def named(sf, l):
    d = sf.named(l)
    return None if d is None else ({k: v for k, v in d.items() if v}, l.c)


def equiv(sf, member, a, b):
    """equal under the precondition the member asserts (square input, matching sizes)"""
    if a == b:
        return True
    if a is None or b is None:
        return False
    m = dict(SIZES.get(member, {}))
    if member in SQUARE:
        m['a._ncols'] = 'a._nrows'

    def nrm(x):
        r = {}
        for k, v in x[0].items():
            k = m.get(k, k)
            r[k] = r.get(k, 0) + v
        return {k: v for k, v in r.items() if v}, x[1]
    return nrm(a) == nrm(b)


def expected_int(want, prm):
    if want.startswith("'"):
        return ({}, ord(want[1]))
    if want.startswith('='):
        return ({}, int(want[1:]))
    m = re.match(r'(?:(\d+)\*)?(\w+)(?:\.(nr|nc|sz))?$', want)
    k = int(m.group(1) or 1)
    n = m.group(2)
    if m.group(3):
        n = fld(None, n, m.group(3))
    return ({n: k}, 0)


def heap_size(sf, root, esz):
    i = sf.ins[root[1]]
    try:
        l = sf.lin(i.ops[0])
    except Undecided:
        return None
    if any(v % esz for v in l.t.values()) or l.c % esz:
        return None
    r = Lin(l.c // esz)
    for a, k in l.t.items():
        r = r + Lin.atom(a).scale(k // esz)
    return r


def check_member(rep, f, T, I):
    member = re.search(r'::(\w+)\(', f.dem).group(1)
    if member not in D:
        return 0
    routine, spec = D[member]
    cplx = LET[T] in 'zc'
    prm = params(f)
    ptrs = {p for p, a in zip(prm, f.args) if a.get('ty') == 'ptr'}
    rn = routine
    if cplx:
        rn = {'ormqr': 'unmqr', 'syev': 'heev'}.get(routine, routine)
    spec = [w for w in spec.split() if cplx or not w.startswith('R:')]
    spec = [w[2:] if w.startswith('R:') else w for w in spec]
    scen = [({}, [])]
    if routine == 'ormqr':
        scen = [({'trans': ord(t), 'side': ord(x)}, []) for t in 'TNC' for x in 'LR']
    elif member == 'geqp3':
        scen = [({'lwork': -1}, []), ({}, [({'lwork': 1}, 1, float('inf'))])]
    n = 0
    for env, facts in scen:
        sc = ','.join('%s=%s' % (k, v if k == 'lwork' else chr(v)) for k, v in env.items())
        what = '%s<%s,%s>%s' % (member, T, I, ' ' + sc if sc else '')
        n += 1
        sf = SFunc(f, env, facts)
        cs = events.calls(sf, getattr(f.prog, 'globals', {}) if hasattr(f, 'prog') else {}, lambda x: re.match(r'[sdcz][a-z]\w+_$', x))
        want = LET[T] + rn + '_'
        wrong = [c for c in cs if c.name != want]
        loc = f.loc(cs[0].ins) if cs and hasattr(f, 'loc') else f.dem[:80]
        if wrong:
            rep.bad('routine', what, 'calls %s, the routine of this name and precision is %s' % (wrong[0].name, want), loc)
            continue
        exp = 2 if member == 'm_geqp3' else 1
        if len(cs) != exp:
            (rep.bad if not cs else rep.und)('routine', what, '%d call(s) of %s' % (len(cs), want))
            continue
        rep.ok('routine', what, want)
        bad = und = None
        for c in cs:
            if len(c.args) != len(spec):
                bad = '%s takes %d arguments here, %d expected' % (c.name, len(c.args), len(spec))
                break
            for k, (w, a) in enumerate(zip(spec, c.args)):
                p = 'argument %d of %s' % (k + 1, c.name)
                if w == '*':
                    continue
                if w == 'I':
                    if a.kind != 'slot' and a.kind not in ('int',):
                        bad = '%s: info goes to %r' % (p, a)
                    continue
                if w.startswith('H:'):
                    if a.kind != 'mem' or a.v[0] != 'call' or a.off != Lin(0):
                        und = '%s: %r' % (p, a)
                        continue
                    esz = 4 if k == len(spec) - 2 else {'d': 8, 's': 4, 'z': 16, 'c': 8}[LET[T]]
                    hs = heap_size(sf, a.v, esz)
                    hn = named(sf, hs) if hs is not None else None
                    need = expected_int(w[2:], prm)
                    if hn is None:
                        und = '%s: workspace size' % p
                    elif hn[0].keys() == need[0].keys() and any(hn[0][q] < need[0][q] for q in need[0]):
                        bad = '%s: workspace of %s elements, %s needed' % (p, hn, need)
                    elif hn[0].keys() != need[0].keys():
                        und = '%s: workspace of %s' % (p, hn)
                    continue
                if re.match(r'\d+\.\d$', w):
                    if a.kind != 'fp':
                        und = '%s: %r' % (p, a)
                    elif a.v != (float(w), 0.0):
                        bad = '%s is %r instead of the scalar passed in that position' % (p, a)
                    continue
                if w in ptrs or w.endswith('.d'):
                    nm = {'&' + w, w} if w in ptrs else {w[:-2] + '._data._data', w[:-2] + '._data'}
                    if a.kind == 'mem' and a.name in nm and a.off == Lin(0):
                        continue
                    q = w[:-2] if w.endswith('.d') else w
                    if env.get('lwork') == -1 and q == 'jpvt' and a.kind == 'null':
                        continue
                    if a.kind == 'mem' and a.v[0] == 'call' and I == 'long' and (routine, q) in BUF:
                        u = check_buffer(sf, what, a.v, q, BUF[routine, q], routine, rep)
                        und = und or u
                        continue
                    if member == 'm_geqp3' and a.kind == 'null' and c is cs[0] and q == 'jpvt':
                        continue
                    if a.kind == 'mem':
                        bad = '%s is %r instead of %s' % (p, a, w)
                    else:
                        und = '%s: %r' % (p, a)
                    continue
                if a.kind != 'int':
                    und = '%s: %r' % (p, a)
                    continue
                need = expected_int(w, prm)
                if w == 'trans' and 'trans' in env:
                    need = ({}, ord('C') if cplx and env['trans'] == ord('T') else env['trans'])
                elif w in env:
                    need = ({}, env[w])
                got = named(sf, a.v)
                if got is None:
                    und = '%s: %r' % (p, a)
                elif not equiv(sf, member, got, need):
                    bad = '%s is %r instead of %s' % (p, a, w)
            if bad:
                break
        if not bad and member == 'm_geqp3':
            q, c = cs
            if not (q.args[7].kind == 'int' and q.args[7].v == Lin(-1)):
                und = und or 'workspace query'
            a = c.args[6]
            if a.kind == 'mem' and a.v[0] == 'call':
                hs = heap_size(sf, a.v, {'d': 8, 's': 4, 'z': 16, 'c': 8}[LET[T]])
                l = c.args[7]
                if hs is not None and l.kind == 'int' and hs != l.v:
                    d = l.v - hs
                    if d.is_const() and d.c > 0:
                        bad = 'the workspace passed as %r elements has only %r' % (l, hs)
            if cplx and not bad:
                rs = [x for x in events.calls(sf, {}, lambda x: re.search(r'Array<(double|float)>::resize\(', x)) if len(x.args) > 1]
                got = [named(sf, x.args[1].v) for x in rs if x.args[1].kind == 'int']
                if len(got) == 1 and got[0] and list(got[0][0]) == ['a._ncols'] and got[0][0]['a._ncols'] < 2:
                    bad = 'rwork has %s elements, %s needs 2*ncols' % (got[0], want)
                elif len(got) != 1 or not got[0] or list(got[0][0]) != ['a._ncols']:
                    und = und or 'rwork size'
        if bad:
            rep.bad('forward', what, bad, loc)
        elif und:
            rep.und('forward', what, und)
        else:
            rep.ok('forward', what, ' '.join(spec))
        # the info code is what the caller gets
        if 'I' not in spec:
            continue
        slot = cs[-1].args[len(spec) - 1]
        rets = [i for b in sf.rpo() if b in sf.returning() for i in sf.blocks[b] if i.op == 'ret']
        verdict = None
        for r in rets:
            v = r.ops[0] if r.ops else None
            seen = 0
            while v in sf.ins and sf.ins[v].op in ('sext', 'zext', 'trunc') and seen < 4:
                v = sf.ins[v].ops[0]
                seen += 1
            vs = [v]
            if v in sf.ins and sf.ins[v].op == 'phi':
                vs = list(sf.live_in(sf.ins[v]))
            for x in vs:
                if x.startswith('c:'):
                    verdict = 'a constant is returned instead of info'
                    continue
                ld = sf.ins.get(x)
                if ld is None or ld.op != 'load':
                    verdict = verdict or 'und'
                    continue
                try:
                    root, off = sf.addr(ld.ops[0])
                except Undecided:
                    verdict = verdict or 'und'
                    continue
                infos = [c.args[len(spec) - 1].v for c in cs]
                if root[0] == 'alloca' and root not in infos:
                    verdict = 'the returned value is not the info of %s' % want
                elif root[0] == 'alloca' and not sf.idominates(cs[infos.index(root)].ins, ld):
                    verdict = 'info is read before the call'
                elif root[0] != 'alloca':
                    verdict = verdict or 'und'
        if verdict == 'und' or not rets:
            rep.und('info', what, 'returned value')
        elif verdict:
            rep.bad('info', what, verdict, loc)
        else:
            rep.ok('info', what, 'returned')
    return n


def touches(sf, root, q, d):
    """is the caller's array read at all (in) / the buffer read at all outside the routine (out)"""
    for b in sf.rpo():
        for i in sf.blocks[b]:
            ops = [i.ops[0]] if i.op == 'load' else i.ops if i.op == 'call' and re.search(r'memcpy|memmove|copy', i.get('cdem') or i.get('callee') or '') else []
            for o in ops:
                try:
                    if not sf.isptr(o):
                        continue
                    r, off = sf.addr(o)
                except Undecided:
                    return True
                if d == 'out' and r == root or d == 'in' and r[0] != 'call' and r[0] != 'alloca' and sf.rootname(r) in (q, q[1:] + '._data'):
                    return True
    return False


def check_buffer(sf, what, root, q, inout, routine, rep):
    """the integer buffer standing in for `q` is filled from it before the call and copied back after"""
    k = Kernel(sf, lambda m: 8, lambda m: 1, lambda m: False)
    seen = {'in': None, 'out': None}
    for b in sf.rpo():
        ch = sf.loop_chain(b)
        if len(ch) != 1:
            continue
        it = Lin.atom(('it', ch[0]))
        for i in sf.blocks[b]:
            if i.op != 'store':
                continue
            try:
                r, off = sf.addr(i.ops[1])
                v = sf.lin(i.ops[0])
            except Undecided:
                continue
            if len(v.t) != 1 or v.c or list(v.t.values()) != [1]:
                continue
            a = list(v.t)[0]
            if a[0] != 'ld':
                continue
            from ir import untup
            ao = untup(a[2])
            nm = sf.rootname(r) if r[0] != 'call' else None
            an = sf.rootname(a[1]) if a[1][0] != 'call' else None
            cnt = dict(k.loops_of(b)).get(ch[0])
            if r == root and an in ('&' + q, q + '._data'):
                seen['in'] = (off, it.scale(4), ao, it.scale(8), cnt, i)
            elif a[1] == root and nm in ('&' + q, q + '._data'):
                seen['out'] = (off, it.scale(8), ao, it.scale(4), cnt, i)
    for d, need in zip(('in', 'out'), inout):
        if not need:
            continue
        s = seen[d]
        if s is None and not touches(sf, root, '&' + q, d):
            rep.bad('buffer', what, 'the %s buffer is never %s' % (q, 'filled from the caller\'s array' if d == 'in' else 'copied back'), sf.dem[:80])
            return None
        if s is None:
            return 'copy-%s of the %s buffer not recognised' % (d, q)
        if s[0] != s[1] or s[2] != s[3]:
            if all((x - y).is_const() for x, y in ((s[0], s[1]), (s[2], s[3]))):
                rep.bad('buffer', what, 'entry of the %s buffer is copied to another position (%r <- %r)' % (q, s[0], s[2]), sf.dem[:80])
            return 'copy-%s of the %s buffer' % (d, q)
    rep.ok('buffer', what, q)
    return None


def body(rep, w):
    rep.rule('routine', 'each member of the facade calls the LAPACK/BLAS routine of its name, in the precision of its value type (unitary/Hermitian variants for complex)')
    rep.rule('forward', 'each Fortran argument receives the caller\'s argument of that role, at its own position, with matrix leading dimensions and orders taken from the matrix')
    rep.rule('info', 'the info code of the routine is what the caller gets')
    rep.rule('buffer', 'pivot buffers of another integer width are filled before and copied back after the call, entry by entry')
    bc = w.lower('tus/lapack.cpp')
    p = w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'lapack.cfg')).read())
    n = 0
    for f in p.find(r'^LpC?<'):
        m = re.match(r'LpC?<(.*?)(?:, (int|long))?>::(\w+)\(', f.dem)
        T, I = m.group(1), m.group(2) or 'int'
        if T not in LET:
            continue
        f.prog = p
        n += check_member(rep, f, T, I)
    rep.need('forward', n, 60, 'facade members')


vt.main('P07', body)
