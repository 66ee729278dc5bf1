"""The C interface: what each exported function does with its arguments, per scenario, and null handling."""
import re
from ir import Lin, Undecided, untup
from spec import SFunc

INF = float('inf')
FAM = {'d': 'double', 's': 'float', 'z': 'std::complex<double>', 'c': 'std::complex<float>'}
MIX = {'sd': ('s', 'd'), 'cz': ('c', 'z')}
OK, NULLOBJ, MISMATCH, HIFERR = 0, 1, 2, 4
ROLES = {'CreateMatrix': ['rm', 'n', 'indptr', 'indices', 'vals'], 'DestroyMatrix': ['mat'], 'GetMatrixSize': ['mat'],
         'GetMatrixNnz': ['mat'], 'WrapMatrix': ['mat', 'n', 'indptr', 'indices', 'vals'], 'ReadSparse': ['fname', 'mat'],
         'ReadVector': ['fname', 'n', 'v'], 'Create': ['A', 'S', 'params'], 'Destroy': ['hif'], 'Setup': ['hif', 'A', 'S', 'params'],
         'Update': ['hif', 'A'], 'Refactorize': ['hif', 'S', 'params'],
         'Apply': ['hif', 'op', 'b', 'nirs', 'betas', 'rank', 'x', 'ir'], 'Solve': ['hif', 'b', 'x'],
         'GetStats': ['hif', 'stats'], 'GetNnz': ['hif'], 'GetLevels': ['hif'], 'GetSchurSize': ['hif'], 'GetSchurRank': ['hif']}
HIFCALL = re.compile(r'hif::HIF<(.*?), int, long, .*?>::(~?\w+)(<.*?>)?\(')


def split(name):
    m = re.match(r'lhf(sd|cz|[dszc])([A-Z]\w*)$', name)
    return (m.group(1), m.group(2)) if m and m.group(2) in ROLES else (None, None)


class Layout:
    """offsets of the fields of the handles, taken from what the creating functions store"""

    def __init__(self):
        self.mat = {}       # family -> {offset: field}
        self.hif = {}       # family -> {offset: field}

    def name(self, t, off):
        tab = self.mat.get(t[1:]) if t[0] == 'm' else self.hif.get(t[1:])
        return (tab or {}).get(off)


class CF(SFunc):
    """exported function under a scenario; quantities are named by the roles of the parameters and the handle fields"""

    def __init__(self, f, lay, roles, types, env=None, facts=()):
        self.lay, self.roles, self.rtypes = lay, roles, types
        SFunc.__init__(self, f, env, facts, truth=CF.tf)

    def typed(self, root):
        """(name, handle type) of a pointer root"""
        if root[0] == 'arg' and root[1] < len(self.roles):
            r = self.roles[root[1]]
            return r, self.rtypes.get(r)
        if root[0] == 'ld':
            n, t = self.typed(root[1])
            off = untup(root[2])
            if n and t and off.is_const():
                fld = self.lay.name(t, off.c)
                if fld:
                    sub = None
                    if t[0] == 'h' and fld == 'A':
                        sub = 'm' + t[1:]
                    elif t[0] == 'h' and fld == 'Ax':
                        sub = 'm' + {'s': 'd', 'c': 'z'}[t[1:]]
                    elif t[0] == 'h' and fld == 'M':
                        sub = 'H'
                    return n + '.' + fld, sub
                return '%s.+%d' % (n, off.c), None
        if root[0] == 'call' and self.ins.get(root[1]) is not None and self.ins[root[1]].get('cdem') == 'malloc':
            return 'new', self.rtypes.get('new')
        return None, None

    def aname(self, a):
        if a[0] in ('arg', 'ld'):
            return self.typed(a)[0]
        if a[0] in ('v', 'call') and len(a) == 2 and a[1] in self.ins:
            i = self.ins[a[1]]
            nm = i.get('cdem') or ''
            if nm == 'malloc':
                return 'new'
            m = HIFCALL.search(nm)
            if m and i.op in ('call', 'invoke'):
                try:
                    r, off = self.addr(i.ops[0])
                except Undecided:
                    return None
                n = self.typed(r)[0]
                if n and off == Lin(0):
                    ex = ''
                    if len(i.ops) > 1:
                        l = self.lin(i.ops[1])
                        ex = '(%d)' % l.c if l.is_const() else '(?)'
                    return '%s.%s%s' % (n, m.group(2), ex)
            if re.match(r'lhf\w+$', nm):
                return nm
        return SFunc.aname(self, a) if a[0] not in ('arg', 'ld') else None

    def tf(self, i):
        if i.op == 'icmp' and 'null' in i.ops and i.get('pred') in ('eq', 'ne'):
            try:
                r, off = self.addr(i.ops[0] if i.ops[1] == 'null' else i.ops[1])
            except Undecided:
                return None
            n = self.aname(r) if r[0] == 'call' and off == Lin(0) else None
            if n in self.env:
                return bool(self.env[n]) == (i.get('pred') == 'ne')
        if i.op in ('call', 'invoke') and i.get('ty') == 'i1':
            n = self.aname(('call', i.id))
            if n in self.env:
                return bool(self.env[n])
        return None

    # ---- results
    def result(self):
        """the returned value under the scenario: int, name, or None"""
        rs = set()
        for b in self.rpo():
            t = self.blocks[b][-1] if self.blocks[b] else None
            if t is not None and t.op == 'ret':
                if not t.ops:
                    return 'void'
                rs.add(self.value(t.ops[0]))
        return rs.pop() if len(rs) == 1 else None

    def value(self, v, depth=0):
        """what a scalar or pointer operand is: int, name or None"""
        try:
            if self.isptr(v):
                if v == 'null':
                    return 0
                r, off = self.addr(v)
                if r == ('null',):
                    return 0
                if r[0] == 'v' and r[1] in self.ins and self.ins[r[1]].op == 'phi':
                    xs = {self.value(x) for x in self.live_in(self.ins[r[1]])}
                    return xs.pop() if len(xs) == 1 else None
                n = self.typed(r)[0]
                if r[0] == 'alloca':
                    return ('local', r[1], off.c if off.is_const() else None)
                if r[0] == 'global':
                    return '&' + str(r[1])
                if n and off == Lin(0):
                    return n
                return None
            l = self.bind(self.lin(v))
        except Undecided:
            return None
        if l.is_const():
            return l.c
        a = l.single()
        if a is not None:
            n = self.aname(a)
            if n:
                return n
            if a[0] == 'phi' or a[0] == 'v' and self.ins[a[1]].op == 'phi':
                xs = {self.value(x) for x in self.live_in(self.ins[a[1]])}
                return xs.pop() if len(xs) == 1 else None
            if a[0] == 'v' and self.ins[a[1]].op in ('zext', 'sext', 'trunc'):
                return self.value(self.ins[a[1]].ops[0])
        ns = {}
        for x, k in l.t.items():
            n = self.aname(x)
            if n is None:
                return None
            ns[n] = ns.get(n, 0) + k
        return (tuple(sorted(ns.items())), l.c)

    def calls(self):
        """live calls in order, with whether they are executed on every path"""
        live = self.returning()
        for b in self.rpo():
            if b not in live:
                continue
            for i in self.blocks[b]:
                if i.op in ('call', 'invoke') and not (i.get('callee') or '').startswith('llvm.'):
                    yield i, self.bloop[b] == -1 and not self.uncond(b)

    def outstores(self):
        """stores outside locals: (name, offset Lin, value operand, instruction, unconditional)"""
        live = self.returning()
        for b in self.rpo():
            if b not in live:
                continue
            for i in self.blocks[b]:
                if i.op == 'store':
                    try:
                        r, off = self.addr(i.ops[1])
                    except Undecided:
                        yield None, None, i.ops[0], i, False
                        continue
                    if r[0] == 'alloca':
                        continue
                    yield self.typed(r)[0] or str(r), off, i.ops[0], i, not self.uncond(b)


def handles(p):
    return {f.dem.split('(')[0]: f for f in p.functions if f.dem.startswith('lhf')}


def mattype(fam, kind, role):
    """handle types of the parameters of a function"""
    a, b = MIX.get(fam, (fam, fam))
    if role == 'hif':
        return 'h' + a
    if role in ('A', 'S', 'mat'):
        return 'm' + b
    return None


class Api:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.fs = handles(p)
        self.lay = Layout()
        self.layout()

    def roles(self, kind):
        return ROLES[kind]

    def cf(self, name, env=None, facts=()):
        fam, kind = split(name)
        rl = ROLES[kind]
        types = {r: mattype(fam, kind, r) for r in rl}
        if kind == 'CreateMatrix':
            types['new'] = 'm' + fam
        if kind == 'Create':
            types['new'] = 'h' + fam
        e = {'hif': 1, 'hif.M': 1, 'mat': 1, 'A': 1, 'S': 1, 'b': 1, 'x': 1, 'v': 1, 'fname': 1, 'stats': 1, 'new': 1,
             'indptr': 1, 'indices': 1, 'vals': 1}
        for m in ('A', 'S', 'mat', 'hif.A', 'hif.Ax'):
            e.update({m: 1, m + '.indptr': 1, m + '.indices': 1, m + '.vals': 1})
        e.update(env or {})
        keep = {k: v for k, v in e.items()}
        return CF(self.fs[name], self.lay, rl, types, keep, facts)

    def layout(self):
        for fam in FAM:
            f = self.fs.get('lhf%sCreateMatrix' % fam)
            if f is None:
                continue
            sf = CF(f, self.lay, ROLES['CreateMatrix'], {}, {'indptr': 1, 'indices': 1, 'vals': 1, 'new': 1}, [({'n': 1}, 1, INF)])
            tab = {}
            for n, off, v, i, un in sf.outstores():
                if n == 'new' and off.is_const():
                    x = sf.value(v)
                    if isinstance(x, str) and x in ('n', 'indptr', 'indices', 'vals'):
                        tab[off.c] = x
                    elif sf.isptr(v) is False and off.c not in tab and x != 0:
                        tab[off.c] = 'rm'
            self.lay.mat[fam] = tab
            f = self.fs.get('lhf%sSetup' % fam)
            if f is None:
                continue
            sf = CF(f, self.lay, ROLES['Setup'], {}, {'hif': 1, 'A': 1, 'S': 0})
            tab = {}
            for n, off, v, i, un in sf.outstores():
                if n == 'hif' and off.is_const():
                    x = sf.value(v)
                    tab[off.c] = 'A' if x == 'A' else 'Ax'
            for i, un in sf.calls():
                m = HIFCALL.search(i.get('cdem') or '')
                if m and m.group(2) == 'factorize':
                    r, off = sf.addr(i.ops[0])
                    if r[0] == 'ld' and off == Lin(0):
                        tab[untup(r[2]).c] = 'M'
            self.lay.hif[fam] = tab

    # ---- P20
    def core(self, sf, name, what, rule):
        """the core operations executed, or None when the scenario leaves a choice"""
        rs = []
        for i, un in sf.calls():
            m = HIFCALL.search(i.get('cdem') or '')
            if m and m.group(2) in ('factorize', 'solve', 'hifir', 'mmultiply'):
                rs.append((m.group(2), m.group(1), m.group(3), i, un))
        return rs

    def local_array(self, sf, v, at):
        """(element type, length, data, wrap) of the array object passed as operand v"""
        r, off = sf.addr(v)
        if r[0] != 'alloca' or off != Lin(0):
            return None
        rs = []
        for i, un in sf.calls():
            nm = i.get('cdem') or ''
            m = re.match(r'hif::Array<(.*)>::Array\(', nm)
            if m and sf.addr(i.ops[0])[0] == r:
                if len(i.ops) < 4 or not sf.dom(i.blk, at.blk):
                    return None
                rs.append((m.group(1), sf.value(i.ops[1]), sf.value(i.ops[2]), sf.value(i.ops[3])))
        return rs[0] if len(rs) == 1 else None

    def local_wrap(self, sf, v, at):
        """(storage, n, m, indptr, indices, vals) of the matrix wrapped into operand v"""
        r, off = sf.addr(v)
        if r[0] != 'alloca' or off != Lin(0):
            return None
        rs = []
        for i, un in sf.calls():
            nm = i.get('cdem') or ''
            m = re.search(r'hif::wrap_const_(crs|ccs)<(.*?), int', nm)
            if m and sf.addr(i.ops[0])[0] == r:
                if not sf.dom(i.blk, at.blk):
                    return None
                rs.append((m.group(1), m.group(2)) + tuple(sf.value(o) for o in i.ops[1:6]))
        return rs[0] if len(rs) == 1 else None

    def expect(self, rule, what, got, want, loc, label):
        if got is None:
            self.rep.und(rule, what, '%s is not recognised' % label)
            return False
        if got not in (want if isinstance(want, (set, list)) else [want]):
            self.rep.bad(rule, what, '%s is %s, expected %s' % (label, got, want), loc)
            return False
        return True

    def status(self, rule, what, sf, want):
        return self.expect(rule, what, sf.result(), want, sf.dem.split('(')[0], 'the returned value')

    def vec(self, rule, what, sf, v, at, elem, data):
        a = self.local_array(sf, v, at)
        if a is None:
            self.rep.und(rule, what, 'the vector over %s is not recognised' % data)
            return False
        good = True
        good &= self.expect(rule, what, a[0], elem, at.loc, 'the element type of the vector over %s' % data)
        good &= self.expect(rule, what, a[2], data, at.loc, 'the data of a vector')
        good &= self.expect(rule, what, a[1], ['hif.M.nrows', 'hif.A.n', 'hif.Ax.n', 'n=nrows'], at.loc, 'the length of the vector over %s' % data)
        if a[3] in (0, None):
            if a[3] is None:
                self.rep.und(rule, what, 'ownership of %s' % data)
            else:
                self.rep.bad(rule, what, 'the vector over %s owns the memory of the caller' % data, at.loc)
            good = False
        return good

    def apply(self, name, env, facts, what, op, nirs, want_rank, betas, rm, ir):
        rule = 'apply'
        fam, kind = split(name)
        pf, vf = MIX.get(fam, (fam, fam))
        sf = self.cf(name, env, facts)
        cs = self.core(sf, name, what, rule)
        if len(cs) != 1 or not cs[0][4]:
            if not cs and sf.entry in sf.returning():
                self.rep.bad(rule, what, 'no operation of the core is performed', sf.dem.split('(')[0])
            elif len(cs) == 1 or len({c[0] for c in cs}) == 1:
                self.rep.und(rule, what, 'the operation performed depends on more than the scenario')
            else:
                self.rep.und(rule, what, 'several operations of the core are reachable: %s' % sorted({c[0] for c in cs}))
            return
        o, ty, targ, i, un = cs[0]
        trans = op in (1, 3)
        want = 'mmultiply' if op >= 2 else 'solve' if nirs <= 1 else 'hifir'
        good = self.expect(rule, what, o, want, i.loc, 'the operation')
        if not good:
            return
        good &= self.expect(rule, what, ty, FAM[pf], i.loc, 'the precision of the preconditioner')
        good &= self.expect(rule, what, sf.value(i.ops[0]), 'hif.M', i.loc, 'the preconditioner')
        a = i.ops[1:]
        if o != 'hifir':
            if len(a) != 4:
                self.rep.und(rule, what, 'arguments')
                return
            good &= self.vec(rule, what, sf, a[0], i, FAM[vf], 'b')
            good &= self.vec(rule, what, sf, a[1], i, FAM[vf], 'x')
            t, r = a[2], a[3]
        else:
            k = 4 if betas else 3
            if len(a) != (7 if betas else 6):
                self.rep.bad(rule, what, 'the refinement is called %s bounds' % ('without' if betas else 'with'), i.loc)
                return
            w = self.local_wrap(sf, a[0], i)
            if w is None:
                self.rep.und(rule, what, 'the matrix is not recognised')
                good = False
            else:
                A = 'hif.Ax' if fam in MIX else 'hif.A'
                good &= self.expect(rule, what, w, ('crs' if rm else 'ccs', FAM[vf], A + '.n', A + '.n', A + '.indptr', A + '.indices', A + '.vals'), i.loc, 'the matrix refined with')
            good &= self.vec(rule, what, sf, a[1], i, FAM[vf], 'b')
            good &= self.expect(rule, what, sf.value(a[2]), nirs, i.loc, 'the number of refinements')
            if betas:
                good &= self.expect(rule, what, sf.value(a[3]), 'betas', i.loc, 'the bounds')
            good &= self.vec(rule, what, sf, a[k], i, FAM[vf], 'x')
            t, r = a[k + 1], a[k + 2]
        tv = sf.value(t)
        good &= self.expect(rule, what, None if tv is None else bool(tv), trans, i.loc, 'transposition')
        rv = sf.value(r)
        if isinstance(rv, int) and rv > (1 << 63):
            rv -= 1 << 64
        good &= self.expect(rule, what, rv, want_rank, i.loc, 'the rank')
        good &= self.status(rule, what, sf, OK)
        ws = {}
        for n, off, v, s, u in sf.outstores():
            if n is None:
                self.rep.und(rule, what, 'a store is not resolved')
                return
            if n != 'ir':
                self.rep.bad(rule, what, 'writes %s' % n, s.loc)
                return
            x = sf.ins.get(v)
            idx = None
            for _ in range(4):
                if x is not None and x.op in ('trunc', 'zext', 'sext'):
                    x = sf.ins.get(x.ops[0])
            if x is not None and x.op == 'extractvalue' and x.ops[0] == i.id:
                idx = (x.get('ix') or [None])[0]
            elif x is not None and x.op == 'load':
                idx = None
            ws[off.c if off.is_const() else None] = idx if u else None
        exp = {0: 0, 4: 1} if ir and betas and o == 'hifir' else {}
        if ws != exp:
            if None in ws.values() and set(ws) == set(exp):
                self.rep.und(rule, what, 'the reported statistics are not recognised')
            else:
                self.rep.bad(rule, what, 'the reported iterations and flag are %s, expected %s' % (ws, exp), i.loc)
            good = False
        if good:
            self.rep.ok(rule, what, '%s, rank %s' % (o, want_rank))

    def check_apply(self):
        n = 0
        for name in self.fs:
            fam, kind = split(name)
            if kind != 'Apply':
                continue
            m = 'hif.Ax' if fam in MIX else 'hif.A'
            for op in range(4):
                for nirs in (0, 1, 2, 7):
                    for rank in (-2, -1, 0, 5):
                        for betas in (0, 1):
                            for rm in (0, 1):
                                for ir in (0, 1):
                                    if (nirs < 2 or op >= 2) and (betas, rm, ir) not in ((0, 0, 0), (1, 1, 1)):
                                        continue
                                    if rank == -2:
                                        wr = -1 if op < 2 and nirs > 1 else 0
                                    else:
                                        wr = rank
                                    env = {'op': op, 'nirs': nirs, 'rank': rank, 'betas': betas, m + '.rm': rm, 'ir': ir, 'hif.M.empty': 0}
                                    facts = [({'hif.M.nrows': 1, m + '.n': -1}, 0, 0)]
                                    what = '%s op %d, %d refinements, rank %d%s%s%s' % (name, op, nirs, rank, ', bounds' if betas else '', ', row major' if rm else '', ', status wanted' if ir else '')
                                    self.apply(name, env, facts, what, op, nirs, wr, betas, rm, ir)
                                    n += 1
            # mismatched sizes
            for op in (0, 1):
                for lo, hi in ((1, INF), (-INF, -1)):
                    sf = self.cf(name, {'op': op, 'nirs': 2, 'rank': -2}, [({'hif.M.nrows': 1, m + '.n': -1}, lo, hi)])
                    what = '%s op %d with a matrix of another size' % (name, op)
                    cs = self.core(sf, name, what, 'apply')
                    if cs:
                        self.rep.bad('apply', what, 'refined with a matrix of another size', cs[0][3].loc)
                    elif self.status('apply', what, sf, MISMATCH):
                        self.rep.ok('apply', what, 'rejected')
                    n += 1
        return n

    def check_solve(self):
        n = 0
        for name in self.fs:
            fam, kind = split(name)
            if kind != 'Solve':
                continue
            rule = 'solve'
            n += 1
            pf, vf = MIX.get(fam, (fam, fam))
            sf = self.cf(name)
            cs = self.core(sf, name, name, rule)
            if len(cs) != 1 or not cs[0][4]:
                if cs:
                    self.rep.und(rule, name, 'the operation is not unique')
                else:
                    self.rep.bad(rule, name, 'no operation of the core is performed', name)
                continue
            o, ty, targ, i, un = cs[0]
            good = self.expect(rule, name, o, 'solve', i.loc, 'the operation')
            good &= self.expect(rule, name, ty, FAM[pf], i.loc, 'the precision of the preconditioner')
            good &= self.expect(rule, name, sf.value(i.ops[0]), 'hif.M', i.loc, 'the preconditioner')
            if good and len(i.ops) == 5:
                good &= self.vec(rule, name, sf, i.ops[1], i, FAM[vf], 'b')
                good &= self.vec(rule, name, sf, i.ops[2], i, FAM[vf], 'x')
                good &= self.expect(rule, name, sf.value(i.ops[3]), 0, i.loc, 'transposition')
                good &= self.expect(rule, name, sf.value(i.ops[4]), 0, i.loc, 'the rank')
            good &= self.status(rule, name, sf, OK)
            if good:
                self.rep.ok(rule, name, 'plain solve')
        return n

    def fac(self, rule, what, sf, name, fac, params, rm):
        fam, kind = split(name)
        cs = self.core(sf, name, what, rule)
        if len(cs) != 1 or not cs[0][4]:
            if cs:
                self.rep.und(rule, what, 'the factorization is not unique')
            else:
                self.rep.bad(rule, what, 'nothing is factorized', name)
            return False
        o, ty, targ, i, un = cs[0]
        good = self.expect(rule, what, o, 'factorize', i.loc, 'the operation')
        if not good or len(i.ops) < 6:
            return False
        m = re.match(r'<(true|false), int, long, (.*)>$', targ or '') or re.match(r'<(true|false), (?:int|long), (.*), (?:int|long)>$', targ or '')
        rmaj = re.match(r'<(true|false),', targ or '')
        if rmaj is None:
            self.rep.und(rule, what, 'the storage order of the factorization')
            return False
        good &= self.expect(rule, what, rmaj.group(1) == 'true', bool(rm), i.loc, 'row-major storage')
        vt = re.search(r'(std::complex<\w+>|\bdouble\b|\bfloat\b)', targ)
        good &= self.expect(rule, what, vt and vt.group(1), FAM[fam], i.loc, 'the value type')
        good &= self.expect(rule, what, ty, FAM[fam], i.loc, 'the precision of the preconditioner')
        for k, w in enumerate(('hif.M', fac + '.n', fac + '.indptr', fac + '.indices', fac + '.vals')):
            good &= self.expect(rule, what, sf.value(i.ops[k]), w, i.loc, 'argument %d of the factorization' % k)
        pv = sf.value(i.ops[5])
        if params:
            ok = None
            if isinstance(pv, tuple) and pv[0] == 'local':
                for c, u in sf.calls():
                    if 'create_params' in (c.get('cdem') or ''):
                        r, off = sf.addr(c.ops[0])
                        if r == ('alloca', pv[1]):
                            ok = sf.value(c.ops[1]) == 'params' and sf.dom(c.blk, i.blk)
                if ok is None:
                    self.rep.und(rule, what, 'how the options are built from the parameters')
                    return False
            elif isinstance(pv, str) and 'DEFAULT_PARAMS' in pv:
                ok = False
            if not ok:
                self.rep.bad(rule, what, 'the parameters of the caller are not the options of the factorization', i.loc)
                good = False
        else:
            if not (isinstance(pv, str) and 'DEFAULT_PARAMS' in pv):
                if isinstance(pv, tuple) and any('create_params' in (c.get('cdem') or '') for c, u in sf.calls()):
                    self.rep.bad(rule, what, 'the options are read from absent parameters', i.loc)
                else:
                    self.rep.und(rule, what, 'the default options')
                good = False
        if len(i.ops) > 6:
            good &= self.expect(rule, what, sf.value(i.ops[6]), 0, i.loc, 'the leading block size')
        return good

    def check_setup(self):
        n = 0
        rule = 'setup'
        for name in self.fs:
            fam, kind = split(name)
            if kind not in ('Setup', 'Refactorize'):
                continue
            for hasA, hasS in ((1, 0), (0, 1), (1, 1)) if kind == 'Setup' else ((0, 1),):
                for params in (0, 1):
                    for rm in (0, 1):
                        n += 1
                        what = '%s with %s%s%s' % (name, ' and '.join(x for x, h in (('A', hasA), ('S', hasS)) if h), ', parameters' if params else '', ', row major' if rm else '')
                        fac, kept = ('S' if hasS else 'A'), ('A' if hasA else 'S')
                        env = {'A': hasA, 'S': hasS, 'params': params, fac + '.rm': rm}
                        if kind == 'Setup' and hasA and hasS:
                            env['A.rm'] = 1 - rm
                        sf = self.cf(name, env)
                        good = self.fac(rule, what, sf, name, fac, params, rm)
                        good &= self.status(rule, what, sf, OK)
                        ws = {}
                        for nm, off, v, s, u in sf.outstores():
                            if nm is None or not off.is_const():
                                self.rep.und(rule, what, 'a store is not resolved')
                                good = False
                                break
                            ws[(nm, off.c)] = sf.value(v) if u else None
                        exp = {}
                        if kind == 'Setup':
                            for off, fld in self.lay.hif[fam].items():
                                if fld == 'A':
                                    exp[('hif', off)] = kept
                                elif fld == 'Ax':
                                    exp[('hif', off)] = 0
                        if good and ws != exp:
                            if None in ws.values():
                                self.rep.und(rule, what, 'what the handle keeps is not recognised')
                            else:
                                self.rep.bad(rule, what, 'the handle keeps %s, expected %s' % (ws, exp), name)
                            good = False
                        if good:
                            self.rep.ok(rule, what, 'factorizes %s' % fac)
        # what is kept across families
        for fam in FAM:
            tab = self.lay.hif.get(fam, {})
            want = {'M', 'A', 'Ax'} if fam in 'sc' else {'M', 'A'}
            if tab and set(tab.values()) != want:
                self.rep.bad(rule, 'lhf%sSetup fields' % fam, 'setup leaves fields of the handle as %s, expected %s' % (sorted(tab.values()), sorted(want)), 'lhf%sSetup' % fam)
        return n

    def check_update(self):
        n = 0
        rule = 'update'
        for name in self.fs:
            fam, kind = split(name)
            if kind != 'Update':
                continue
            fld = 'Ax' if fam in MIX else 'A'
            hf = 'hif.' + fld
            off = [o for o, x in self.lay.hif[MIX[fam][0] if fam in MIX else fam].items() if x == fld]
            for what, A, empty, d, want in (('no matrix', 0, 0, 0, OK), ('unfactorized', 1, 1, 1, OK), ('same size', 1, 0, 0, OK),
                                            ('larger', 1, 0, 1, MISMATCH), ('smaller', 1, 0, -1, MISMATCH)):
                n += 1
                what = '%s, %s' % (name, what)
                iv = (0, 0) if d == 0 else (1, INF) if d > 0 else (-INF, -1)
                fs = [({x: 1, 'hif.M.nrows': -1}, iv[0], iv[1]) for x in ('A.n', hf + '.n')]
                sf = self.cf(name, {'A': A, hf: A, 'hif.M.empty': empty}, fs if not empty else [])
                good = self.status(rule, what, sf, want)
                ws = {}
                for nm, o, v, s, u in sf.outstores():
                    if nm is None or not o.is_const():
                        self.rep.und(rule, what, 'a store is not resolved')
                        good = False
                        break
                    ws[(nm, o.c)] = sf.value(v) if u else None
                if not good:
                    continue
                if want == OK and (not off or ws != {('hif', off[0]): 'A' if A else ws.get(('hif', off[0]))} or (not A and ws.get(('hif', off[0])) not in ('A', 0))):
                    self.rep.bad(rule, what, 'the handle keeps %s' % ws, name)
                elif want != OK and off and any(k != ('hif', off[0]) for k in ws):
                    self.rep.bad(rule, what, 'another field of the handle is replaced: %s' % ws, name)
                else:
                    self.rep.ok(rule, what, str(want))
        return n

    def check_matrix(self):
        n = 0
        rule = 'matrix'
        for name in self.fs:
            fam, kind = split(name)
            if kind == 'CreateMatrix' or kind == 'WrapMatrix':
                obj = 'new' if kind == 'CreateMatrix' else 'mat'
                full = self.lay.mat[fam]
                for miss in (None, 'n', 'indptr', 'indices', 'vals'):
                    n += 1
                    what = '%s%s' % (name, ' without %s' % miss if miss else '')
                    env = {'rm': 1}
                    if miss and miss != 'n':
                        env[miss] = 0
                    facts = [({'n': 1}, 0, 0) if miss == 'n' else ({'n': 1}, 1, INF)]
                    if miss == 'n':
                        env['n'] = 0
                    sf = self.cf(name, env, facts)
                    last, bad = {}, None
                    for nm, off, v, s, u in sf.outstores():
                        if nm != obj or not off.is_const() or not u:
                            bad = s
                            break
                        last[full.get(off.c, off.c)] = sf.value(v)
                    if bad is not None:
                        self.rep.und(rule, what, 'a store is not resolved')
                        continue
                    if kind == 'CreateMatrix':
                        exp = {k: 0 if miss else k for k in ('n', 'indptr', 'indices', 'vals')}
                        exp['rm'] = 1
                        want = 'new'
                    else:
                        exp = {} if miss else {k: k for k in ('n', 'indptr', 'indices', 'vals')}
                        want = NULLOBJ if miss else OK
                    if len(full) != 5:
                        self.rep.bad(rule, what, 'the fields set are %s' % sorted(full.values()), name)
                        continue
                    if last != exp:
                        if None in last.values():
                            self.rep.und(rule, what, 'the stored fields are not recognised')
                        else:
                            self.rep.bad(rule, what, 'the matrix is %s, expected %s' % (last, exp), name)
                        continue
                    if self.status(rule, what, sf, want):
                        self.rep.ok(rule, what, 'fields as given' if not miss else 'left empty')
            elif kind == 'GetMatrixSize':
                n += 1
                sf = self.cf(name)
                if self.expect(rule, name, sf.result(), 'mat.n', name, 'the size'):
                    self.rep.ok(rule, name, 'size')
            elif kind == 'GetMatrixNnz':
                n += 1
                sf = self.cf(name)
                self.nnz(rule, name, sf)
            elif kind == 'DestroyMatrix':
                n += 1
                sf = self.cf(name)
                fr = [(i, u) for i, u in sf.calls() if i.get('callee') == 'free']
                if len(fr) != 1 or not fr[0][1] or sf.value(fr[0][0].ops[0]) != 'mat':
                    self.rep.bad(rule, name, 'the matrix handle is not released exactly once', name)
                elif self.status(rule, name, sf, OK):
                    self.rep.ok(rule, name, 'released')
        return n

    def nnz(self, rule, name, sf):
        r = [self_b for self_b in sf.rpo() if sf.blocks[self_b] and sf.blocks[self_b][-1].op == 'ret']
        try:
            v = sf.blocks[r[0]][-1].ops[0]
            i = sf.ins.get(v)
            if i is not None and i.op == 'phi':
                lv = set(sf.live_in(i))
                v = lv.pop() if len(lv) == 1 else v
            l = sf.lin(v)
            pos = {}
            for a, k in l.t.items():
                if a[0] != 'ld' or sf.typed(a[1])[0] != 'mat.indptr':
                    raise Undecided('x')
                o = untup(a[2])
                if o.is_const():
                    pos[o.c] = k
                else:
                    s = o.single() if False else None
                    ts = list(o.t.items())
                    if len(ts) == 1 and o.c == 0 and sf.aname(ts[0][0]) == 'mat.n':
                        pos['%d*n' % ts[0][1]] = k
                    else:
                        pos[repr(o)] = k
        except (Undecided, IndexError):
            self.rep.und(rule, name, 'the number of nonzeros is not recognised')
            return
        if pos == {'8*n': 1, 0: -1} and l.c == 0:
            self.rep.ok(rule, name, 'indptr[n]-indptr[0]')
        else:
            self.rep.bad(rule, name, 'the number of nonzeros is computed from %s' % pos, name)

    def check_stats(self):
        n = 0
        rule = 'stats'
        slots = ['nnz', 'stats(0)', 'stats(1)', 'stats(4)', 'stats(5)', 'levels', 'rank', 'schur_rank', 'schur_size']
        get = {'GetNnz': 'nnz', 'GetLevels': 'levels', 'GetSchurSize': 'schur_size', 'GetSchurRank': 'schur_rank'}
        for name in self.fs:
            fam, kind = split(name)
            if kind in get:
                n += 1
                sf = self.cf(name, {'hif.M.empty': 0})
                if self.expect(rule, name, sf.result(), 'hif.M.' + get[kind], name, 'the value'):
                    self.rep.ok(rule, name, get[kind])
            elif kind == 'GetStats':
                for what, env in (('no handle', {'hif': 0}), ('unfactorized', {'hif.M.empty': 1}), ('factorized', {'hif.M.empty': 0})):
                    n += 1
                    what = '%s, %s' % (name, what)
                    sf = self.cf(name, env)
                    got, und = {}, False
                    for nm, off, v, s, u in sf.outstores():
                        if nm != 'stats':
                            und = True
                            continue
                        x = sf.value(v)
                        if off.is_const() and u:
                            got[off.c] = x
                        else:
                            lp = sf.bloop[s.blk]
                            a = [k for k in off.t]
                            try:
                                t = sf.trips(lp) if lp != -1 else None
                            except Undecided:
                                t = None
                            if len(a) == 1 and a[0][0] == 'it' and t is not None and t.is_const():
                                # a header test runs once more than the body
                                cnt = t.c if s.blk == sf.loops[lp]['header'] or s.blk in sf.loops[lp]['exiting'] else t.c - 1
                                for k in range(cnt):
                                    got[off.c + off.t[a[0]] * k] = x
                            else:
                                und = True
                    exp = {8 * k: 'hif.M.' + s for k, s in enumerate(slots)} if env == {'hif.M.empty': 0} else {8 * k: 0 for k in range(9)}
                    if und or None in got.values() and got.keys() == exp.keys():
                        self.rep.und(rule, what, 'the statistics are not recognised')
                    elif got != exp:
                        d = {k // 8: (got.get(k), exp.get(k)) for k in set(got) | set(exp) if got.get(k) != exp.get(k)}
                        self.rep.bad(rule, what, 'slot (found, expected): %s' % d, name)
                    elif self.status(rule, what, sf, OK):
                        self.rep.ok(rule, what, '9 slots')
        return n

    def check_read(self):
        n = 0
        rule = 'read'
        for name in self.fs:
            fam, kind = split(name)
            if kind not in ('ReadSparse', 'ReadVector'):
                continue
            for rm in (0, 1) if kind == 'ReadSparse' else (0,):
                n += 1
                what = '%s%s' % (name, ', row major' if rm else '')
                sf = self.cf(name, {'mat.rm': rm})
                fm = [(i, u) for i, u in sf.calls() if '::from_mm(' in (i.get('cdem') or '')]
                if len(fm) != 1 or not fm[0][1]:
                    self.rep.und(rule, what, 'the reader is not unique')
                    continue
                i = fm[0][0]
                m = re.match(r'hif::(CRS|CCS|Array)<(.*?)(?:, int, long)?>::from_mm', i.get('cdem'))
                want = ('CRS' if rm else 'CCS') if kind == 'ReadSparse' else 'Array'
                good = self.expect(rule, what, m and m.group(1), want, i.loc, 'the storage read')
                good &= self.expect(rule, what, m and m.group(2), FAM[fam], i.loc, 'the value type read')
                good &= self.expect(rule, what, sf.value(i.ops[1]), 'fname', i.loc, 'the file')
                loc = sf.addr(i.ops[0])[0]
                cp = {}
                for c, u in sf.calls():
                    if 'std::copy<' in (c.get('cdem') or ''):
                        s = self.src(sf, c.ops[0], loc)
                        e = self.src(sf, c.ops[1], loc)
                        cp[sf.value(c.ops[2])] = (s, e)
                # fields of the local: pointer at o, count at o+8
                exp = {'mat.indptr': 0, 'mat.indices': 40, 'mat.vals': 80} if kind == 'ReadSparse' else {'v': 0}
                if set(cp) != set(exp):
                    if None in cp or not cp:
                        self.rep.und(rule, what, 'the copies are not recognised')
                    else:
                        self.rep.bad(rule, what, 'what is filled is %s' % sorted(cp), name)
                    continue
                for k, o in exp.items():
                    s, e = cp[k]
                    if s is None or e is None:
                        self.rep.und(rule, what, 'the source of %s is not recognised' % k)
                        good = False
                    elif s != (o, None) or e not in ((o, o + 8), (o, 'n')):
                        self.rep.bad(rule, what, '%s is not filled with the whole array of the same kind' % k, i.loc)
                        good = False
                rs = {sf.value(v) for v in self.rets(sf)}
                if not {OK, MISMATCH} <= rs:
                    self.rep.bad(rule, what, 'the statuses are %s' % rs, name)
                    good = False
                if good:
                    self.rep.ok(rule, what, 'reads %s' % want)
        return n

    def rets(self, sf):
        out, st = set(), []
        for b in sf.rpo():
            if sf.blocks[b] and sf.blocks[b][-1].op == 'ret':
                st += sf.blocks[b][-1].ops
        seen = set()
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            i = sf.ins.get(v)
            if i is not None and i.op == 'phi':
                st += sf.live_in(i)
            else:
                out.add(v)
        return out

    def src(self, sf, v, loc):
        """(field offset, count) of a pointer into an array member of the local object"""
        try:
            r, off = sf.addr(v)
        except Undecided:
            return None
        if r[0] == 'ld' and r[1] == loc:
            o = untup(r[2])
            if not o.is_const():
                return None
            if off == Lin(0):
                return (o.c, None)
            ts = list(off.t.items())
            if len(ts) == 1 and off.c == 0:
                a = ts[0][0]
                if a[0] == 'ld' and a[1] == loc and untup(a[2]).is_const():
                    return (o.c, untup(a[2]).c)
                if sf.aname(a) == 'n':
                    return (o.c, 'n')
        return None

    def check_create(self):
        n = 0
        rule = 'create'
        for name in self.fs:
            fam, kind = split(name)
            if kind == 'Create':
                setup, destroy = 'lhf%sSetup' % fam, 'lhf%sDestroy' % fam
                for st in (OK, NULLOBJ, HIFERR):
                    n += 1
                    what = '%s, setup gives %d' % (name, st)
                    sf = self.cf(name, {setup: st, 'new.M': 1})
                    cs = [(i, u) for i, u in sf.calls() if i.get('callee') == setup]
                    if not cs:
                        self.rep.und(rule, what, 'the setup is not a call')
                        continue
                    i = cs[0][0]
                    good = True
                    for k, w in enumerate(('new', 'A', 'S', 'params')):
                        good &= self.expect(rule, what, sf.value(i.ops[k]), w, i.loc, 'argument %d of the setup' % k)
                    ds = [(c, u) for c, u in sf.calls() if c.get('callee') == destroy]
                    ctor = [c for c, u in sf.calls() if re.search(r'hif::HIF<%s, int, long, .*>::HIF\(\)' % re.escape(FAM[fam]), c.get('cdem') or '')]
                    if not ctor:
                        self.rep.und(rule, what, 'the construction of the preconditioner is not recognised')
                        good = False
                    want = 0 if st == HIFERR else 'new'
                    if good and (st == HIFERR) != bool(ds):
                        self.rep.bad(rule, what, 'the handle is %s' % ('released although it is returned' if ds else 'leaked'), name)
                        good = False
                    if good and self.status(rule, what, sf, want):
                        self.rep.ok(rule, what, str(want))
            elif kind == 'Destroy':
                n += 1
                sf = self.cf(name)
                ev = []
                for c, u in sf.calls():
                    nm = c.get('cdem') or ''
                    if HIFCALL.search(nm) and HIFCALL.search(nm).group(2) == '~HIF':
                        ev.append(('dtor', sf.value(c.ops[0])))
                    elif c.get('callee') == '_ZdlPv' or c.get('callee') == '_ZdlPvm':
                        ev.append(('delete', sf.value(c.ops[0])))
                    elif c.get('callee') == 'free':
                        ev.append(('free', sf.value(c.ops[0])))
                if ev != [('dtor', 'hif.M'), ('delete', 'hif.M'), ('free', 'hif')]:
                    self.rep.bad(rule, name, 'what is released: %s' % ev, name)
                elif self.status(rule, name, sf, OK):
                    self.rep.ok(rule, name, 'released once')
        return n

    # ---- P20: the prototypes
    def check_defined(self, text):
        names = sorted(set(re.findall(r'\b(lhf\w+)\s*\(', text)))
        for n in names:
            if n in self.fs:
                self.rep.ok('defined', n, 'defined')
            else:
                self.rep.bad('defined', n, 'declared in the header but not defined in the library', 'libhifir/include/libhifir.h')
        return len(names)

    # ---- P19
    def derefs(self, sf, nulls):
        """first live access through a pointer that is null in the scenario"""
        for b in sf.rpo():
            for i in sf.blocks[b]:
                if i.op in ('load', 'store'):
                    try:
                        r, off = sf.addr(i.ops[0 if i.op == 'load' else 1])
                    except Undecided:
                        continue
                    n = sf.typed(r)[0]
                    if r == ('null',) or n in nulls:
                        return i, 'accesses memory through the null %s' % (n or 'pointer')
                elif i.op in ('call', 'invoke'):
                    cl = i.get('callee') or ''
                    if cl.startswith('llvm.') and 'mem' not in cl or cl in ('free', '_ZdlPv', '_ZdlPvm') or cl.startswith('lhf'):
                        continue
                    for o in i.ops:
                        v = sf.value(o) if sf.isptr(o) else None
                        if v in nulls:
                            return i, 'passes the null %s on' % v
                        if v == 0 and isinstance(o, str) and o != 'null' and HIFCALL.search(i.get('cdem') or ''):
                            return i, 'passes a null pointer to the core'
        return None

    def null(self, name, what, env, nulls, want, facts=(), out=()):
        """out: names that may be written"""
        rule = 'null'
        what = '%s, %s' % (name, what)
        sf = self.cf(name, env, facts)
        d = self.derefs(sf, nulls)
        if d:
            self.rep.bad(rule, what, d[1], d[0].loc)
            return 1
        cs = self.core(sf, name, what, rule)
        if cs:
            self.rep.bad(rule, what, 'the operation is performed', cs[0][3].loc)
            return 1
        for nm, off, v, s, u in sf.outstores():
            if nm is None or nm not in out:
                if nm is None:
                    self.rep.und(rule, what, 'a store is not resolved')
                else:
                    self.rep.bad(rule, what, 'writes %s' % nm, s.loc)
                return 1
        if self.status(rule, what, sf, want):
            self.rep.ok(rule, what, 'gives %s' % want)
        return 1

    def check_null(self):
        n = 0
        for name in self.fs:
            fam, kind = split(name)
            if kind in ('Setup', 'Update', 'Refactorize', 'Solve', 'Apply'):
                n += self.null(name, 'no handle', {'hif': 0, 'hif.M': 0, 'hif.A': 0}, {'hif'}, NULLOBJ)
            elif kind == 'GetStats':
                n += self.null(name, 'no handle', {'hif': 0}, {'hif'}, OK, out=('stats',))
            elif kind in ('GetNnz', 'GetLevels', 'GetSchurSize', 'GetSchurRank'):
                n += self.null(name, 'no handle', {'hif': 0}, {'hif'}, 0)
            elif kind == 'Destroy':
                n += self.null(name, 'no handle', {'hif': 0}, {'hif'}, OK)
            elif kind in ('WrapMatrix', 'ReadSparse'):
                n += self.null(name, 'no matrix', {'mat': 0}, {'mat'}, NULLOBJ, [({'n': 1}, 1, INF)])
            elif kind in ('GetMatrixSize', 'GetMatrixNnz'):
                n += self.null(name, 'no matrix', {'mat': 0}, {'mat'}, 0)
                if kind == 'GetMatrixNnz':
                    n += self.null(name, 'empty matrix', {'mat.indptr': 0, 'mat.n': 0}, {'mat.indptr'}, 0)
            elif kind == 'DestroyMatrix':
                n += self.null(name, 'no matrix', {'mat': 0}, {'mat'}, OK)
            if kind == 'Setup':
                own = tuple(['hif'])
                n += self.null(name, 'no matrices', {'A': 0, 'S': 0}, {'A', 'S'}, NULLOBJ, out=own)
                n += self.null(name, 'A empty', {'S': 0, 'A.indptr': 0, 'A.indices': 0, 'A.vals': 0}, {'S', 'A.indptr'}, NULLOBJ, out=own)
                n += self.null(name, 'S empty', {'S.indptr': 0, 'S.indices': 0, 'S.vals': 0}, {'S.indptr'}, NULLOBJ, out=own)
            elif kind == 'Refactorize':
                n += self.null(name, 'no matrix', {'S': 0}, {'S'}, NULLOBJ)
                n += self.null(name, 'empty matrix', {'S.indptr': 0, 'S.indices': 0, 'S.vals': 0}, {'S.indptr'}, NULLOBJ)
            elif kind == 'Apply':
                m = 'hif.Ax' if fam in MIX else 'hif.A'
                for op in (0, 1):
                    for rank in (-2, 3):
                        e = {'op': op, 'nirs': 2, 'rank': rank}
                        n += self.null(name, 'op %d, rank %d, no matrix to refine with' % (op, rank), dict(e, **{m: 0}), {m}, NULLOBJ)
                        n += self.null(name, 'op %d, rank %d, an empty matrix to refine with' % (op, rank),
                                       dict(e, **{m + '.indptr': 0, m + '.indices': 0, m + '.vals': 0, m + '.n': 0}), {m + '.indptr'}, NULLOBJ)
            elif kind == 'Create':
                n += self.null(name, 'out of memory for the handle', {'new': 0}, {'new'}, 0)
        return n

    # ---- P18
    def check_escape(self, E, peh):
        rule = 'escape'
        eh = handles(peh)
        n = 0
        for name in sorted(eh):
            n += 1
            ef = E.of(name)
            if not ef:
                self.rep.ok(rule, name, 'no exception leaves it')
                continue
            bad = None
            for emp in (True, False):
                sf = EhF(eh[name], emp)
                x = escaping(sf, E)
                if x:
                    bad = x
                    break
            if bad is None:
                self.rep.ok(rule, name, 'the throwing calls are not reached (empty object, constant index)')
            else:
                i, t = bad
                self.rep.bad(rule, name, '%s can leave it: %s' % ('std::terminate' if t == 'std::terminate' else 'an exception', E.chain(name, t if (name, t) in E.why else sorted(ef)[0])), i.loc)
        return n

    def check_report(self, peh):
        rule = 'report'
        eh = handles(peh)
        n = 0
        for name in sorted(eh):
            f = eh[name]
            rets = [b for b in f.blocks if f.blocks[b] and f.blocks[b][-1].op == 'ret']
            canret = set()
            st = list(rets)
            pred = {}
            for b, ss in f.succ.items():
                for s in ss:
                    pred.setdefault(s, []).append(b)
            while st:
                b = st.pop()
                if b in canret:
                    continue
                canret.add(b)
                st += pred.get(b, [])
            for h in f.blocks:
                cs = [i for i in f.blocks[h] if i.get('callee') == '__cxa_begin_catch']
                if not cs or h not in canret:
                    continue
                if any(h != g and f.dom(g, h) for g in f.blocks if any(i.get('callee') == '__cxa_begin_catch' for i in f.blocks[g])):
                    continue            # nested: the enclosing handler gives the value
                n += 1
                cl = self.clauses(f, cs[0].ops[0])
                what = '%s handler %s' % (name, '/'.join(sorted(cl)) or '?')
                region = {b for b in f.blocks if f.dom(h, b)}
                vals = set()
                for r in rets:
                    t = f.blocks[r][-1]
                    if t.ops:
                        vals |= self.flows(f, t.ops[0], region, r in region)
                if not vals:            # a value made by the handler and tested afterwards
                    vals = {o for b in f.blocks if b not in region for i in f.blocks[b] if i.op == 'phi'
                            for o, fr in zip(i.ops, i.get('from')) if fr in region}
                good = True
                if not vals:
                    self.rep.und(rule, what, 'the returned value is not recognised')
                    continue
                # a handler nested in another one ends in the value of the outer
                for v in vals:
                    if v == 'null' or v == 'c:%d' % HIFERR:
                        continue
                    if v.startswith('c:') or v in ('a0', 'a1'):
                        self.rep.bad(rule, what, 'a caught exception is reported as %s' % v[2:], cs[0].loc)
                        good = False
                    else:
                        self.rep.und(rule, what, 'the returned value %s is not recognised' % v)
                        good = False
                if good and '*' not in cl:
                    sv = [i for b in region for i in f.blocks[b] if i.op in ('call', 'invoke') and i.ops and 'error_msgs' in str(i.ops[0])
                          and len(i.ops) > 1 and self.from_exc(f, i.ops[1], cs[0].id)]
                    if not sv:
                        self.rep.bad(rule, what, 'the message of the exception is not saved', cs[0].loc)
                        good = False
                    elif not any(self.cuts(f, h, rets, i.blk) for i in sv):
                        self.rep.bad(rule, what, 'the message of the exception is saved on some paths only', sv[0].loc)
                        good = False
                if good:
                    self.rep.ok(rule, what, 'error status, message saved')
        return n

    def cuts(self, f, h, rets, blk):
        """every path from h to a return goes through blk"""
        if h == blk:
            return True
        seen, st = set(), [h]
        while st:
            b = st.pop()
            if b in seen or b == blk:
                continue
            seen.add(b)
            if b in rets:
                return False
            st += f.succ[b]
        return True

    def from_exc(self, f, v, exc):
        """v results from an indirect call on the caught object"""
        i = f.ins.get(v)
        return i is not None and i.op in ('call', 'invoke') and not i.get('callee') and i.ops and i.ops[0] == exc

    def clauses(self, f, v, seen=None):
        seen = seen or set()
        if v in seen or v not in f.ins:
            return set()
        seen.add(v)
        i = f.ins[v]
        if i.op == 'landingpad':
            return {'*' if o == 'null' else str(o).split(':')[-1] for o in i.ops} or {'*'}
        r = set()
        for o in i.ops:
            if isinstance(o, str) and o.startswith('%'):
                r |= self.clauses(f, o, seen)
        return r

    def flows(self, f, v, region, inside, seen=None):
        """values of v that arrive from the region"""
        seen = seen if seen is not None else set()
        if v.startswith('%') and f.ins[v].op == 'phi':
            if (v, inside) in seen:
                return set()
            seen.add((v, inside))
            r = set()
            i = f.ins[v]
            for o, fr in zip(i.ops, i.get('from')):
                fin = fr in region
                if o.startswith('%') and f.ins[o].op == 'phi':
                    r |= self.flows(f, o, region, inside or fin, seen)
                elif inside or fin:
                    r.add(o)
            return r
        if inside or not v.startswith('%'):
            return {v}
        return set()


class EhF(SFunc):
    """exported function with exception edges; the preconditioner is empty or not"""

    def __init__(self, f, empty):
        self.isempty = empty
        SFunc.__init__(self, f, {'\0': 0}, [], truth=EhF.tf)

    def tf(self, i):
        if i.op in ('call', 'invoke') and re.match(r'.*std::(__cxx11::)?list<hif::Prec<.*>::empty\(\)', i.get('cdem') or ''):
            return self.isempty
        return None


def escaping(sf, E):
    """a reachable call whose exceptions no handler of this function takes: (instruction, type)"""
    for b in sf.rpo():
        for i in sf.blocks[b]:
            if i.op == 'resume':
                continue
            if i.op not in ('call', 'invoke'):
                continue
            c = i.get('callee')
            if not c or c.startswith('llvm.') or c in ('__cxa_begin_catch', '__cxa_end_catch', '_ZSt9terminatev', '__clang_call_terminate'):
                continue
            ef = E.of(c)
            if not ef:
                continue
            cl = []
            if i.op == 'invoke':
                pad = sf.base.succ[b][1]
                lp = [x for x in sf.base.blocks[pad] if x.op == 'landingpad']
                cl = [None if o == 'null' else str(o).split(':')[-1] for o in lp[0].ops] if lp else []
                if any(x.get('callee') in ('_ZSt9terminatev', '__clang_call_terminate') for x in sf.base.blocks[pad]):
                    return i, 'std::terminate'
            for t in sorted(ef):
                if not E.caught(t, cl):
                    return i, t
    return None
