"""Factorization kernels (level_factorize, pivot_level_factorize, symm_level_factorize).

Three analyses over the lowered kernels:
  flow()   value origins of the thresholds, limits and sizes that reach each factor            (P10)
  roles()  what is recorded for a level, and that the inverses are not stale when recorded      (P11)
  search() path-sensitive typestate of one elimination step: test, defer, accept, store         (P24)
"""
import re
from ir import Undecided, Lin


class Bad(Exception):
    def __init__(self, msg, ins=None):
        Exception.__init__(self, msg)
        self.ins = ins


PURE = {'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'add', 'sub', 'mul', 'udiv', 'sdiv',
        'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'sext', 'zext', 'trunc', 'freeze', 'bitcast', 'extractvalue', 'insertvalue', 'extractelement',
        'insertelement', 'shufflevector', 'select', 'phi', 'urem', 'srem'}
MATH = re.compile(r'^(llvm\.(fabs|sqrt|ceil|floor|pow|powi|maxnum|minnum|fmuladd|umax|umin|smax|smin|copysign|fma|ldexp)|hypotf?$|cabsf?$|pow[fl]?$|sqrt[fl]?$|cbrt[fl]?$|'
                  r'ceil[fl]?$|__(mul|div)[sdx]c3|fmax|fmin|fabs[fl]?$|exp|ldexp|log|_ZSt4hypot|_ZSt3abs)')


def short(dem):
    return re.sub(r'^.*?hif::', '', dem)[:100]


class K:
    """one lowered kernel with the roles of its objects resolved"""

    def __init__(self, f):
        self.f = f
        self.calls = []
        for b in f.blocks:
            for i in f.blocks[b]:
                if i.op in ('call', 'invoke') and i.get('cdem'):
                    self.calls.append(i)
        self.argn = {}
        for k, a in enumerate(f.args):
            self.argn[a.get('var') or a.get('name')] = 'a%d' % k
        self.kind = 'symm' if 'symm_level_factorize' in f.dem.split('(')[0] else 'pivot' if 'pivot_level_factorize' in f.dem.split('(')[0] else \
            'lead' if 'level_factorize<true' in f.dem else 'plain'
        self.name = {'symm': 'symm_level_factorize', 'pivot': 'pivot_level_factorize', 'lead': 'level_factorize<true>', 'plain': 'level_factorize<false>'}[self.kind]
        self.opts = self.argn.get('opts')
        self.rs = self.argn.get('row_sizes')
        self.cs = self.argn.get('col_sizes')
        self._sl = {}
        self.fac = {}
        e = self.of(r'do_preprocessing<')
        if not e or any([self.base(x) for x in i.ops[5:9]] != [self.base(x) for x in e[0].ops[5:9]] for i in e) or len(e[0].ops) != 9:
            raise Undecided('preprocessing call not recognised in ' + self.name)
        self.s, self.t, self.p, self.q = [self.base(x) for x in e[0].ops[5:9]]
        if self.p == self.q or self.s == self.t:
            raise Bad('one object serves as row and column ' + ('permutation' if self.p == self.q else 'scaling'), e[0])
        self.emp = self.of(r'vector<.*::emplace_back<')
        if len(self.emp) != 1 or len(self.emp[0].ops) != 14:
            raise Undecided('the level is not recorded by one emplace_back in ' + self.name)
        self.emp = self.emp[0]
        self.d = self.base(self.emp.ops[4])
        # matrices under construction
        self.mats = {}
        for i in self.of(r'::push_back_(row|col)<'):
            m = re.search(r'push_back_(row|col)<', i.get('cdem'))
            side = 'U' if m.group(1) == 'row' else 'L'
            x = self.base(i.ops[0])
            if self.mats.setdefault(side, x) != x:
                raise Undecided('two matrices are filled as ' + side)
        if 'L' not in self.mats:
            raise Undecided('no matrix is filled in ' + self.name)
        self.rmats = {v: k for k, v in self.mats.items()}
        ks = self.of(r'::update_kappa<')
        if not ks:
            raise Undecided('no estimate is updated in ' + self.name)
        self.step = self.base(ks[0].ops[0])
        self.kap = {}          # estimate array -> sides it estimates
        self.kup = {}          # call id -> (side, array)
        for i in ks:
            if self.base(i.ops[0]) != self.step:
                raise Undecided('two step objects')
            x = self.base(i.ops[1])
            arr = self.base(i.ops[4] if len(i.ops) == 5 else i.ops[2])
            side = self.rmats.get(x)
            if side is None:
                raise Bad('update_kappa works on an object that is not a factor being built', i)
            self.kap.setdefault(arr, set()).add(side)
            self.kup[i.id] = (side, arr)
        for side in self.mats:
            if self.kind != 'lead' and not any(side in v for v in self.kap.values()):
                raise Bad('no condition estimate of %s is computed' % side, self.of(r'::push_back_(row|col)<')[0])
        # arrays that receive a copy of an estimate
        ch = True
        self.kcopy = {}
        while ch:
            ch = False
            for e, w in self.copies():
                if e[0] in self.kap and e[0] not in self.kcopy or e[1] != 0:
                    continue
                if w[0] in self.kap and w[0] != e[0] and not (self.kap[w[0]] <= self.kap.get(e[0], set())):
                    self.kap.setdefault(e[0], set()).update(self.kap[w[0]])
                    self.kcopy[e[0]] = w[0]
                    ch = True
        blk = [i.blk for i in self.of(r'::push_back_(row|col)<')]
        ch = None
        for b in blk:
            c = f.loop_chain(b)
            if not c:
                raise Undecided('no elimination loop in ' + self.name)
            ch = c[0] if ch is None else ch
            if c[0] != ch:
                raise Undecided('several elimination loops')
        self.main = ch
        self.mblocks = {b for b in f.blocks if f.in_loop(b, ch)}
        self.header = f.loops[ch].get('header')
        if self.header is None:
            self.header = min(self.mblocks, key=lambda b: f.rpo().index(b))

    def of(self, rx):
        r = re.compile(rx)
        return [i for i in self.calls if r.search(i.get('cdem').split('(')[0])]

    def base(self, v):
        """object identity of a pointer: alloca id, 'aN' or (object, offset)"""
        root, off = self.f.addr(v)
        if root[0] == 'alloca':
            o = root[1]
        elif root[0] == 'arg':
            o = 'a%d' % root[1]
        elif root[0] == 'call':
            # accessor returning a reference into its object (select_crs / select_ccs of the counterpart)
            return ('ret', root[1])
        else:
            return ('?', repr(root))
        if off.is_const() and off.c == 0:
            return o
        if off.is_const():
            return (o, off.c)
        return ('?', repr(root))

    def elem(self, ptr):
        """(object, header offset, index Lin in bytes) of an element pointer of an Array-like object"""
        try:
            root, off = self.f.addr(ptr)
        except Undecided:
            return None
        if root[0] == 'ld' and isinstance(root[1], tuple) and root[1][0] in ('alloca', 'arg'):
            h = root[2]
            if h[0] == 'lin' and not h[2]:
                o = root[1][1] if root[1][0] == 'alloca' else 'a%d' % root[1][1]
                return (o, h[1], off)
        if root[0] == 'arg' or root[0] == 'alloca':
            return None
        return None

    def copies(self):
        """(destination element, source element) of every direct element copy"""
        if not hasattr(self, '_cp'):
            self._cp = []
            for i in self.f.ins.values():
                if i.op == 'store':
                    v = self.f.ins.get(i.ops[0])
                    if v is None or v.op != 'load':
                        continue
                    a, b = i.ops[1], v.ops[0]
                elif i.op == 'call' and (i.get('callee') or '').startswith('llvm.memcpy'):
                    a, b = i.ops[0], i.ops[1]
                else:
                    continue
                e, w = self.elem(a), self.elem(b)
                if e and w:
                    self._cp.append((e, w))
        return self._cp

    def idxval(self, ptr):
        """the value used as index when the address is base + one variable"""
        out = []
        v = ptr
        for _ in range(6):
            i = self.f.ins.get(v)
            if i is None or i.op != 'getelementptr':
                break
            out += [x for x, _ in i.get('var', [])]
            v = i.get('base')
        return out

    # ---- data slices
    def slice(self, v, blocks=None):
        """atoms a value is computed from: ('opt', field), ('el', object, header offset), ('call', name)"""
        key = (v, None if blocks is None else id(blocks))
        if key in self._sl:
            return self._sl[key]
        f = self.f
        out, seen, st = set(), set(), [v]
        while st:
            x = st.pop()
            if x in seen or not x or x[0] not in '%a' or (x[0] == 'a' and not x[1:].isdigit()):
                continue
            seen.add(x)
            if x[0] == 'a':
                out.add(('arg', x))
                continue
            i = f.ins.get(x)
            if i is None:
                continue
            if i.op == 'load':
                try:
                    root, off = f.addr(i.ops[0])
                except Undecided:
                    out.add(('?',))
                    continue
                if root[0] == 'arg':
                    n = f.field_of(root, off.c) if off.is_const() else None
                    if 'a%d' % root[1] == self.opts and n:
                        out.add(('opt', n.split('.', 1)[-1]))
                    else:
                        out.add(('field', 'a%d' % root[1], n))
                    continue
                e = self.elem(i.ops[0])
                if e:
                    out.add(('el', e[0], e[1]))
                    st += self.idxval(i.ops[0])
                    continue
                if root[0] == 'alloca':
                    ss = [s for s, o in f.alloca_stores(root) if o == off or not o.is_const() or not off.is_const()]
                    out.add(('slot', root[1], off.c if off.is_const() else None))
                    if root[1] != self.step:
                        st += [s.ops[0] for s in ss]
                    continue
                out.add(('?',))
            elif i.op in PURE:
                st += [o for o in (i.ops[1:] if i.op == 'select' else i.ops)]
            elif i.op in ('call', 'invoke'):
                n = i.get('callee') or ''
                if MATH.search(n):
                    st += i.ops
                else:
                    out.add(('call', i.id))
            elif i.op in ('icmp', 'fcmp'):
                pass
            else:
                out.add(('?',))
        self._sl[key] = out
        return out

    def opts_of(self, v):
        return {a[1] for a in self.slice(v) if a[0] == 'opt'}

    def els_of(self, v):
        return {(a[1], a[2]) for a in self.slice(v) if a[0] == 'el'}

    # ---- accesses
    def stores_to(self, obj, hoff=0):
        for i in self.f.ins.values():
            if i.op == 'store':
                e = self.elem(i.ops[1])
                if e and e[0] == obj and e[1] == hoff:
                    yield i, e

    def kappa_sides(self, els):
        r = set()
        for o, h in els:
            if o in self.kap and h == 0:
                r |= self.kap[o]
        return r


# ------------------------------------------------------------------------------------------------ P10
def nm(k, o):
    if o == k.rs:
        return 'row_sizes'
    if o == k.cs:
        return 'col_sizes'
    for n in 'dstpq':
        if getattr(k, n) == o:
            return n
    return str(o)


def flow(k):
    """obligations of P10: list of (label, problem or None, instruction)"""
    out = []
    f = k.f

    def ob(label, ok, msg, ins):
        out.append((label, None if ok else msg, ins))
    par = {'U': dict(tau='tau_U', alpha='alpha_U', size=k.rs, perm=k.p, sn='row_sizes', pn='p'),
           'L': dict(tau='tau_L', alpha='alpha_L', size=k.cs if k.cs else k.rs, perm=k.q if k.cs else k.p, sn='col_sizes' if k.cs else 'row_sizes', pn='q' if k.cs else 'p')}
    # which sparse vector becomes which factor: last argument of the insertion
    vecs = {}
    pushes = k.of(r'::push_back_(row|col)<')
    for i in pushes:
        side = 'U' if 'push_back_row<' in i.get('cdem').split('(')[0] else 'L'
        vecs.setdefault(side, set()).add(vecobj(k, i.ops[-1]))
    for side, vs in vecs.items():
        if len(vs) != 1 or None in vs:
            raise Undecided('the vector stored in %s is not resolved' % side)
        vecs[side] = vs.pop()
    if len(set(vecs.values())) != len(vecs):
        raise Bad('one vector is stored as a row of U and a column of L', pushes[0])
    rv = {v: s for s, v in vecs.items()}
    for i in k.of(r'apply_num_dropping<'):
        v = vecobj(k, i.ops[2])
        side = rv.get(v)
        if side is None:
            raise Undecided('num dropping on an unknown vector')
        o = k.opts_of(i.ops[0])
        ob('%s: drop tolerance' % side, o == {par[side]['tau']}, 'entries of %s are dropped with %s instead of %s' % (side, '/'.join(sorted(o)) or 'a value that is no option', par[side]['tau']), i)
        o = k.opts_of(i.ops[1])
        ob('%s: tolerance divided by kappa_d' % side, o == {'kappa_d'}, 'the tolerance of %s is scaled by %s instead of kappa_d' % (side, '/'.join(sorted(o)) or 'no option'), i)
        ks = k.kappa_sides(k.els_of(i.ops[1]))
        pr = product(k, i.ops[1])
        if pr is not None:
            ob('%s: tolerance divided by the estimate times kappa_d' % side, pr == '', pr, i)
        want = {side} if any(side in s for s in k.kap.values()) else {'U'}
        ob('%s: own condition estimate' % side, ks == want, 'the tolerance of %s is scaled by the estimate of %s' % (side, '/'.join(sorted(ks)) or 'no factor'), i)
    for i in k.of(r'apply_space_dropping<'):
        v = vecobj(k, i.ops[2])
        side = rv.get(v)
        if side is None:
            raise Undecided('space dropping on an unknown vector')
        o = k.opts_of(i.ops[1])
        ob('%s: fill factor' % side, o == {par[side]['alpha']}, 'the size of %s is limited by %s instead of %s' % (side, '/'.join(sorted(o)) or 'a value that is no option', par[side]['alpha']), i)
        st = startsize(k, i)
        if st is not None:
            ob('%s: entries already stored' % side, st == '', st, i)
        els = k.els_of(i.ops[0])
        sz = {e for e in els if e[0] in (k.rs, k.cs)}
        ob('%s: reference size' % side, sz == {(par[side]['size'], 0)}, 'the size of %s refers to %s instead of %s' % (side, '/'.join(nm(k, e[0]) for e in sz) or 'no sizes of the input', par[side]['sn']), i)
        pm = {e[0] for e in els if e[0] in (k.p, k.q)}
        ob('%s: size of the eliminated row or column' % side, pm == {par[side]['perm']} and (par[side]['perm'], 0) in els, 'the reference size of %s is looked up through %s instead of %s' % (side, '/'.join(nm(k, e) for e in pm) or 'no permutation', par[side]['pn']), i)
    # every stored vector is dropped in between: dominance inside the step
    for i in pushes:
        side = 'U' if 'push_back_row<' in i.get('cdem').split('(')[0] else 'L'
        for what, rx in (('numerical dropping', r'apply_num_dropping<'), ('space-based dropping', r'apply_space_dropping<')):
            ds = [c for c in k.of(rx) if vecobj(k, c.ops[2]) == vecs[side]]
            ok = between(k, ds, i)
            ob('%s: %s before it is stored' % (side, what), ok, 'a path stores a vector in %s without %s' % (side, what), i)
    # comparisons of the step
    for i in f.ins.values():
        if i.op != 'fcmp' or i.blk not in k.mblocks:
            continue
        a, b = i.ops
        for x, y in ((a, b), (b, a)):
            e = k.els_of(x) if x[0] == '%' else set()
            o = k.opts_of(y) if y[0] == '%' else set()
            if not o:
                continue
            if k.kappa_sides(e):
                ob('estimate of %s compared with kappa' % '/'.join(sorted(k.kappa_sides(e))), o == {'kappa'}, 'a condition estimate is compared with %s instead of kappa' % '/'.join(sorted(o)), i)
            elif (k.d, 0) in e:
                ob('pivot compared with kappa_d', o == {'kappa_d'}, 'a pivot is compared with %s instead of kappa_d' % '/'.join(sorted(o)), i)
    # off-diagonal factors and the sizes of the next level
    for rx, side, arg in ((r'drop_L_E<', 'L', 0), (r'drop_U_F<', 'U', 0)):
        for i in k.of(rx):
            offdiag(k, ob, i, side, i.ops[0], i.ops[1], i.ops[2])
    for i in k.of(r'drop_L_E_and_U_F<'):
        offdiag(k, ob, i, 'L', i.ops[0], i.ops[1], i.ops[4])
        offdiag(k, ob, i, 'U', i.ops[2], i.ops[3], i.ops[5])
    for arr, other, perm in ((k.rs, k.cs, k.p), (k.cs, k.rs, k.q)):
        if not arr:
            continue
        for i, e in k.stores_to(arr):
            els = closure(k, i.ops[0])
            if not els:
                continue
            src = {x for x in els if x in (k.rs, k.cs)}
            pm = {x for x in els if x in (k.p, k.q)}
            sh = shifted(k, i, e)
            if sh is not None:
                ob('%s of the next level: positions' % nm(k, arr), not sh, sh, i)
            ob('%s of the next level' % nm(k, arr), src == {arr} and pm == {perm}, '%s of the next level is taken from %s through %s' % (nm(k, arr), '/'.join(nm(k, x) for x in src) or 'neither size array', '/'.join(nm(k, x) for x in pm) or 'no permutation'), i)
    return out


def product(k, v):
    """'' when v is |estimate| * kappa_d, a description of what it is instead, or None"""
    i = k.f.ins.get(v)
    while i is not None and i.op in ('fpext', 'fptrunc', 'freeze'):
        i = k.f.ins.get(i.ops[0])
    if i is None:
        return None
    est = [bool(k.kappa_sides(k.els_of(o))) if o[0] == '%' else False for o in i.ops]
    opt = [k.opts_of(o) == {'kappa_d'} if o[0] == '%' else False for o in i.ops]
    if i.op not in ('fmul', 'fdiv', 'fadd', 'fsub') or sorted(est) != [False, True] or [not e for e in est] != opt:
        return None
    if i.op != 'fmul':
        return 'the tolerance is divided by the estimate %s kappa_d instead of their product' % {'fdiv': 'over', 'fadd': 'plus', 'fsub': 'minus'}[i.op]
    j = k.f.ins.get(i.ops[est.index(True)])
    while j is not None and j.op in ('fpext', 'fptrunc', 'freeze'):
        j = k.f.ins.get(j.ops[0])
    if j is not None and j.op == 'load':
        return 'the tolerance is divided by the signed estimate'
    return '' if j is not None and j.op in ('call', 'invoke') else None


def startsize(k, i):
    """number of stored entries handed to the limitation: none, or the entries before the offsets of a sorted row"""
    f = k.f
    v = i.ops[3] if len(i.ops) > 3 else 'c:0'
    if v == 'c:0':
        return ''
    if v.startswith('c:'):
        return 'the limit counts %s entries as stored already' % v[2:]
    try:
        l = f.lin(v)
    except Undecided:
        return None
    return '' if l.c == 0 else 'the number of entries stored already is off by %+d' % l.c if l.c % 4 else None


def conds_of(k, b, edge=None):
    """(condition, value) pairs that hold in block b, or on an edge (a, b)"""
    f = k.f
    out = []

    def add(a, s):
        br = f.blocks[a][-1]
        if br.op == 'br' and len(f.succ[a]) == 2 and br.ops and f.succ[a][0] != f.succ[a][1]:
            out.append((br.ops[0], f.succ[a][0] == s))
    if edge:
        add(*edge)
        b = edge[0]
    for a in f.blocks:
        for s in set(f.succ[a]):
            if len(set(f.pred[s])) == 1 and f.dom(s, b):
                add(a, s)
    return out


def factors(k, v, cs=(), depth=0):
    """[(constant factor, conditions)] of a value that is an option times constants"""
    f = k.f
    i = f.ins.get(v)
    if i is None or depth > 12:
        raise Undecided('fill factor')
    if i.op == 'load':
        return [(1.0, list(cs) + conds_of(k, i.blk))]
    if i.op in ('freeze', 'fpext', 'fptrunc'):
        return factors(k, i.ops[0], cs, depth + 1)
    if i.op == 'fmul':
        c = [o for o in i.ops if o.startswith('d:')]
        if len(c) != 1:
            raise Undecided('fill factor')
        r = [o for o in i.ops if o != c[0]][0]
        return [(x * float(c[0][2:]), q + conds_of(k, i.blk)) for x, q in factors(k, r, cs, depth + 1)]
    if i.op == 'fadd' and i.ops[0] == i.ops[1]:
        return [(2 * x, q + conds_of(k, i.blk)) for x, q in factors(k, i.ops[0], cs, depth + 1)]
    if i.op == 'select':
        return factors(k, i.ops[1], list(cs) + [(i.ops[0], True)], depth + 1) + factors(k, i.ops[2], list(cs) + [(i.ops[0], False)], depth + 1)
    if i.op == 'phi':
        out = []
        for o, b in zip(i.ops, i.get('from')):
            b = int(str(b).lstrip('b'))
            out += factors(k, o, list(cs) + conds_of(k, b, (b, i.blk)), depth + 1)
        return out
    raise Undecided('fill factor')


def atoms_of(k, v, val):
    i = k.f.ins.get(v)
    if i is None:
        return []
    if i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
        return atoms_of(k, i.ops[0], not val)
    if i.op in ('freeze', 'zext', 'trunc'):
        return atoms_of(k, i.ops[0], val)
    if i.op == 'and' and val or i.op == 'or' and not val:
        return atoms_of(k, i.ops[0], val) + atoms_of(k, i.ops[1], val)
    if i.op == 'select' and val and i.ops[2] == 'c:0':
        return atoms_of(k, i.ops[0], val) + atoms_of(k, i.ops[1], val)
    if i.op == 'select' and not val and i.ops[1] in ('c:1', 'c:-1'):
        return atoms_of(k, i.ops[0], val) + atoms_of(k, i.ops[2], val)
    return [(i, val)]


def doubled(k, v):
    """(base factor, '' or problem) of the fill factor of an off-diagonal block: doubled exactly on the first level on request"""
    fs = factors(k, v)
    base = min(x for x, _ in fs)
    if {x for x, _ in fs} - {base, 2 * base}:
        return base, 'the fill factor is multiplied by %s instead of doubled' % '/'.join('%g' % (x / base) for x in sorted({x for x, _ in fs} - {base}))
    if not any(x == 2 * base for x, _ in fs):
        return base, 'the fill factor is never doubled on request'
    for x, cs in fs:
        if x == base:
            continue
        at = [a for c, val in cs for a in atoms_of(k, c, val)]
        fat = [(i, val) for i, val in at if i.op == 'icmp' and 'fat_schur_1st' in {n for o in i.ops if o[0] == '%' for n in k.opts_of(o)}]
        lvl = [(i, val) for i, val in at if i.op == 'icmp' and i not in [f[0] for f in fat] and any(y[0] == 'field' and str(y[2]).startswith('precs') for o in i.ops if o[0] == '%' for y in k.slice(o))]
        if not fat:
            return base, 'the fill factor is doubled without request'
        if not any(i.get('pred') == 'ne' and val or i.get('pred') == 'eq' and not val for i, val in fat):
            if all(i.get('pred') in ('ne', 'eq') and 'c:0' in i.ops for i, val in fat):
                return base, 'the fill factor is doubled unless requested'
            raise Undecided('request of the doubled fill factor')
        if not lvl:
            return base, 'the fill factor is doubled on every level'
        if not any(i.get('pred') == 'eq' and val or i.get('pred') == 'ne' and not val for i, val in lvl):
            if all(i.get('pred') in ('ne', 'eq') for i, val in lvl):
                return base, 'the fill factor is doubled on every level but one'
            raise Undecided('level of the doubled fill factor')
    return base, ''


def closure(k, v):
    """objects whose elements reach v, through one intermediate work array written after the elimination"""
    els = {o for o, h in k.els_of(v) if h == 0}
    out = set(els)
    for o in els:
        if o in (k.rs, k.cs, k.p, k.q):
            continue
        for s in latest(k, [s for s, e in k.stores_to(o) if after(k, s)], v):
            out |= {x for x, h in k.els_of(s.ops[0]) if h == 0}
    return out


def latest(k, ss, v):
    """stores not overwritten by a later loop of stores to the same array on the way to v"""
    f = k.f
    i = f.ins.get(v)
    if i is None:
        return ss
    ss = [s for s in ss if f.reaches(s, i)]

    def head(s):
        c = f.loop_chain(s.blk)
        return c[0] if c else None
    out = []
    for s in ss:
        dead = False
        for t in ss:
            a, b = head(s), head(t)
            if b is None or a == b or not f.reaches(s, t) or f.reaches(t, s):
                continue
            h = f.loops[b].get('header')
            if h is not None and f.dom(h, i.blk):
                dead = True
        if not dead:
            out.append(s)
    return out


def shifted(k, i, e):
    """'' when the element stored comes from the same position, shifted by a loop-invariant amount, of a work array that holds sizes at
    the permuted positions; a description of the difference; or None"""
    f = k.f
    ld = f.ins.get(i.ops[0])
    while ld is not None and ld.op in ('sext', 'zext', 'trunc', 'freeze'):
        ld = f.ins.get(ld.ops[0])
    if ld is None or ld.op != 'load':
        return None
    w = k.elem(ld.ops[0])
    c = f.loop_chain(i.blk)
    if not w or not c or w[0] in (k.rs, k.cs):
        return None
    x, y = unit(e[2], c[0]), unit(w[2], c[0])
    if x is None or y is None:
        return None
    if y == x:
        return 'the sizes stay at their old positions'
    if x.t or x.c:
        return 'the sizes of the next level do not start at its first row'
    for s in latest(k, [s for s, _ in k.stores_to(w[0]) if after(k, s)], i.ops[0]):
        ch = f.loop_chain(s.blk)
        q = f.ins.get(s.ops[0])
        while q is not None and q.op in ('sext', 'zext', 'trunc', 'freeze'):
            q = f.ins.get(q.ops[0])
        if q is None or q.op != 'load' or not ch:
            return None
        z = unit(k.elem(s.ops[1])[2], ch[0])
        for ix in k.idxval(q.ops[0]):
            g = f.ins.get(ix)
            while g is not None and g.op in ('sext', 'zext', 'trunc', 'freeze'):
                g = f.ins.get(g.ops[0])
            if g is None or g.op != 'load':
                return None
            u = k.elem(g.ops[0])
            if not u or u[0] not in (k.p, k.q):
                return None
            u = unit(u[2], ch[0])
            if u is None or z is None:
                return None
            if u != z:
                return 'the work array holds the sizes at other positions'
            if z != y:
                return 'the sizes copied start at another position than those collected'
    return ''


def unit(l, L):
    """index of the first iteration of loop L, from a byte offset that advances by one element in each iteration"""
    a = ('it', L)
    w = l.t.get(a)
    if not w or w < 0 or l.c % w or any(x % w for x in l.t.values()):
        return None
    r = Lin(l.c // w)
    for q, x in l.t.items():
        if q != a:
            if isinstance(q, tuple) and q[0] == 'ld':
                q = q[:-1] + (None,)       # the local scalar, whenever it is read
            r = r + Lin.atom(q, x // w)
    return r


def after(k, i):
    """instruction lies after the elimination loop"""
    f = k.f
    return i.blk not in k.mblocks and i.blk in f.reach(k.header) and k.header not in f.reach(i.blk)


def offdiag(k, ob, i, side, arr, alpha, mat):
    o = k.opts_of(alpha)
    want = 'alpha_' + side
    ob('%s off-diagonal block: fill factor' % side, o == {want}, 'the off-diagonal block of %s is limited by %s instead of %s' % (side, '/'.join(sorted(o)) or 'no option', want), i)
    try:
        base, msg = doubled(k, alpha)
        if not msg and k.fac.setdefault('off-diagonal', base) != base:
            msg = 'the fill factors of the two off-diagonal blocks are scaled by %g and %g' % (k.fac['off-diagonal'], base)
        ob('%s off-diagonal block: doubled on the first level on request' % side, not msg, msg, i)
    except Undecided:
        pass
    a = k.base(arr)
    src, pm = set(), set()
    for s, e in k.stores_to(a):
        if after(k, s) and k.f.reaches(s, i):
            els = {x for x, h in k.els_of(s.ops[0]) if h == 0}
            src |= els & {k.rs, k.cs}
            pm |= els & {k.p, k.q}
    # rows of L_E are rows of the input; columns of U_F are columns of the input
    wa, wp = (k.rs, k.p) if side == 'L' else (k.cs, k.q)
    ob('%s off-diagonal block: reference sizes' % side, src == {wa} and pm == {wp}, 'the off-diagonal block of %s is limited by the sizes %s through %s' % (side, '/'.join(nm(k, x) for x in src) or 'of nothing', '/'.join(nm(k, x) for x in pm) or 'no permutation'), i)
    org = origin(k, mat)
    f = k.rmats.get(org)
    if f is None:
        raise Undecided('origin of the off-diagonal block')
    ob('%s off-diagonal block: matrix' % side, f == side, 'the block limited by %s comes from %s' % (want, f), i)


def vecobj(k, v):
    b = k.base(v)
    return b if isinstance(b, str) else b[0] if b[0] not in ('?', 'ret') else None


def between(k, ds, push):
    """every path from the loop header to push passes one of ds"""
    f = k.f
    if any(f.idominates(d, push) and d.blk in k.mblocks for d in ds):
        return True
    db = {d.blk for d in ds}
    seen, st = set(), [k.header]
    while st:
        b = st.pop()
        if b in seen or b not in k.mblocks:
            continue
        seen.add(b)
        if b in db:
            if b == push.blk and not any(d.pos < push.pos for d in ds if d.blk == b):
                return False
            continue
        if b == push.blk:
            return False
        st += f.succ[b]
    return True


def origin(k, v, depth=0):
    """matrix under construction from which an object was split"""
    b = k.base(v) if v[0] in '%a' else v
    if b in k.rmats:
        return b
    if depth > 6 or not isinstance(b, str):
        return None
    src = set()
    for i in k.calls:
        n = i.get('cdem').split('(')[0]
        if re.search(r'::split(_c[rc]s)?<', n) and k.base(i.ops[0]) == b:
            src.add(k.base(i.ops[1]))
        elif re.search(r'::operator=', n) and k.base(i.ops[0]) == b:
            src.add(k.base(i.ops[1]))
        elif re.search(r'::C[RC]S$', n) and len(i.ops) >= 2 and i.ops[1][0] in '%a' and k.base(i.ops[0]) == b:
            src.add(k.base(i.ops[1]))
        elif re.search(r'make_transpose<', n) and k.base(i.ops[1]) == b:
            src.add(k.base(i.ops[0]))
    src.discard(b)
    r = {origin(k, s, depth + 1) if isinstance(s, str) else None for s in src}
    return r.pop() if len(r) == 1 else None


# ------------------------------------------------------------------------------------------------ P24
NEGP = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'slt': 'sge', 'ule': 'ugt', 'sle': 'sgt', 'ugt': 'ule', 'sgt': 'sle', 'uge': 'ult', 'sge': 'slt'}
RELS = {'eq': {'eq'}, 'ne': {'lt', 'gt'}, 'ult': {'lt'}, 'slt': {'lt'}, 'ule': {'lt', 'eq'}, 'sle': {'lt', 'eq'}, 'ugt': {'gt'}, 'sgt': {'gt'}, 'uge': {'gt', 'eq'}, 'sge': {'gt', 'eq'}}
SWAP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}
ALLREL = frozenset(('lt', 'eq', 'gt'))


class State:
    __slots__ = ('env', 'fresh', 'ok', 'acc', 'rel', 'ev', 'comp', 'trail', 'spd')

    def __init__(self):
        self.env = {}
        self.fresh = frozenset()
        self.ok = frozenset()
        self.acc = False
        self.rel = ALLREL
        self.spd = frozenset()
        self.ev = frozenset()       # deferral events of the current position
        self.comp = frozenset()     # arrays whose entry was moved to the accepted position
        self.trail = ()

    def copy(self):
        n = State()
        n.env = dict(self.env)
        for a in ('fresh', 'ok', 'acc', 'rel', 'ev', 'comp', 'trail', 'spd'):
            setattr(n, a, getattr(self, a))
        return n

    def key(self):
        return (frozenset(self.env.items()), self.fresh, self.ok, self.acc, self.rel, self.ev, self.comp, self.spd)


class Search:
    def __init__(self, k):
        self.k = k
        self.f = k.f
        self.bad = {}
        self.obs = {}
        self.unclear = set()
        self.pushes = {i.id: ('U' if 'push_back_row<' in i.get('cdem').split('(')[0] else 'L') for i in k.of(r'::push_back_(row|col)<')}
        self.accepts = {i.id for i in k.of(r'Crout(Base)?::compute_(ut|l|symm)\b') if i.blk in k.mblocks}
        self.need = frozenset(s for v in k.kap.values() for s in v) | {'D'}
        if k.kind == 'symm':
            # with a definiteness declared, pivots must have its sign: P unless spd <= 0, N unless spd >= 0
            self.need |= {'P', 'N'}
        self.perms = [k.p] + ([k.q] if k.cs else [])
        self.mslot = self.find_m()
        self.tails = self.find_tails()
        self.comparr = frozenset([k.d] + self.perms)
        self.live = self.liveness()

    def find_m(self):
        """slot of the leading block size: the one that is decremented inside the elimination loop"""
        c = set()
        for i in self.f.ins.values():
            if i.op == 'store' and i.blk in self.k.mblocks:
                r, o = self.f.addr(i.ops[1])
                v = self.f.ins.get(i.ops[0])
                if r[0] == 'alloca' and o.is_const() and v is not None and v.op == 'add' and v.ops[1] == 'c:-1':
                    c.add((r[1], o.c))
        return c.pop() if len(c) == 1 else None

    def find_tails(self):
        """permutation -> array that keeps its deferred entries (read back after the elimination)"""
        r = {}
        k = self.k
        for e, w in self.k.copies():
            pass
        for i in self.f.ins.values():
            if i.op != 'store' or not after(k, i):
                continue
            e = k.elem(i.ops[1])
            if not e or e[1] != 0 or e[0] not in self.perms:
                continue
            w = self.src(i.ops[0])
            if w and w[0] not in (k.p, k.q):
                r.setdefault(e[0], set()).add(w[0])
        return {a: b.pop() for a, b in r.items() if len(b) == 1}

    def src(self, v):
        """element a value was loaded from, through integer conversions"""
        for _ in range(5):
            i = self.f.ins.get(v)
            if i is None:
                return None
            if i.op in ('sext', 'zext', 'trunc', 'freeze'):
                v = i.ops[0]
                continue
            if i.op == 'load':
                return self.k.elem(i.ops[0])
            return None

    def liveness(self):
        """block -> instructions of the loop used in this or later blocks (to keep states small)"""
        f, k = self.f, self.k
        use = {}
        for b in f.blocks:
            u = set()
            for i in f.blocks[b]:
                u.update(o for o in i.ops if o[0] == '%')
                if i.op == 'getelementptr':
                    if i.get('base'):
                        u.add(i.get('base'))
                    u.update(x for x, _ in i.get('var', []))
            use[b] = u
        # values reached through pure chains matter as well
        full = {}
        for b, u in use.items():
            st, seen = list(u), set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                i = f.ins.get(x)
                if i is not None and i.op not in ('phi', 'load'):
                    st += [o for o in i.ops if o[0] == '%']
                    if i.op == 'getelementptr':
                        st += [y for y in [i.get('base')] + [z for z, _ in i.get('var', [])] if y and y[0] == '%']
                elif i is not None and i.op == 'load':
                    st += [o for o in i.ops if o[0] == '%']
            full[b] = seen
        defs = {b: {i.id for i in f.blocks[b]} for b in f.blocks}
        live = {b: full[b] - defs[b] | {i.id for i in f.blocks[b] if i.op == 'phi'} for b in f.blocks}
        for b in f.blocks:
            for i in f.blocks[b]:
                if i.op == 'phi':
                    live[b] |= {o for o in i.ops if o[0] == '%'} - defs[b]
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                n = len(live[b])
                for s in f.succ[b]:
                    live[b] |= live[s] - defs[b]
                if len(live[b]) != n:
                    ch = True
        return live

    # ---- values
    def pos(self, st, off, es_hint=None):
        """element position of a byte offset: ('cur',c) step+defers+c, ('step',c), ('tail',key,c) something+defers+c, or None"""
        step = dfr = 0
        c = off.c
        rest = Lin(0)
        ks = set()
        for a, w in off.t.items():
            tg = self.atag(st, a)
            if tg and tg[0] in ('step', 'defers'):
                if tg[0] == 'step':
                    step += w
                else:
                    dfr += w
                c += w * tg[1]
                ks.add(w)
            else:
                rest = rest + Lin.atom(a, w)
        if len(ks) != 1:
            return None
        w = ks.pop()
        if w <= 0 or step not in (0, w) or dfr not in (0, w):
            return None
        q = c // w
        if not rest.t:
            if step and dfr:
                return ('cur', q)
            if step:
                return ('step', q)
            return ('dfr', q)
        if dfr and not step:
            return ('tail', repr(self.normrest(st, rest, w)), q)
        return None

    def normrest(self, st, rest, w):
        # all sizes are loop invariant here; loads of one slot are one value
        t = []
        for a, x in rest.t.items():
            if isinstance(a, tuple) and a[0] == 'ld':
                a = a[:3]
            t.append((repr(a), x // w if x % w == 0 else x))
        return sorted(t)

    def atag(self, st, a):
        if not isinstance(a, tuple):
            return None
        if a[0] == 'ld' and a[4]:
            return st.env.get(a[4])
        if a[0] in ('phi', 'v', 'call') and isinstance(a[1], str):
            return st.env.get(a[1])
        return None

    def ival(self, st, v):
        """('step',c)/('defers',c)/('m',c) of an integer value, or a position"""
        if v in st.env:
            return st.env[v]
        if v[0] != '%':
            return None
        i = self.f.ins.get(v)
        if i is None:
            return None
        if i.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self.ival(st, i.ops[0])
        if i.op in ('add', 'sub') or i.op == 'or':
            try:
                l = self.f.lin(v)
            except Undecided:
                return None
            if len(l.t) == 1:
                (a, w), = l.t.items()
                t = self.atag(st, a)
                if t and w == 1 and t[0] in ('step', 'defers', 'm'):
                    return (t[0], t[1] + l.c)
            p = self.pos(st, l)
            if p and p[0] in ('cur', 'tail'):
                return p
        return None

    def tags(self, st, v, depth=0):
        """(set of tested things a floating value is computed from, parity of reciprocals) or None"""
        if v in st.env:
            t = st.env[v]
            if t[0] in ('kap', 'dval'):
                return {t}, 0
            return None
        if v[0] == 'd' or v[0] == 'c' or v == 'undef' or v == 'poison':
            return set(), 0
        if v[0] != '%' or depth > 12:
            return None
        i = self.f.ins.get(v)
        if i is None or i.op in ('phi', 'load'):
            return None
        n = i.get('callee') or ''
        if i.op in ('call', 'invoke') and not MATH.search(n):
            return None
        if i.op in ('call', 'invoke') and '__div' in n:
            h = len(i.ops) // 2
            a = [self.tags(st, o, depth + 1) for o in i.ops[:h]]
            b = [self.tags(st, o, depth + 1) for o in i.ops[h:]]
            if None in a or None in b:
                return None
            ta, tb = set().union(*[x[0] for x in a]), set().union(*[x[0] for x in b])
            if ta and tb:
                return None
            par = {x[1] for x in (a if ta else b) if x[0]}
            if len(par) > 1:
                return None
            return ta | tb, ((par.pop() if par else 0) + (1 if tb else 0)) % 2
        if i.op == 'fdiv':
            a, b = self.tags(st, i.ops[0], depth + 1), self.tags(st, i.ops[1], depth + 1)
            if a is None or b is None or a[0] and b[0]:
                return None
            return a[0] | b[0], (b[1] + 1) % 2 if b[0] else a[1]
        if i.op in ('call', 'invoke') or i.op in PURE:
            ts = [self.tags(st, o, depth + 1) for o in i.ops if not (i.op == 'extractvalue' and o != i.ops[0])]
            if None in ts:
                return None
            par = {t[1] for t in ts if t[0]}
            if len(par) > 1:
                return None
            return set().union(*[t[0] for t in ts]) if ts else set(), par.pop() if par else 0
        return None

    def cond(self, st, v):
        """(facts if true, facts if false), or True/False"""
        if v in ('c:1', 'c:-1', 'true'):
            return True
        if v in ('c:0', 'false'):
            return False
        if v in st.env:
            t = st.env[v]
            if t[0] == 'cond':
                return t[1], t[2]
            if t[0] == 'const':
                return t[1]
            return None
        i = self.f.ins.get(v)
        if i is None:
            return None
        E = frozenset()
        if i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1', 'true'):
            c = self.cond(st, i.ops[0])
            return (not c) if isinstance(c, bool) else (c[1], c[0]) if c else None
        if i.op == 'freeze':
            return self.cond(st, i.ops[0])
        if i.op == 'icmp' and i.ops[1] in ('c:0', 'c:1', 'c:-1') and self.k.opts_of(i.ops[0]) == {'spd'}:
            pr = i.get('pred') if i.ops[1] == 'c:0' else {('slt', 'c:1'): 'sle', ('sge', 'c:1'): 'sgt', ('sgt', 'c:-1'): 'sge', ('sle', 'c:-1'): 'slt'}.get((i.get('pred'), i.ops[1]))
            le, ge = frozenset([('pass', 'P'), ('spd', 'P')]), frozenset([('pass', 'N'), ('spd', 'N')])
            return {'sgt': (ge, le), 'sge': (ge, E), 'slt': (le, ge), 'sle': (le, E), 'eq': (le | ge, E), 'ne': (E, le | ge)}.get(pr)
        if i.op in ('or', 'and', 'select') and i.get('ty') == 'i1':
            if i.op == 'select':
                a, x, y = i.ops
                if x in ('c:1', 'c:-1', 'true'):
                    op, b = 'or', y
                elif y in ('c:0', 'false'):
                    op, b = 'and', x
                elif x in ('c:0', 'false'):
                    # select c, false, y  ==  !c & y
                    ca, cb = self.cond(st, a), self.cond(st, y)
                    ca = (not ca) if isinstance(ca, bool) else (ca[1], ca[0]) if ca else (E, E)
                    return self.comb('and', ca, cb)
                elif y in ('c:1', 'c:-1', 'true'):
                    ca, cb = self.cond(st, a), self.cond(st, x)
                    ca = (not ca) if isinstance(ca, bool) else (ca[1], ca[0]) if ca else (E, E)
                    return self.comb('or', ca, cb)
                else:
                    return None
            else:
                op, (a, b) = i.op, i.ops
            return self.comb(op, self.cond(st, a), self.cond(st, b))
        return None

    def comb(self, op, a, b):
        E = frozenset()
        if isinstance(a, bool) or isinstance(b, bool):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, bool):
                    if x == (op == 'or'):
                        return x
                    return y
        a = a or (E, E)
        b = b or (E, E)
        if op == 'or':
            return (a[0] & b[0], a[1] | b[1])
        return (a[0] | b[0], a[1] & b[1])

    # ---- transfer
    def invalidate(self, st, what):
        """the position under test changed"""
        st.fresh = frozenset()
        st.ok = frozenset()
        st.acc = False
        st.comp = frozenset()
        for v in list(st.env):
            t = st.env[v]
            if t[0] in ('kap', 'dval', 'el'):
                del st.env[v]
            elif t[0] == 'cond':
                a, b = [frozenset(x for x in s if x[0] != 'pass' and x[0] != 'nodef') for s in t[1:3]]
                if a or b:
                    st.env[v] = ('cond', a, b)
                else:
                    del st.env[v]

    def shift(self, st, name, c):
        for v in list(st.env):
            t = st.env[v]
            if t[0] == name:
                if abs(t[1] - c) > 2:
                    del st.env[v]
                    continue
                st.env[v] = (name, t[1] - c)
            elif t[0] == 'cond' and name in ('m', 'step'):
                a, b = [frozenset(x for x in s if x[0] != 'rel') for s in t[1:3]]
                if a or b:
                    st.env[v] = ('cond', a, b)
                else:
                    del st.env[v]
            elif name == 'defers' and t[0] == 'tail' or name in ('defers', 'step') and t[0] == 'cur':
                if abs(t[-1] - c) > 2:
                    del st.env[v]
                    continue
                st.env[v] = t[:-1] + (t[-1] - c,)

    def forget(self, st, name):
        for v in list(st.env):
            t = st.env[v]
            if t[0] == name or name in ('defers', 'step') and t[0] in ('cur', 'tail'):
                del st.env[v]

    def report(self, msg, ins, st):
        key = (msg, ins.id if ins is not None else None)
        if key not in self.bad:
            self.bad[key] = (msg, ins, st.trail)

    def ob(self, label, ins):
        self.obs[(label, ins.id)] = ins

    def exec(self, st, i):
        f, k = self.f, self.k
        op = i.op
        if op == 'load':
            try:
                root, off = f.addr(i.ops[0])
            except Undecided:
                return
            if root == ('alloca', k.step) and off.is_const():
                st.env[i.id] = ('step', 0) if off.c == 0 else ('defers', 0)
                if off.c not in (0, 8):
                    del st.env[i.id]
                return
            if self.mslot and root == ('alloca', self.mslot[0]) and off.is_const() and off.c == self.mslot[1]:
                st.env[i.id] = ('m', 0)
                return
            e = k.elem(i.ops[0])
            if not e or e[1] != 0:
                return
            p = self.pos(st, e[2])
            if e[0] in k.kap:
                if p == ('step', 0) and e[0] in st.fresh:
                    st.env[i.id] = ('kap', e[0])
            elif e[0] == k.d:
                if p == ('cur', 0):
                    st.env[i.id] = ('dval',)
            elif e[0] in self.perms or e[0] in self.tails.values():
                if p is not None:
                    st.env[i.id] = ('el', e[0], p)
                    if p == ('step', 0) and e[0] in st.comp:
                        st.env[i.id] = ('el', e[0], ('cur', 0))
            return
        if op == 'fcmp':
            self.fcmp(st, i)
            return
        if op == 'icmp':
            self.icmp(st, i)
            return
        if op == 'store':
            self.store(st, i)
            return
        if op in ('call', 'invoke'):
            self.call(st, i)

    def fcmp(self, st, i):
        k = self.k
        p = i.get('pred')
        for a, b, flip in ((i.ops[0], i.ops[1], False), (i.ops[1], i.ops[0], True)):
            if b in ('d:0', 'd:-0', 'c:0') and a[0] == '%' and (k.d, 0) in k.els_of(a):
                t = self.tags(st, a)
                if not self.plain(a):
                    self.unclear |= {('pass', 'P'), ('pass', 'N')}
                    return
                g = 'gt' if 'g' in p[1:] else 'lt' if 'l' in p[1:] else None
                if g is None or not t or {x[0] for x in t[0]} != {'dval'}:
                    return
                g = SWAP[g] if flip else g
                e = 'e' in p[1:]
                # d > 0, d >= 0, d < 0, d <= 0: what holds when true and when false
                P, N, E = frozenset([('pass', 'P')]), frozenset([('pass', 'N')]), frozenset()
                self.ob('test of the sign of D', i)
                st.env[i.id] = ('cond',) + {('gt', False): (P, E), ('gt', True): (E, N), ('lt', False): (N, E), ('lt', True): (E, P)}[(g, e)]
                return
        for a, b, flip in ((i.ops[0], i.ops[1], False), (i.ops[1], i.ops[0], True)):
            o = k.opts_of(b) if b[0] == '%' else set()
            lv = self.maxof(a)
            if len(lv) > 1 and o == {'kappa'} and p[1:] in ('gt', 'ge', 'lt', 'le'):
                # the largest of several estimates is compared
                ts = [self.tags(st, x) for x in lv]
                g = 'gt' if 'g' in p[1:] else 'lt'
                g = SWAP[g] if flip else g
                if all(t and len(t[0]) == 1 and t[1] == 0 and {x[0] for x in t[0]} == {'kap'} for t in ts):
                    facts = frozenset(('pass', s) for t in ts for x in t[0] for s in k.kap[x[1]])
                    self.ob('test of ' + '/'.join(sorted(x[1] for x in facts)), i)
                    st.env[i.id] = ('cond', frozenset(), facts) if g == 'gt' else ('cond', facts, frozenset())
                    return
            t = self.tags(st, a)
            if (not t or not t[0]) and o == {'kappa'} and k.kappa_sides(k.els_of(a) if a[0] == '%' else set()) and self.odd(a):
                self.unclear |= {('pass', s) for s in k.kappa_sides(k.els_of(a))}
            if (not t or not t[0]) and o == {'kappa_d'} and a[0] == '%' and (k.d, 0) in k.els_of(a) and t is None and self.odd(a):
                self.unclear.add(('pass', 'D'))
            if not t or not t[0]:
                continue
            if len(o) != 1 or k.els_of(b):
                continue
            o = next(iter(o))
            g = 'gt' if 'g' in p[1:] else 'lt' if 'l' in p[1:] else None
            if g is None:
                return
            if flip:
                g = SWAP[g]
            kinds = {x[0] for x in t[0]}
            facts = None
            if kinds == {'kap'} and o == 'kappa' and t[1] == 0:
                facts = frozenset(('pass', s) for x in t[0] for s in k.kap[x[1]])
                bad_if = 'gt'
                if len(t[0]) > 1:
                    return
            elif kinds == {'dval'} and o == 'kappa_d' and self.bpar(b) is not None:
                facts = frozenset([('pass', 'D')])
                # |1/d| > kappa_d is bad; |d| < 1/kappa_d is bad
                if t[1] == 1 and self.bpar(b) == 0:
                    bad_if = 'gt'
                elif t[1] == 0 and self.bpar(b) == 1:
                    bad_if = 'lt'
                else:
                    return
            if facts:
                self.ob('test of ' + '/'.join(sorted(x[1] for x in facts)), i)
                # an unordered comparison that also holds for NaN is kept as written
                if g == bad_if:
                    st.env[i.id] = ('cond', frozenset(), facts)
                else:
                    st.env[i.id] = ('cond', facts, frozenset())
                return

    def plain(self, v):
        """the stored value itself, or its real part"""
        for _ in range(8):
            i = self.f.ins.get(v)
            if i is None:
                return False
            if i.op == 'load':
                return True
            if i.op not in ('extractvalue', 'extractelement', 'fpext', 'bitcast', 'freeze'):
                return False
            v = i.ops[0]
        return False

    def odd(self, v, depth=0):
        """the value is combined in a way the tags do not follow"""
        i = self.f.ins.get(v)
        if i is None or i.op == 'load':
            return False
        if depth > 12 or i.op in ('phi', 'select') or i.op in ('call', 'invoke') and not MATH.search(i.get('callee') or ''):
            return True
        return any(self.odd(o, depth + 1) for o in i.ops if o[0] == '%')

    def maxof(self, v, depth=0):
        """values of which v is the largest"""
        i = self.f.ins.get(v)
        if i is None or depth > 3:
            return [v]
        if i.op == 'call' and re.match(r'llvm\.maxnum|fmax', i.get('callee') or ''):
            return [y for x in i.ops[:2] for y in self.maxof(x, depth + 1)]
        if i.op == 'select':
            c = self.f.ins.get(i.ops[0])
            if c is not None and c.op == 'fcmp' and set(c.ops) == set(i.ops[1:3]) and c.get('pred')[1:] in ('gt', 'ge', 'lt', 'le'):
                big = c.ops[0] if 'g' in c.get('pred')[1:] else c.ops[1]
                if i.ops[1] == big:
                    return [y for x in i.ops[1:3] for y in self.maxof(x, depth + 1)]
        return [v]

    def bpar(self, v, depth=0):
        """0 when a bound grows with its option, 1 for its reciprocal"""
        i = self.f.ins.get(v)
        if i is None:
            return 0
        if i.op == 'fdiv' and i.ops[0][0] != '%' and self.k.opts_of(i.ops[1]):
            r = self.bpar(i.ops[1], depth + 1)
            return None if r is None else 1 - r
        return 0

    def icmp(self, st, i):
        p = i.get('pred')
        a, b = i.ops
        ta, tb = self.ival(st, a), self.ival(st, b)
        fs = None
        if ta and tb and ta[1] == 0 and tb[1] == 0 and {ta[0], tb[0]} == {'m', 'step'}:
            r = RELS[p]
            if ta[0] == 'step':
                r = {SWAP[x] for x in r}
            fs = (('rel', frozenset(r)), ('rel', ALLREL - r))
            st.env[i.id] = ('cond', frozenset([fs[0]]), frozenset([fs[1]]))
            return
        for x, y, q in ((ta, b, p), (tb, a, {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}.get(p, p))):
            if x and x[0] == 'defers' and x[1] == 0 and y == 'c:0':
                z = frozenset([('nodef',)])
                if q in ('eq', 'ule', 'sle'):
                    st.env[i.id] = ('cond', z, frozenset())
                elif q in ('ne', 'ugt', 'sgt'):
                    st.env[i.id] = ('cond', frozenset(), z)
                return

    def store(self, st, i):
        f, k = self.f, self.k
        v = i.ops[0]
        try:
            root, off = f.addr(i.ops[1])
        except Undecided:
            return
        if root == ('alloca', k.step) and off.is_const():
            t = self.ival(st, v)
            if off.c == 0:
                if t and t[0] == 'step':
                    if t[1] == 0:
                        return
                    if i.blk in k.mblocks and t[1] > 0 and st.acc:
                        miss = self.comparr - st.comp
                        self.ob('entries moved to the accepted position', i)
                        if miss:
                            self.report('a step ends without moving the deferred entry of %s to the accepted position' % ', '.join(sorted(nm(k, x) for x in miss)), i, st)
                    self.invalidate(st, 'step')
                    st.rel = frozenset({'gt', 'eq'}) if st.rel == {'gt'} and t[1] == 1 else ALLREL
                    self.shift(st, 'step', t[1])
                else:
                    self.invalidate(st, 'step')
                    self.forget(st, 'step')
                    st.rel = ALLREL
                    if v[0] == '%':
                        st.env[v] = ('step', 0)
                    else:
                        st.env['slotconst'] = ('const', v)
            elif off.c == 8:
                t = self.ival(st, v)
                if t and t[0] == 'defers':
                    if t[1] == 0:
                        return
                    if i.blk in k.mblocks:
                        self.deferred(st, i, t[1])
                    self.invalidate(st, 'defers')
                    st.ev = frozenset()
                    self.shift(st, 'defers', t[1])
                else:
                    self.invalidate(st, 'defers')
                    st.ev = frozenset()
                    self.forget(st, 'defers')
                    if v[0] == '%':
                        st.env[v] = ('defers', 0)
            return
        if self.mslot and root == ('alloca', self.mslot[0]) and off.is_const() and off.c == self.mslot[1]:
            t = self.ival(st, v)
            if t and t[0] == 'm':
                d = t[1]
                self.shift(st, 'm', d)
                st.rel = frozenset({'gt', 'eq'}) if d == -1 and st.rel == {'gt'} else st.rel if d == 0 else ALLREL
            elif t and t[0] == 'step' and t[1] == 0:
                self.forget(st, 'm')
                self.shift(st, 'm', 0)
                st.rel = frozenset({'eq'})
            else:
                self.forget(st, 'm')
                self.shift(st, 'm', 0)
                st.rel = ALLREL
            return
        e = k.elem(i.ops[1])
        if not e:
            return
        p = self.pos(st, e[2])
        src = self.valtag(st, v)
        if e[1] == 0 and e[0] in k.kap:
            if src and src[0] == 'kap' and p == ('step', 0):
                st.fresh = st.fresh | {e[0]}
            else:
                st.fresh = st.fresh - {e[0]}
            return
        if e[1] == 0 and e[0] == k.d:
            if p == ('step', 0) and src and src[0] == 'dval':
                st.comp = st.comp | {k.d}
            elif not st.acc:
                st.ok = st.ok - {'D'}
                for x in list(st.env):
                    t = st.env[x]
                    if t[0] == 'dval':
                        del st.env[x]
                    elif t[0] == 'cond' and any(('pass', 'D') in s for s in t[1:3]):
                        del st.env[x]
                if p == ('cur', 0) and v[0] == '%':
                    st.env[v] = ('dval',)
            return
        if e[1] == 0 and e[0] in self.perms:
            if p == ('step', 0) and src == ('el', e[0], ('cur', 0)):
                st.comp = st.comp | {e[0]}
            elif i.blk in k.mblocks:
                self.report('%s is overwritten inside the elimination with something else than the entry of the accepted position' % nm(k, e[0]), i, st)
            return
        for pm, tl in self.tails.items():
            if e[1] == 0 and e[0] == tl:
                if p and p[0] == 'tail' and p[2] == 0 and src == ('el', pm, ('cur', 0)):
                    st.ev = st.ev | {('saved', pm, p[1])}
                    self.addtail(st, p)
                elif p and p == ('cur', 0) and v.startswith('c:-'):
                    st.ev = st.ev | {('marked', pm)}
                elif p and p[0] == 'tail' and src and src[0] == 'el' and src[1] in self.perms and src[1] != pm:
                    self.report('the tail of %s receives an entry of %s' % (nm(k, pm), nm(k, src[1])), i, st)
                return
            # inverse of pm: header at offset 40 of the permutation object
        if e[0] in self.perms and e[1] == 40 and i.blk in k.mblocks:
            iv = k.idxval(i.ops[1])
            t = self.ival(st, v)
            x = self.valtag(st, iv[0]) if len(iv) == 1 else None
            if x and x[0] == 'el' and t and t[0] == 'tail' and t[2] == 0:
                own = {e[0], self.tails.get(e[0])}
                if x[1] not in own:
                    self.report('the inverse of %s is updated for an entry of %s' % (nm(k, e[0]), nm(k, x[1])), i, st)
                elif x[2] == ('cur', 0) or x[2][0] == 'tail' and x[2][1:] == t[1:]:
                    st.ev = st.ev | {('inv', e[0], t[1])}

    def addtail(self, st, p):
        pass

    def valtag(self, st, v):
        if v in st.env:
            return st.env[v]
        i = self.f.ins.get(v)
        if i is not None and i.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self.valtag(st, i.ops[0])
        return None

    def deferred(self, st, i, n):
        k = self.k
        self.ob('deferral moves row and column together', i)
        if n != 1:
            self.report('the number of deferrals grows by %d for one deferred position' % n, i, st)
            return
        ents = {e[1]: e[2] for e in st.ev if e[0] == 'entry'}
        miss = []
        for s in sorted(k.mats):
            if s not in ents:
                miss.append('the entries of ' + s)
        for pm in self.perms:
            sv = [e for e in st.ev if e[0] == 'saved' and e[1] == pm]
            if pm not in self.tails:
                raise Undecided('array of deferred entries of %s' % nm(k, pm))
            if not sv:
                miss.append(nm(k, pm))
            if not any(e[0] == 'inv' and e[1] == pm for e in st.ev):
                miss.append('the inverse of ' + nm(k, pm))
            if ('marked', pm) not in st.ev:
                miss.append('the mark of the vacated entry of ' + nm(k, pm))
        if miss:
            self.report('a position is deferred without updating ' + ', '.join(miss), i, st)
        pl = {e[2] for e in st.ev if e[0] in ('entry', 'saved', 'inv')}
        if len(pl) > 1:
            self.report('one deferred position is moved to different places', i, st)

    def call(self, st, i):
        f, k = self.f, self.k
        if i.id in k.kup:
            side, arr = k.kup[i.id]
            if len(i.ops) == 4 and i.ops[3] != 'c:0':
                raise Undecided('update_kappa for an explicit position')
            for v in list(st.env):
                t = st.env[v]
                if t[0] == 'kap' and t[1] == arr:
                    del st.env[v]
                elif t[0] == 'cond':
                    a, b = [frozenset(x for x in s if x != ('pass', side)) for s in t[1:3]]
                    st.env[v] = ('cond', a, b)
            st.fresh = st.fresh | {arr}
            st.fresh = st.fresh - {c for c, o in k.kcopy.items() if o == arr}
            return
        dem = (i.get('cdem') or '').split('(')[0]
        cal = i.get('callee') or ''
        if cal.startswith('llvm.memcpy'):
            e, w = k.elem(i.ops[0]), k.elem(i.ops[1])
            if e and w and e[1] == 0 and w[1] == 0:
                pe, pw = self.pos(st, e[2]), self.pos(st, w[2])
                if e[0] in k.kap:
                    if w[0] in st.fresh and pe == ('step', 0) and pw == ('step', 0):
                        st.fresh = st.fresh | {e[0]}
                    else:
                        st.fresh = st.fresh - {e[0]}
                elif e[0] == k.d:
                    if pe == ('step', 0) and pw == ('cur', 0) and w[0] == k.d:
                        st.comp = st.comp | {k.d}
                    elif not st.acc:
                        st.ok = st.ok - {'D'}
            return
        m = re.search(r'::(defer_entry|symm_defer_l)<', dem)
        if m and k.base(i.ops[0]) == k.step:
            # tail position is the second argument
            p = self.ival(st, i.ops[1])
            x = {s for s, o in k.mats.items() if o in [k.base(o2) for o2 in i.ops[2:]]}
            if len(x) == 1:
                if p and p[0] == 'tail' and p[2] == 0:
                    st.ev = st.ev | {('entry', x.pop(), p[1])}
                elif p:
                    self.report('an entry is deferred to a place that is not the next free one', i, st)
                else:
                    raise Undecided('tail position')
            return
        if i.id in self.pushes:
            self.ob('%s stored only after acceptance' % self.pushes[i.id], i)
            if not st.acc:
                self.notacc(st, i, 'an entry is stored in ' + self.pushes[i.id])
            t = self.ival(st, i.ops[1])
            if t != ('step', 0):
                if t and t[0] == 'step':
                    self.report('the entry is stored at a position that is not the current step', i, st)
                else:
                    raise Undecided('position of the stored entry')
            return
        if i.id in self.accepts:
            self.ob('accepted only after all tests passed', i)
            if not st.acc:
                if st.ok | st.spd >= self.need:
                    st.acc = True
                else:
                    self.notacc(st, i, 'the row and column are eliminated')
                    st.acc = True
            self.kernelargs(st, i, dem)
            return
        if k.step in [k.base(o) for o in i.ops if o[0] in '%a' and self.isp(o)]:
            if not cal.startswith('_ZNK') and re.search(r'Crout', dem) or 'apply_thres_pivot' in dem:
                self.invalidate(st, 'call')
                st.ev = frozenset()
                return
        if 'compute_dk<' in dem:
            self.dkargs(st, i)
            return

    def isp(self, o):
        try:
            return self.f.isptr(o)
        except Exception:
            return False

    def notacc(self, st, i, what):
        miss = sorted(self.need - st.ok - st.spd)
        if any(('pass', m) in self.unclear for m in miss):
            raise Undecided('a test of the estimates or the pivot is not understood')
        names = {'P': 'the positive sign of the pivot', 'N': 'the negative sign of the pivot', 'D': 'the pivot magnitude', 'U': 'the inverse norm of U', 'L': 'the inverse norm of L'}
        if self.mslot is None:
            raise Undecided('leading size is not kept in one slot')
        self.report('%s although the test of %s was not passed for this position' % (what, ' and '.join(names[x] for x in miss)), i, st)

    def kernelargs(self, st, i, dem):
        k = self.k
        n = re.search(r'::(compute_\w+)', dem).group(1)
        a = [k.base(o) if o[0] in '%a' and self.isp(o) else None for o in i.ops]
        if len(i.ops) < 6:
            raise Undecided(n)
        # compute_ut(step, s, A, t, row, column inverse, ...), compute_l/compute_symm(step, s, A, t, row inverse, column, ...)
        self.ob('%s works on the accepted row or column' % n, i)
        if a[1] != k.s or a[3] != k.t:
            if a[1] in (k.s, k.t) and a[3] in (k.s, k.t):
                self.report('%s scales rows and columns with exchanged vectors' % n, i, st)
            else:
                raise Undecided('scalings of ' + n)
        ei, vi = (4, 5) if n == 'compute_ut' else (5, 4)
        perm, invp = (k.p, k.q if k.cs else k.p) if n == 'compute_ut' else (k.q if k.cs else k.p, k.p)
        t = self.valtag(st, i.ops[ei])
        if t is None or t[0] != 'el':
            els = {o for o, h in k.els_of(i.ops[ei]) if o in self.perms}
            if els and els != {perm}:
                self.report('%s works on the %s entry of %s' % (n, 'row' if ei == 4 else 'column', '/'.join(nm(k, x) for x in els)), i, st)
            elif els and self.tracked(i.ops[ei], st):
                self.report('%s works on a row or column that is not at the accepted position' % n, i, st)
            else:
                raise Undecided('row or column of ' + n)
        elif t[1] != perm:
            self.report('%s works on an entry of %s instead of %s' % (n, nm(k, t[1]), nm(k, perm)), i, st)
        elif t[2] != ('cur', 0):
            self.report('%s works on an entry that is not at the accepted position' % n, i, st)
        if a[vi] != (invp, 40):
            if isinstance(a[vi], tuple) and a[vi][0] in (k.p, k.q):
                self.report('%s looks indices up in the inverse of %s instead of %s' % (n, nm(k, a[vi][0]), nm(k, invp)), i, st)
            else:
                raise Undecided('inverse used by ' + n)

    def dkargs(self, st, i):
        """compute_dk(step, s, A, t, row inverse, column, ...) for the position under test"""
        k = self.k
        if len(i.ops) != 10:
            return
        a = [k.base(o) if o[0] in '%a' and self.isp(o) else None for o in i.ops]
        self.ob('compute_dk works on the row and column under test', i)
        if {a[1], a[3]} == {k.s, k.t} and a[1] != k.s:
            self.report('compute_dk scales rows and columns with exchanged vectors', i, st)
        if isinstance(a[4], tuple) and a[4][0] in (k.p, k.q) and a[4] != (k.p, 40):
            self.report('compute_dk looks rows up in the inverse of %s' % nm(k, a[4][0]), i, st)
        perm = k.q if k.cs else k.p
        els = {o for o, h in k.els_of(i.ops[5]) if o in self.perms and h == 0}
        if els and els != {perm}:
            self.report('compute_dk works on the column of %s' % '/'.join(nm(k, x) for x in els), i, st)

    def tracked(self, v, st):
        return False

    # ---- search
    def apply(self, st, facts):
        for x in facts:
            if x[0] == 'pass':
                st.ok = st.ok | {x[1]}
            elif x[0] == 'rel':
                st.rel = st.rel & x[1]
                if not st.rel:
                    return False
            elif x[0] == 'nodef':
                st.comp = self.comparr
            elif x[0] == 'spd':
                st.spd = st.spd | {x[1]}
        return True

    def run(self, limit=60000):
        f, k = self.f, self.k
        pre = [p for p in f.pred[k.header] if p not in k.mblocks]
        work = []
        for b in pre:
            work.append((b, None, State()))
        seen = set()
        n = 0
        while work:
            b, prev, st = work.pop()
            if b not in k.mblocks and b not in pre:
                continue
            # phis
            new = {}
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                if prev is None:
                    continue
                x = [o for o, fr in zip(i.ops, i.get('from')) if fr == prev]
                if not x:
                    continue
                o = x[0]
                t = st.env.get(o) or self.ival(st, o)
                if t is None and i.get('ty') == 'i1':
                    c = self.cond(st, o)
                    if isinstance(c, bool):
                        t = ('const', c)
                    elif c:
                        t = ('cond', c[0], c[1])
                if t is None and o[:2] == 'c:':
                    if b == k.header and st.env.get('slotconst') == ('const', o) and self.steplike(i):
                        t = ('step', 0)
                    else:
                        t = ('num', int(o[2:]))
                if t is None and o[0] == '%':
                    u = self.tags(st, o)
                    if u and len(u[0]) == 1 and u[1] == 0 and self.f.ins[o].op in ('load',):
                        t = next(iter(u[0]))
                new[i.id] = t
            for v, t in new.items():
                if t is None:
                    st.env.pop(v, None)
                else:
                    st.env[v] = t
            lv = self.live[b]
            st.env = {v: t for v, t in st.env.items() if v in lv or v == 'slotconst'}
            key = (b, st.key())
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > limit:
                raise Undecided('too many states in ' + k.name)
            for i in f.blocks[b]:
                if i.op != 'phi':
                    self.exec(st, i)
            term = f.blocks[b][-1]
            ss = f.succ[b]
            if b in pre:
                ss = [s for s in ss if s == k.header]
            if term.op == 'br' and len(ss) == 2 and ss[0] != ss[1]:
                c = self.cond(st, term.ops[0])
                if c is None:
                    i = f.ins.get(term.ops[0])
                    c = (frozenset(), frozenset())
                for k2, s in enumerate(ss):
                    if isinstance(c, bool):
                        if c != (k2 == 0):
                            continue
                        n2 = st.copy()
                    else:
                        n2 = st.copy()
                        if not self.apply(n2, c[k2]):
                            continue
                        # remember the outcome of this condition
                        if term.ops[0][0] == '%':
                            n2.env[term.ops[0]] = ('const', k2 == 0)
                    n2.trail = (n2.trail + (term.loc,))[-12:]
                    work.append((s, b, n2))
            elif term.op == 'switch' and term.ops and st.env.get(term.ops[0], ('',))[0] == 'num':
                val = st.env[term.ops[0]][1]
                tgt = self.switch(term, val)
                for s in ([tgt] if tgt is not None else dict.fromkeys(ss)):
                    work.append((s, b, st.copy()))
            else:
                for s in dict.fromkeys(ss):
                    work.append((s, b, st.copy()))
        self.states = n
        return n

    def steplike(self, i):
        """header phi whose other incoming values are stored to the step"""
        f = self.f
        for o in i.ops:
            if o[0] == '%':
                for s, off in f.alloca_stores(('alloca', self.k.step)):
                    if s.ops[0] == o and off.is_const() and off.c == 0:
                        return True
        return False

    def switch(self, term, val):
        for c in term.get('cases', []):
            v, b = c[0], c[1]
            if int(str(v).replace('c:', '')) == val:
                return b
        return term.get('def')


# ------------------------------------------------------------------------------------------------ P11
def roles(k):
    """obligations of P11: (label, problem or None, instruction)"""
    f, out = k.f, []
    e = k.emp

    def ob(label, ok, msg, ins=None):
        out.append((label, None if ok else msg, ins if ins is not None else e))
    a = [k.base(x) for x in e.ops]
    names = {k.s: 'the row scaling', k.t: 'the column scaling', k.p: 'the row permutation', k.q: 'the column permutation', (k.p, 40): 'the inverse row permutation',
             (k.q, 40): 'the inverse column permutation', k.d: 'the diagonal'}
    for pos, what in ((8, k.s), (9, k.t), (10, k.p), (11, (k.p, 40)), (12, k.q), (13, (k.q, 40))):
        if a[pos] not in names:
            raise Undecided('recorded object %d not resolved' % pos)
        ob('%s recorded' % names[what], a[pos] == what, '%s is recorded where %s belongs' % (names.get(a[pos], '?'), names[what]))
    # factors
    for pos, side in ((3, 'L'), (5, 'U')):
        lead, o = leading(k, e.ops[pos])
        want = side if side in k.mats else 'L'
        if o is None:
            raise Undecided('origin of the recorded factor ' + side)
        ob('%s recorded' % side, o == want, 'the factor recorded as %s was built as %s' % (side, o))
        ob('%s is the leading block' % side, lead, 'the off-diagonal block is recorded as the factor ' + side)
        tr, cj = transposed(k, e.ops[pos])
        if side == 'U' and 'U' not in k.mats:
            ob('U is the conjugate transpose of L', tr % 2 == 1 and cj % 2 == 1, 'U is recorded as L without %s' % ('transposing it' if tr % 2 == 0 else 'conjugating it'))
        else:
            ob('%s keeps its values' % side, cj % 2 == 0, 'a conjugate is recorded as ' + side)
    for pos, n, rx in ((6, 'E', r'extract_E<'), (7, 'F', r'extract_F<')):
        src = producer(k, e.ops[pos])
        if n == 'F' and k.kind == 'symm' and src and re.search('extract_E<', dname(src[0])):
            c, tr, cj = src
            ob('F is the conjugate transpose of E', tr % 2 == 1 and cj % 2 == 1, 'F is recorded as E without %s' % ('transposing it' if tr % 2 == 0 else 'conjugating it'))
            continue
        if not src:
            raise Undecided('origin of ' + n)
        c, tr, cj = src
        d = dname(c)
        if not re.search(r'extract_[EF]<', d):
            raise Undecided('origin of ' + n)
        ob('%s recorded' % n, re.search(rx, d) is not None and tr % 2 == 0 and cj % 2 == 0, 'what is recorded as %s comes from %s' % (n, short(d)))
        b = [k.base(o) if o[0] in '%a' and isptr(f, o) else None for o in c.ops]
        # extract_X(result, s, A, t, m, p, q)
        qq = k.q if k.cs else k.p
        ob('%s uses the scalings in order' % n, b[1] == k.s and b[3] == k.t, '%s is extracted with exchanged scalings' % n, c)
        ob('%s uses the permutations in order' % n, b[5] == k.p and b[6] == qq, '%s is extracted with the permutations %s, %s' % (n, names.get(b[5], '?'), names.get(b[6], '?')), c)
        ob('%s uses the recorded leading size' % n, msame(k, c.ops[4], e), '%s is extracted for another leading size than the recorded one' % n, c)
    for c in k.of(r'compute_Schur_simple<'):
        b = [k.base(o) if o[0] in '%a' and isptr(f, o) else None for o in c.ops]
        qq = k.q if k.cs else k.p
        # (result, s, A, t, p, q, m, L_E, d, U_F, l)
        ob('Schur complement uses the scalings in order', b[1] == k.s and b[3] == k.t, 'the Schur complement is computed with exchanged scalings', c)
        ob('Schur complement uses the permutations in order', b[4] == k.p and b[5] == qq, 'the Schur complement is computed with the permutations %s, %s' % (names.get(b[4], '?'), names.get(b[5], '?')), c)
        ob('Schur complement uses the recorded diagonal', b[8] == k.d, 'the Schur complement uses another diagonal than the recorded one', c)
        ob('Schur complement uses the recorded leading size', msame(k, c.ops[6], e), 'the Schur complement is computed for another leading size than the recorded one', c)
        for pos, side in ((7, 'L'), (9, 'U')):
            lead, o = leading(k, c.ops[pos])
            tr, cj = transposed(k, c.ops[pos])
            if o is None:
                raise Undecided('origin of the off-diagonal block of ' + side)
            if side == 'U' and 'U' not in k.mats:
                ob('off-diagonal block of U', o == 'L' and not lead and tr % 2 == 1 and cj % 2 == 1, 'the off-diagonal block of U is not the conjugate transpose of that of L', c)
            else:
                ob('off-diagonal block of ' + side, o == side and not lead and cj % 2 == 0, 'the off-diagonal block of %s is not what reaches the Schur complement' % side, c)
    stale(k, ob)
    return out


def dname(c):
    return c.get('cdem').split('(')[0]


def isptr(f, o):
    try:
        return f.isptr(o)
    except Exception:
        return False


def msame(k, v, e):
    """the leading size passed here is the one recorded"""
    f = k.f
    r, o = f.addr(e.ops[1])
    i = f.ins.get(v)
    if i is not None and i.op == 'load':
        r2, o2 = f.addr(i.ops[0])
        if (r, o) == (r2, o2):
            return not any(f.reaches(i, s) and f.reaches(s, e) for s, so in f.alloca_stores(r) if so == o)
    ss = [s for s, so in f.alloca_stores(r) if so == o]
    if any(s.ops[0] == v and f.idominates(s, e) for s in ss):
        return True
    if v[0] == '%' and f.ins[v].op == 'phi':
        raise Undecided('leading size')
    raise Undecided('leading size')


def chain(k, v):
    """calls that produce an object, from the object to its origin: [(call, kind)]"""
    out, b = [], k.base(v) if v[0] in '%a' else v
    for _ in range(8):
        if not isinstance(b, str) or b in k.rmats:
            break
        c = []
        for i in k.calls:
            n = dname(i)
            if not i.ops or i.ops[0][0] not in '%a' or not isptr(k.f, i.ops[0]):
                continue
            d0 = k.base(i.ops[0])
            if re.search(r'::split(_c[rc]s)?<|extract_[EF]<|compute_Schur', n) and d0 == b:
                c.append((i, 'make'))
            elif (re.search(r'::operator=$', n) or re.search(r'::C[RC]S$', n) and len(i.ops) >= 2 and i.ops[1][0] in '%a' and isptr(k.f, i.ops[1])) and d0 == b:
                c.append((i, 'copy'))
            elif re.search(r'make_transpose<', n) and k.base(i.ops[1]) == b:
                c.append((i, 'trans'))
        if len(c) != 1:
            return None
        out.append(c[0])
        i, kind = c[0]
        if kind == 'make':
            if re.search(r'::split', dname(i)):
                b = k.base(i.ops[1])
                continue
            break
        b = k.base(i.ops[0] if kind == 'trans' else i.ops[1])
    return out, b


def leading(k, v):
    """(is it the leading block?, factor it was split from)"""
    r = chain(k, v)
    if r is None:
        return None, None
    ch, b = r
    sp = [c for c, kind in ch if kind == 'make' and '::split' in dname(c)]
    if len(sp) != 1:
        return None, None
    n = dname(sp[0])
    m = re.search(r'::split(_c[rc]s)?<(true|false)>', n)
    return (m.group(2) == 'false') if m else None, k.rmats.get(b)


def transposed(k, v):
    r = chain(k, v)
    tr = cj = 0
    for c, kind in r[0]:
        if kind == 'trans':
            tr += 1
            cj += 1 if c.ops[2] in ('c:-1', 'c:1', 'true') else 0
    return tr, cj


def producer(k, v):
    r = chain(k, v)
    if r is None:
        return None
    tr = cj = 0
    for c, kind in r[0]:
        if kind == 'trans':
            tr += 1
            cj += 1 if c.ops[2] in ('c:-1', 'c:1', 'true') else 0
        if kind == 'make':
            return c, tr, cj
    return None


def stale(k, ob):
    """the inverses are current, and the level of a Schur complement that was not computed is trivial, on every path to the record"""
    f, e = k.f, k.emp
    perms = [k.p, k.q]
    ev = {}          # block -> [(pos, kind, payload, ins)]

    def add(i, *x):
        ev.setdefault(i.blk, []).append((i.pos,) + x + (i,))
    srcs = {}
    for i in f.ins.values():
        if i.op == 'store':
            el = k.elem(i.ops[1])
            if el and el[0] in perms and el[1] == 40 and after(k, i) and inverts(k, i, el[0]):
                ev.setdefault(loophead(f, i), []).append((-1, 'inv', el[0], i))
            elif el and el[0] in perms:
                # element-wise copy of one permutation to the other keeps what is known of the source
                w = None
                v = f.ins.get(i.ops[0])
                while v is not None and v.op in ('trunc', 'sext', 'zext'):
                    v = f.ins.get(v.ops[0])
                if v is not None and v.op == 'load':
                    w = k.elem(v.ops[0])
                if w and w[0] in perms and w[0] != el[0] and w[1] == el[1] and w[2] == el[2]:
                    # the whole loop is one event, also when it makes no trip
                    ev.setdefault(loophead(f, i), []).append((-1, 'copy', (el[0], w[0], el[1]), i))
                else:
                    add(i, 'dirty', el[0])
                    if w and el[1] == 0 and after(k, i) and w[0] not in perms:
                        # deferred entries return from the list they were moved to
                        own = {o for st2, _ in k.stores_to(w[0], w[1]) if st2.blk in k.mblocks for o, h in k.els_of(st2.ops[0]) if o in perms and h == 0}
                        if own:
                            ob('deferred entries of %s' % nm(k, el[0]), own == {el[0]}, '%s is completed with the deferred entries of %s' % (nm(k, el[0]), '/'.join(nm(k, o) for o in own)), i)
                            ev.setdefault(loophead(f, i), []).append((-2, 'gap', el[0], i))
            elif el and el[0] in (k.s, k.t) and el[1] == 0:
                if i.ops[0] in ('d:1', 'c:1'):
                    # the whole loop is one event, also when it makes no trip
                    hb = loophead(f, i)
                    ev.setdefault(hb, []).append((-1, 'one', el[0], i))
                else:
                    add(i, 'val', el[0])
        elif i.op in ('call', 'invoke') and (i.get('callee') or '').startswith('llvm.memcpy') and k.elem(i.ops[0]):
            el, w = k.elem(i.ops[0]), k.elem(i.ops[1])
            if el[0] in perms:
                add(i, 'copy' if w and w[0] in perms and w[1] == el[1] else 'dirty', (el[0], w[0], el[1]) if w and w[0] in perms and w[1] == el[1] else el[0])
    for i in k.calls:
        n = dname(i)
        b = [k.base(o) for o in i.ops if o[0] in '%a' and isptr(f, o)]
        if re.search(r'BiPermMatrix<.*>::(build_inv|make_eye)$', n) and b[0] not in perms:
            raise Undecided('a permutation is completed through an unresolved reference')
        if re.search(r'BiPermMatrix<.*>::build_inv$', n):
            add(i, 'inv', b[0])
        elif re.search(r'BiPermMatrix<.*>::make_eye$', n) and b[0] in perms:
            add(i, 'eye', b[0])
        elif re.search(r'do_preprocessing<', n):
            for x in perms:
                add(i, 'inv', x)
            for x in (k.s, k.t):
                add(i, 'val', x)
        elif re.search(r'compute_Schur_simple<', n):
            add(i, 'schur', None)
        elif re.search(r'::operator=$', n) and (b[0] in perms or isinstance(b[0], tuple) and b[0][0] in perms):
            add(i, 'dirty', b[0] if b[0] in perms else b[0][0])
        elif re.search(r'apply_thres_pivot<', n):
            for x in perms:
                add(i, 'dirty', x)
        elif i is e:
            add(i, 'record', None)
    ev.setdefault(k.header, []).append((-3, 'elim', None, None))
    start = (frozenset(), frozenset(), False, frozenset(), frozenset(perms))   # (clean inverses, trivial objects, Schur computed, half copies, complete)
    seen, work = set(), [(f.entry, start)]
    res = {}
    while work:
        b, st = work.pop()
        if (b, st) in seen:
            continue
        seen.add((b, st))
        clean, triv, sch, half, full = st
        for x in sorted(ev.get(b, []), key=lambda y: y[0]):
            kind, pay = x[1], x[2]
            if kind in ('dirty', 'inv', 'eye'):
                half = frozenset(h for h in half if pay not in h[:2])
            if kind == 'dirty':
                clean, triv = clean - {pay}, triv - {pay}
            elif kind == 'copy':
                dst, srcp, ho = pay
                half = half | {pay}
                # half of a pair: known again once the other half has followed
                whole = {h[2] for h in half if h[:2] == (dst, srcp)} >= {0, 40}
                clean = clean | {dst} if whole and srcp in clean else clean - {dst}
                triv = triv | {dst} if whole and srcp in triv else triv - {dst}
                if ho == 0:
                    full = full | {dst} if srcp in full else full - {dst}
            elif kind == 'elim':
                full = frozenset()
            elif kind == 'gap':
                full = full | {pay}
            elif kind == 'inv':
                clean = clean | {pay}
                triv = triv - {pay}
            elif kind == 'eye':
                clean, triv, full = clean | {pay}, triv | {pay}, full | {pay}
            elif kind == 'one':
                triv = triv | {pay}
            elif kind == 'val':
                triv = triv - {pay}
            elif kind == 'schur':
                sch = True
            elif kind == 'record':
                for p_ in perms:
                    res.setdefault(('clean', p_), set()).add(p_ in clean)
                    res.setdefault(('full', p_), set()).add(p_ in full)
                if not sch:
                    for o in perms + [k.s, k.t]:
                        res.setdefault(('triv', o), set()).add(o in triv)
        st = (clean, triv, sch, half, full)
        for s in dict.fromkeys(f.succ[b]):
            work.append((s, st))
    for p_ in perms:
        r = res.get(('clean', p_))
        if r is None:
            raise Undecided('no path records the level')
        ob('inverse of %s is current when recorded' % nm(k, p_), r == {True}, 'a path records the level after %s was changed without rebuilding its inverse' % nm(k, p_))
    for p_ in perms:
        ob('deferred entries of %s are back when recorded' % nm(k, p_), res[('full', p_)] == {True}, 'a path records the level without returning the deferred entries of %s' % nm(k, p_))
    for o in perms + [k.s, k.t]:
        r = res.get(('triv', o))
        if r is not None:
            ob('without a Schur complement %s is trivial' % nm(k, o), r == {True}, 'a level whose matrix is passed on unchanged is recorded with the %s of the abandoned factorization' % nm(k, o))


def inverts(k, i, perm):
    """the store is x.inv[x[j]] = j"""
    f = k.f

    def strip(v):
        while v in f.ins and f.ins[v].op in ('trunc', 'sext', 'zext'):
            v = f.ins[v].ops[0]
        return v
    idx = [strip(v) for v in k.idxval(i.ops[1])]
    if len(idx) != 1 or idx[0] not in f.ins or f.ins[idx[0]].op != 'load':
        return False
    e = k.elem(f.ins[idx[0]].ops[0])
    j = [strip(v) for v in k.idxval(f.ins[idx[0]].ops[0])]
    return bool(e) and e[0] == perm and e[1] == 0 and j == [strip(i.ops[0])]


def loophead(f, i):
    l = f.bloop.get(i.blk, -1)
    if l == -1:
        return i.blk
    h = f.loops[l].get('header')
    pr = [p for p in f.pred[h if h is not None else i.blk] if not f.in_loop(p, l)]
    return h if h is not None else i.blk


MEMBERS = ['m', 'n', 'L_B', 'd_B', 'U_B', 'E', 'F', 's', 't', 'p', 'p_inv', 'q', 'q_inv']


def record_ctor(rep, f):
    """the constructor of a level stores argument i in the member of that role"""
    got = {}
    for b in f.blocks:
        for i in f.blocks[b]:
            if i.op == 'store':
                v = f.ins.get(i.ops[0])
                src = i.ops[0]
                if v is not None and v.op == 'load':
                    src = v.ops[0]
                pair = (i.ops[1], src)
            elif i.op in ('call', 'invoke') and i.get('cdem') and len(i.ops) >= 2 and re.search(r'::(Array|CCS|CRS|operator=|swap)$', i.get('cdem').split('(')[0]):
                pair = (i.ops[0], i.ops[1])
            else:
                continue
            try:
                r, o = f.addr(pair[0])
                if pair[1][0] == 'a' and pair[1][1:].isdigit() and not isptr(f, pair[1]):
                    r2 = ('arg', int(pair[1][1:]))
                else:
                    r2, o2 = f.addr(pair[1])
            except Undecided:
                continue
            if r == ('arg', 0) and r2[0] == 'arg' and r2[1] > 0 and o.is_const():
                n = (f.field_of(r, o.c) or '').split('.')
                if len(n) > 1 and n[1] in MEMBERS:
                    got.setdefault(n[1], set()).add((r2[1], i))
    n = 0
    for k, name in enumerate(MEMBERS):
        g = got.get(name)
        w = 'constructor of a level: member ' + name
        if not g:
            rep.und('record', w, 'no argument is stored in it')
            continue
        n += 1
        srcs = {a for a, _ in g}
        ins = sorted(g, key=lambda x: x[0])[0][1]
        if srcs != {k + 1}:
            rep.bad('record', w, 'it receives argument %s instead of argument %d' % ('/'.join(str(x) for x in sorted(srcs)), k + 1), ins.loc)
        else:
            rep.ok('record', w, str(ins.loc))
    return n
