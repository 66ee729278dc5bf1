"""Rules of the dropping routines: which entries of a row or column are removed, and how many are kept."""
import os
import re
import vt
import mtrun
from ir import Lin, Undecided
from steps import Fn, Bad, at, arg, shared_roles

SCALE = {'double': 8, 'float': 4}
LAM = re.compile(r"'lambda(\d*)'")


class D(Fn):
    def __init__(self, prog, f, names, encl):
        super().__init__(f, names, None)
        self.prog = prog
        self.encl = encl
        self.unds = []

    def calls(self, pat):
        return [i for i in self.f.ins.values() if i.op in ('call', 'invoke') and re.search(pat, i.get('cdem') or i.get('callee') or '')
                and not self.E.dead(i.blk)]

    def t(self, v):
        return self.term(v)

    def d(self, v):
        return self.f.ins.get(v)

    def through(self, v, ops=('sext', 'zext', 'trunc', 'freeze')):
        while v in self.f.ins and self.f.ins[v].op in ops:
            v = self.f.ins[v].ops[0]
        return v

    # ---- the limit ceil(alpha * size)
    def limit(self, v):
        """v == ceil(alpha * size): (value of alpha, size) or Bad"""
        i = self.d(v)
        if i is None or i.op not in ('fptoui', 'fptosi'):
            raise Undecided('limit')
        c = self.d(i.ops[0])
        mul, rnd = c, None
        if c is not None and c.op in ('call', 'invoke'):
            rnd = (c.get('cdem') or c.get('callee') or '')
            mul = self.d(c.ops[0])
        if mul is None or mul.op != 'fmul':
            raise Undecided('limit is not a product')
        if rnd is None:
            raise Bad('the limit is not rounded up', i)
        if not re.match(r'llvm\.ceil\.|ceil$|std::ceil', rnd):
            if re.match(r'llvm\.(floor|trunc|round|rint|nearbyint)\.', rnd):
                raise Bad('the limit is rounded with %s instead of up' % rnd, c)
            raise Undecided('rounding of the limit')
        al = sz = None
        for o in mul.ops:
            k, x = self.factor(o)
            if k == 'alpha':
                al = x
            else:
                sz = x
        if al is None or sz is None:
            raise Undecided('factors of the limit')
        return al, sz

    def factor(self, o, seen=()):
        """one factor of a limit: ('alpha', name of the parameter) or ('size', term)"""
        j = self.d(o)
        if j is None and re.fullmatch(r'a\d+', o):
            return 'alpha', self.names[int(o[1:])]
        if j is not None and j.op in ('uitofp', 'sitofp'):
            v = self.through(j.ops[0], ('freeze',))
            q = self.d(v)
            if q is not None and q.op == 'phi' and v not in seen:
                xs = [self.t(x) for x in q.ops]
                if all(x == xs[0] for x in xs):
                    return 'size', xs[0]
            return 'size', self.t(v)
        if j is not None and j.op == 'load':
            root, off = self.E.norm(*self.f.addr(j.ops[0]))
            if off != Lin(0):
                raise Undecided('factor of the limit')
            return 'alpha', self.E.mem(root)
        if j is not None and j.op == 'phi' and o not in seen:
            xs = [self.factor(x, seen + (o,)) for x in j.ops]
            if all(x == xs[0] for x in xs):
                return xs[0]
        raise Undecided('factors of the limit')

    # ---- comparison functions
    def order(self, call, want):
        """comparator of a selection: '>' selects the largest first"""
        ls = LAM.findall(call.get('cdem') or '')
        if not ls:
            raise Undecided('comparison is not a local function')
        nm = "%s::'lambda%s'(" % (self.encl, ls[-1])
        gs = [g for g in self.prog.functions if g.dem.startswith(nm) and '::operator()(' in g.dem and len(g.ins) > 2]
        if len(gs) != 1:
            raise Undecided('%d comparison functions' % len(gs))
        g = gs[0]
        rets = [i for i in g.ins.values() if i.op == 'ret']
        if len(rets) != 1:
            raise Undecided('comparison function')
        i = g.ins.get(rets[0].ops[0])
        while i is not None and i.op in ('zext', 'freeze'):
            i = g.ins.get(i.ops[0])
        if i is None or i.op != 'fcmp':
            raise Undecided('comparison function')
        xs = []
        n = len(g.args)
        for o in i.ops:
            j = g.ins.get(o)
            if j is not None and j.op in ('load', 'fneg'):
                raise Bad('entries are ordered by their value instead of their modulus', i)
            if j is None or j.op not in ('call', 'invoke') or not re.match(r'llvm\.fabs|fabs|cabs|hypot|std::abs', j.get('cdem') or j.get('callee') or ''):
                raise Undecided('the comparison is not of moduli')
            deps, seen, todo = set(), set(), list(j.ops)
            while todo:
                v = todo.pop()
                if v in seen:
                    continue
                seen.add(v)
                if re.fullmatch(r'a\d+', v):
                    deps.add(int(v[1:]))
                elif v in g.ins:
                    q = g.ins[v]
                    todo += list(q.ops)
                    if q.op == 'getelementptr' or q.get('ty') == 'ptr' and q.op != 'load':
                        try:
                            root, off = g.addr(v)
                            todo += re.findall(r'%\d+|\ba\d+', repr(root) + repr(off.tup()))
                            for a in off.t:
                                todo += re.findall(r"%\d+", repr(a)) + ['a%s' % k for k in re.findall(r"\('arg', (\d+)\)", repr(a))]
                            if root[0] == 'arg':
                                todo.append('a%d' % root[1])
                        except Undecided:
                            pass
            deps &= {n - 2, n - 1}
            if len(deps) != 1:
                raise Undecided('comparison function: operand')
            xs.append(deps.pop())
        if xs[0] == xs[1]:
            raise Bad('the comparison is of an entry with itself', i)
        p = i.get('pred')
        if p not in ('ogt', 'ugt', 'olt', 'ult', 'oge', 'uge', 'ole', 'ule'):
            raise Undecided('comparison function')
        k = p[1:]
        if xs[0] > xs[1]:
            k = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}[k]
        w = {'>': 'gt', '<': 'lt'}[want]
        if k != w:
            raise Bad('entries are ordered by |x| %s |y| instead of |x| %s |y|' % ({'gt': '>', 'lt': '<', 'ge': '>=', 'le': '<='}[k], want), i)
        return i

    def num(self, v):
        """conditions on the number of entries: list of (kind, Lin, instruction)"""
        out = []
        self.cond(v, True, out)
        return out


def gates(D, ins, isval, what, n, skip=None):
    """conditions under which a dropping is applied at all: the parameter is positive and there are entries"""
    f, E = D.f, D.E
    k = 0
    for a, s in E.guards(ins.blk):
        br = f.blocks[a][-1]
        c = f.ins.get(br.ops[0]) if br.op == 'br' and br.ops else None
        val = bool(f.succ[a]) and f.succ[a][0] == s
        if c is None or c.op != 'fcmp':
            continue
        x, y = c.ops
        p = c.get('pred')
        if isval(y):
            x, y = y, x
            p = p[0] + {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}.get(p[1:], p[1:])
        if not isval(x) or not y.startswith('d:'):
            continue
        q = p[1:] if val else {'gt': 'le', 'le': 'gt', 'lt': 'ge', 'ge': 'lt'}.get(p[1:])
        if q is None:
            raise Undecided('condition of the dropping')
        if float(y[2:]) != 0.0:
            raise Bad('entries are dropped only if %s %s %s' % (what, {'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[q], y[2:]), c)
        if q not in ('gt', 'ge'):
            raise Bad('entries are dropped only if %s is not positive' % what, c)
        k += 1
    for c in D.conds(ins.blk):
        if not isinstance(c[1], Lin) or skip and skip(c[1]):
            continue
        kind, d = c[0], c[1]
        if not d.t or not any(size_like(D, Lin.atom(a), n) for a in d.t) or len(d.t) != 1:
            continue
        a = next(iter(d.t))
        # size > c for the smallest possible c
        if (kind, d.t[a]) == ('ne', 1) or (kind, d.t[a]) == ('ne', -1):
            low = 1 if d.c == 0 else None
        elif kind == 'lt' and d.t[a] == -1:
            low = d.c + 1
        elif kind == 'le' and d.t[a] == -1:
            low = d.c
        else:
            low = None
        if low is None:
            raise Undecided('condition on the number of entries')
        if low > 1:
            raise Bad('entries are dropped only if there are at least %d' % low, c[2])
    return k


# ------------------------------------------------------------------ thresholds
def numerical(D, tau, kappa, v):
    f, E = D.f, D.E
    marks = D.calls(r'::mark_delete\(')
    if len(marks) != 1:
        raise Undecided('%d places that delete entries' % len(marks))
    m = marks[0]
    if not D.arg_is(m.ops[0], v):
        raise Undecided('vector of the deletion')
    chain = f.loop_chain(m.blk)
    if len(chain) != 1:
        raise Undecided('loops around the deletion')
    L = chain[0]
    k = D.t(m.ops[1])
    out = []
    # guard
    gs = [(a, s) for a, s in E.guards(m.blk) if a in f.loops[L]['blocks'] and not (a in f.loops[L]['exiting'])]
    fs = []
    for a, s in gs:
        br = f.blocks[a][-1]
        if br.op != 'br' or not br.ops or br.ops[0] not in f.ins or f.ins[br.ops[0]].op != 'fcmp':
            raise Undecided('condition of the deletion')
        fs.append((f.ins[br.ops[0]], f.succ[a][0] == s))
    if len(fs) != 1:
        if not fs:
            raise Bad('entries are deleted without a comparison', m)
        raise Undecided('conditions of the deletion')
    c, val = fs[0]
    p = c.get('pred')
    if p not in ('ogt', 'ugt', 'olt', 'ult', 'oge', 'uge', 'ole', 'ule'):
        raise Undecided('condition of the deletion')
    p = p[1:]
    if not val:
        p = {'gt': 'le', 'lt': 'ge', 'ge': 'lt', 'le': 'gt'}[p]
    x, y = c.ops

    def modulus(o):
        j = D.d(o)
        if j is None or j.op not in ('call', 'invoke') or not re.match(r'llvm\.fabs|fabs|cabs|hypot|std::abs', j.get('cdem') or j.get('callee') or ''):
            return None
        seen, todo, hit = set(), list(j.ops), None
        while todo:
            q = todo.pop()
            if q in seen or q not in f.ins:
                continue
            seen.add(q)
            i = f.ins[q]
            if i.op in ('call', 'invoke') and re.search(r'::val\(', i.get('cdem') or ''):
                if not D.arg_is(i.ops[0], v):
                    raise Undecided('vector of the comparison')
                hit = i
            else:
                todo += list(i.ops)
                if i.op == 'load':
                    try:
                        root, _ = f.addr(i.ops[0])
                        todo += re.findall(r'%\d+', repr(root))
                    except Undecided:
                        pass
        return hit
    mx, my = modulus(x), modulus(y)
    if (mx is None) == (my is None):
        raise Undecided('operands of the comparison')
    if mx is None:
        x, y, mx = y, x, my
        p = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}[p]
    if D.t(mx.ops[1]) != k:
        raise Bad('the entry deleted is not the one compared', m)
    if p not in ('le',):
        raise Bad('entries are deleted if %s the threshold instead of at most the threshold' % {'gt': 'greater than', 'ge': 'at least', 'lt': 'less than'}[p], c)
    q = D.d(y)
    if q is None:
        if re.fullmatch(r'a\d+', y):
            raise Bad('the threshold is %s instead of %s/%s' % (D.names[int(y[1:])], tau, kappa), c)
        raise Undecided('threshold')
    if q.op in ('fmul', 'fdiv') and all(re.fullmatch(r'a\d+', o) for o in q.ops):
        ns = [D.names[int(o[1:])] for o in q.ops]
        if q.op != 'fdiv' or ns != [tau, kappa]:
            raise Bad('the threshold is %s%s%s instead of %s/%s' % (ns[0], '*' if q.op == 'fmul' else '/', ns[1], tau, kappa), q)
    else:
        raise Undecided('threshold')
    out.append(('threshold', 'entries deleted', m, '|v| <= %s/%s' % (tau, kappa)))
    # all entries
    it = D.count(L, c.blk)
    if k != Lin.atom(('it', L)):
        raise Undecided('entry deleted: %s' % E.txt(k))
    sz = [a for a in it.t]
    if it.c or len(sz) != 1 or it.t[sz[0]] != 1:
        raise Bad('entries compared: %s' % E.txt(it), m) if size_like(D, it, v) else Undecided('entries compared: %s' % E.txt(it))
    if not size_like(D, it, v):
        raise Undecided('entries compared: %s' % E.txt(it))
    if len(f.loops[L]['exiting']) != 1:
        raise Undecided('exits of the comparison')
    out.append(('threshold', 'entries compared', m, 'all'))
    # compressed afterwards
    cs = [i for i in D.calls(r'::compress_indices\(') if D.arg_is(i.ops[0], v)]
    if not cs:
        raise Bad('the deleted entries are not removed from the vector', m)
    import collections
    todo, seen = collections.deque(s for b in f.loops[L]['exiting'] for s in f.succ[b] if s not in f.loops[L]['blocks']), set()
    while todo:
        b = todo.popleft()
        if b in seen or any(i.blk == b for i in cs):
            continue
        seen.add(b)
        if not f.succ[b]:
            if f.blocks[b][-1].op == 'ret':
                raise Bad('the deleted entries are not removed from the vector on every path', m)
        todo.extend(f.succ[b])
    out.append(('threshold', 'deleted entries removed', cs[0], 'on every path'))
    gates(D, cs[0], lambda o: o == q.id, 'the threshold', v)
    gates(D, m, lambda o: o == q.id, 'the threshold', v)
    out.append(('threshold', 'applied', cs[0], 'whenever the threshold is positive'))
    return out


def size_like(D, l, v):
    ks = [a for a in l.t]
    return len(ks) == 1 and re.search(r'_counts|size\(\)', str(ks[0])) is not None and v in str(ks[0])


# ------------------------------------------------------------------ space
def ceil_atom(D, l):
    """the single limit atom of a linear form"""
    ks = [a for a in l.t if isinstance(a, tuple) and a[0] == 'v']
    return ks[0] if len(ks) == 1 else None


def space(D, nnz, alpha, v, start):
    f, E = D.f, D.E
    out = []
    nth = D.calls(r'^[^(]*std::nth_element<')
    if len(nth) != 1:
        raise Undecided('%d selections' % len(nth))
    c = nth[0]
    b, k, e = (D.t(o) for o in c.ops[:3])
    N4 = k - b
    w = 4
    st = [i for i in f.ins.values() if i.op == 'store' and not E.dead(i.blk)]
    if len(st) != 1:
        raise Undecided('%d stores' % len(st))
    s = st[0]
    N = D.t(s.ops[0])
    root, off = E.norm(*f.addr(s.ops[1]))
    n = divide(e - b, w)
    if not size_like(D, n, v):
        raise Undecided('range of the selection')
    if N4 not in ((N - Lin(1)).scale(w), N.scale(w)):      # either position leaves the N largest in front
        d = N4 - (N - Lin(1)).scale(w)
        if d.is_const():
            raise Bad('the selection puts the largest %+d entries in front but keeps the limit' % (d.c // w), c)
        raise Undecided('position of the selection')
    out.append(('select', 'entries in front', c, 'as many as are kept'))
    D.order(c, '>')
    out.append(('select', 'order of the selection', c, 'largest first'))
    # limit: N = max(ceil(alpha nnz), start + 1) - start
    at_ = ceil_atom(D, N)
    if at_ is None:
        raise Undecided('limit %s' % E.txt(N))
    S = arg(start)
    if N - Lin.atom(at_) != Lin(0) - S:
        raise (Bad('the number of entries kept is %s' % E.txt(N), s) if set(N.t) <= {at_, ('arg', start)} else Undecided('limit %s' % E.txt(N)))
    i = D.d(at_[1])
    if i.op in ('fptoui', 'fptosi'):
        raise Bad('the limit can be smaller than the entries that exist already', i)
    if i.op == 'select':
        cs = D.num(i.ops[0])
        x, y = D.t(i.ops[1]), D.t(i.ops[2])
        if len(cs) != 1 or cs[0][0] not in ('lt', 'le'):
            raise Undecided('choice of the limit')
        kind, dd, _ = cs[0]
        lx = [o for o in (i.ops[1], i.ops[2]) if D.d(o) is not None and D.d(o).op in ('fptoui', 'fptosi')]
        if len(lx) != 1:
            raise Undecided('choice of the limit')
        lim = lx[0]
        lt = D.t(lim)
        oth = y if lt == x else x
        if oth != S + Lin(1):
            raise Bad('the smallest limit is %s instead of one entry more than exist already' % E.txt(oth), i)
        # condition for taking the limit: start < lim
        pos = lt == x
        good = [('lt', S - lt), ('le', S + Lin(1) - lt)] if pos else [('le', lt - S), ('lt', lt - S - Lin(1))]
        if (kind, dd) not in good:
            raise Bad('the limit is chosen by %s %s 0' % (E.txt(dd), '<' if kind == 'lt' else '<='), i)
    elif i.op in ('call',) and (i.get('callee') or '').startswith('llvm.umax'):
        lx = [o for o in i.ops if D.d(o) is not None and D.d(o).op in ('fptoui', 'fptosi')]
        if len(lx) != 1:
            raise Undecided('choice of the limit')
        lim = lx[0]
        oth = [D.t(o) for o in i.ops if o != lim][0]
        if oth != S + Lin(1):
            raise Bad('the smallest limit is %s instead of one entry more than exist already' % E.txt(oth), i)
    else:
        raise Undecided('choice of the limit')
    al, sz = D.limit(lim)
    if al != alpha or sz != arg(nnz):
        raise Bad('the limit is %s times %s' % (al, E.txt(sz)), D.d(lim))
    out.append(('limit', 'entries kept', s, 'max(ceil(%s %s), %s + 1) - %s' % (alpha, nnz, start, start)))
    # a single entry
    me = D.calls(r'^[^(]*std::(max|min)_element<')
    for m in me:
        if (D.t(m.ops[0]), D.t(m.ops[1])) != (b, e):
            raise Bad('the largest entry is searched in another range', m)
        nm = re.search(r'std::(max|min)_element<', m.get('cdem')).group(1)
        D.order(m, '<' if nm == 'max' else '>')
        out.append(('select', 'single entry', m, 'the largest'))
    # only when there are more
    cs = [x for x in D.conds(s.blk) if isinstance(x[1], Lin) and any(a == at_ for a in x[1].t)]
    if len(cs) != 1:
        raise Undecided('condition of the limitation')
    if (cs[0][0], cs[0][1]) not in (('lt', N - n), ('le', N - n), ('le', N + Lin(1) - n)):
        raise Bad('the entries are limited if %s %s 0' % (E.txt(cs[0][1]), {'lt': '<', 'le': '<='}.get(cs[0][0], cs[0][0])), s)
    out.append(('limit', 'limited if', s, 'there are more entries'))
    ka = D.names.index(alpha)
    gates(D, s, lambda o: o == 'a%d' % ka, alpha, v, lambda l: at_ in l.t)
    out.append(('limit', 'applied', s, 'whenever %s is positive' % alpha))
    return out


def divide(l, w):
    if l.c % w or any(x % w for x in l.t.values()):
        raise Undecided('offset %s' % (l,))
    r = Lin(l.c // w)
    for a, x in l.t.items():
        r = r + Lin.atom(a, x // w)
    return r


def is_at(l, name=None):
    """l is one load at(name, index): (name, index)"""
    ks = list(l.t)
    if l.c or len(ks) != 1 or l.t[ks[0]] != 1 or not isinstance(ks[0], tuple) or ks[0][0] != 'at':
        return None
    from ir import untup
    return (ks[0][1], untup(ks[0][2])) if name is None or ks[0][1] == name else None


# ------------------------------------------------------------------ off-diagonal blocks
def block(D, c, roles):
    """limitation of the rows (columns) of one block around the selection c; roles(array of indices) -> names"""
    f, E = D.f, D.E
    out = []
    b, k, e = (D.t(o) for o in c.ops[:3])
    ps = [a for a in b.t if isinstance(a, tuple) and a[0] == 'ptr']
    if len(ps) != 1 or b.t[ps[0]] != 1:
        raise Undecided('range of the selection')
    IND = ps[0][1]
    R = roles(IND)
    if R is None:
        raise Undecided('array %s of the selection' % IND)
    PTR, VAL, alpha, ref, gap = R
    fi = is_at(divide(b - Lin.atom(ps[0]), 4), PTR)
    if fi is None:
        raise Undecided('start of the selection')
    row = fi[1]
    first, last = at(PTR, row), at(PTR, row + Lin(1))
    nnz = last - first
    if divide(e - b, 4) != nnz:
        raise Bad('the selection runs over %s entries' % E.txt(divide(e - b, 4)), c)
    lim1 = divide(k - b, 4)
    a = ceil_atom(D, lim1)
    if a is None:
        raise Undecided('position of the selection')
    lim = Lin.atom(a)
    if lim1 not in (lim, lim - Lin(1)):
        if set(lim1.t) == {a} and lim1.t[a] == 1:
            raise Bad('the selection puts the largest %s entries in front' % E.txt(lim1 + Lin(1)), c)
        raise Undecided('position of the selection')
    out.append(('select', 'entries in front', c, 'as many as are kept'))
    D.order(c, '>')
    out.append(('select', 'order of the selection', c, 'largest first'))
    al, sz = D.limit(a[1])
    if al != alpha:
        raise Bad('the limit is a multiple of %s instead of %s' % (al, alpha), D.d(a[1]))
    if sz != at(ref, row + Lin(1)) - at(ref, row):
        xs = [is_at(Lin.atom(q)) for q in sz.t]
        if all(xs):
            raise Bad('the limit is a multiple of %s instead of the size in %s' % (E.txt(sz), ref), D.d(a[1]))
        raise Undecided('size of the limit')
    out.append(('limit', 'entries kept', D.d(a[1]), 'ceil(%s (%s[i+1] - %s[i]))' % (alpha, ref, ref)))
    # number of entries removed
    G = 0
    for s in f.ins.values():
        if s.op != 'store' or E.dead(s.blk) or s.get('sty') not in (None, 'i32', 'i64'):
            continue
        try:
            root, off = E.norm(*f.addr(s.ops[1]))
            mm = E.mem(root)
            off = E.canon(off)
            ix = divide(off, 4)
        except Undecided:
            continue
        if ix != row or not mm.startswith(gap):
            continue
        val = D.t(D.through(s.ops[0]))
        cs = [x for x in D.conds(s.blk) if isinstance(x[1], Lin) and a in x[1].t]
        if len(cs) != 1:
            raise Undecided('condition of the number removed')
        more = (cs[0][0], cs[0][1]) in (('lt', lim - nnz), ('le', lim - nnz), ('le', lim + Lin(1) - nnz))
        less = (cs[0][0], cs[0][1]) in (('le', nnz - lim), ('lt', nnz - lim), ('lt', nnz - lim - Lin(1)))
        if not more and not less:
            raise Bad('the entries are limited depending on %s %s 0' % (E.txt(cs[0][1]), {'lt': '<', 'le': '<='}.get(cs[0][0], cs[0][0])), s)
        want = nnz - lim if more else Lin(0)
        if val != want:
            raise Bad('the number of entries removed is %s instead of %s' % (E.txt(val), E.txt(want)), s)
        G += 1
        out.append(('limit', 'entries removed %s' % ('if there are more' if more else 'otherwise'), s, E.txt(val)))
    if G != 2:
        raise Undecided('%d numbers of removed entries' % G)
    # values follow their indices
    gat = sca = 0
    moves = []
    for s in f.ins.values():
        if E.dead(s.blk):
            continue
        if s.op == 'store':
            ld = f.ins.get(s.ops[0])
            if ld is not None and ld.op == 'load':
                moves.append((s, s.ops[1], ld.ops[0]))
        elif s.op == 'call' and re.match(r'llvm\.mem(cpy|move)\.', s.get('callee') or '') and s.ops[2] == 'c:%d' % D.vs:
            moves.append((s, s.ops[0], s.ops[1]))
    for s, dst, src in moves:
        try:
            ra, oa = f.addr(dst)
            rb, ob = f.addr(src)
        except Undecided:
            continue

        def side(r, o):
            try:
                r2, o2 = E.norm(r, o)
                m = E.mem(r2)
            except Undecided:
                return None, E.canon(o)
            return m, E.canon(o2)
        try:
            (ma, oa), (mb, ob) = side(ra, oa), side(rb, ob)
        except Undecided:
            continue
        ch = f.loop_chain(s.blk)
        if not ch or VAL not in (ma, mb):
            continue
        L = ch[0] if f.loops[ch[0]]['depth'] >= f.loops[ch[-1]]['depth'] else ch[-1]
        w = D.vs
        pos = first + Lin.atom(('it', L))
        n = D.count(L, s.blk)
        if mb == VAL and ma != VAL:         # gather
            ix = indexof(D, oa, w, IND)
            if ix is None:
                continue
            if not follows(divide(ob, w), ix, pos, last - Lin(1) - Lin.atom(('it', L))):
                raise Bad('the values do not follow their indices into the buffer', s)
            if n != last - first:
                raise Bad('%s values are moved to the buffer' % E.txt(n), s) if known(n) else Undecided('values moved to the buffer')
            gat += 1
            out.append(('move', 'values to the buffer', s, 'all entries by their index'))
        elif ma == VAL and mb != VAL:
            ix = indexof(D, ob, w, IND)
            if ix is None:
                continue
            if not follows(divide(oa, w), ix, pos, first + lim - Lin(1) - Lin.atom(('it', L))):
                raise Bad('the values do not follow their indices from the buffer', s)
            if n != lim:
                raise Bad('%s values are moved from the buffer' % E.txt(n), s) if known(n) else Undecided('values moved from the buffer')
            sca += 1
            out.append(('move', 'values from the buffer', s, 'the entries kept by their index'))
    if not gat or not sca:
        raise Undecided('values of the selection')
    # compression
    cps = [i for i in D.calls(r'^[^(]*std::copy<') if not E.dead(i.blk)]
    mine = []
    for i in cps:
        try:
            x, y = D.t(i.ops[0]), D.t(i.ops[1])
        except Undecided:
            continue
        for nm, w in ((IND, 4), (VAL, D.vs)):
            p = Lin.atom(('ptr', nm))
            if ('ptr', nm) in x.t and ('ptr', nm) in y.t:
                try:
                    mine.append((nm, divide(x - p, w), divide(y - p, w), i))
                except Undecided:
                    pass
    if {m[0] for m in mine} != {IND, VAL} or len(mine) != 2:
        raise Undecided('%d compressing copies' % len(mine))
    (n1, x1, y1, i1), (n2, x2, y2, i2) = mine
    if x1 != x2:
        raise Bad('indices and values are compressed from different starts', i2)
    g1 = [q for q in y1.t if isinstance(q, tuple) and q[0] == 'at' and not q[1].startswith(PTR)]
    g2 = [q for q in y2.t if isinstance(q, tuple) and q[0] == 'at' and not q[1].startswith(PTR)]
    if len(g1) != 1 or len(g2) != 1:
        raise Undecided('ends of the compressing copies')
    for g, i in ((g1[0], i1), (g2[0], i2)):
        if not g[1].startswith(gap):
            raise Bad('the entries removed are counted in %s instead of %s' % (g[1], gap), i)
    if y1 != y2:
        raise Bad('indices and values are compressed to different ends', i2)
    if y1.t[g1[0]] != -1:
        raise Bad('the entries removed are not subtracted', i1)
    out.append(('move', 'compression', i1, 'indices and values of the entries kept'))
    try:
        out += chain(D, x1, i1, i2)
    except Undecided as e:
        D.unds.append('compression: %s' % e)
    return out


def chain(D, x1, i1, i2):
    """the rows are compressed one after the other: old starts for reading, new starts for the result"""
    f, E = D.f, D.E
    ch = f.loop_chain(i1.blk)
    if not ch or ch != f.loop_chain(i2.blk):
        raise Undecided('loop of the compression')
    L = f.loops[ch[0]]
    it = Lin.atom(('it', ch[0]))

    def slot(o, what):
        """(instruction, row) of an access to the row starts"""
        i = D.d(o)
        while i is not None and i.op in ('sext', 'zext', 'trunc', 'freeze'):
            i = D.d(i.ops[0])
        if i is None or i.op != what:
            return None
        try:
            return i, divide(E.canon(f.addr(i.ops[0 if what == 'load' else 1])[1]), 8)
        except Undecided:
            return None
    if not (len(x1.t) == 1 and x1.c == 0):
        raise Undecided('old start')
    a = next(iter(x1.t))
    phi = D.d(a[1]) if isinstance(a, tuple) and isinstance(a[1], str) else None
    if phi is None or phi.op != 'phi' or phi.blk != L['header']:
        raise Undecided('old start')
    nx = [o for o, b in zip(phi.ops, phi.get('from')) if int(str(b).lstrip('b')) in L['blocks']]
    if len(nx) != 1:
        raise Undecided('old start')
    ld = slot(nx[0], 'load')
    if ld is None:
        for s in f.ins.values():
            if s.op == 'store' and s.blk in L['blocks'] and D.through(s.ops[0]) == D.through(nx[0]) and D.through(s.ops[0]) in f.ins and slot(s.id, 'store') and slot(s.id, 'store')[1] == it + Lin(1):
                raise Bad('the next row is read from its new start instead of its old one', s)
    if ld is None or ld[1] not in (it, it + Lin(1)):
        raise Undecided('next old start')
    root = f.addr(ld[0].ops[0])[0]
    st = []
    for s in f.ins.values():
        if s.op == 'store' and s.blk in L['blocks'] and not E.dead(s.blk):
            try:
                r, o = f.addr(s.ops[1])
                if r == root or f.ins.get(s.ops[1]) is not None and E.mem(E.norm(r, o)[0]) == E.mem(E.norm(root, Lin(0))[0]):
                    st.append((s, divide(E.canon(o), 8)))
            except Undecided:
                pass
    if len(st) != 1 or st[0][1] != it + Lin(1):
        raise Undecided('%d stores of new starts' % len(st))
    s = st[0][0]
    out = []
    if ld[1] == it or f.idominates(s, ld[0]):
        raise Bad('the next row is read from its new start instead of its old one', ld[0])
    if not f.idominates(ld[0], s):
        raise Undecided('next old start')
    out.append(('move', 'old starts', ld[0], 'read before they are overwritten'))
    # destinations
    for i, nm in ((i1, 'indices'), (i2, 'values')):
        p = D.d(i.ops[2])
        if p is None or p.op != 'phi' or p.blk != L['header']:
            raise Undecided('destination of the %s' % nm)
        nx = [o for o, b in zip(p.ops, p.get('from')) if int(str(b).lstrip('b')) in L['blocks']]
        if nx != [i.id]:
            q = D.d(nx[0]) if len(nx) == 1 else None
            if q is not None and q.id in (i1.id, i2.id):
                raise Bad('the %s continue at the end of another copy' % nm, i)
            raise Undecided('destination of the %s' % nm)
        out.append(('move', 'destination of the %s' % nm, i, 'end of the copy of the previous row'))
    # new start = previous new start + entries copied
    v = D.d(D.through(s.ops[0]))
    if v is None or v.op != 'add':
        raise Undecided('new start')
    prev = [x for x in (slot(o, 'load') for o in v.ops) if x is not None]
    dif = [D.d(o) for o in v.ops if slot(o, 'load') is None]
    if len(prev) != 1 or len(dif) != 1 or dif[0] is None:
        raise Undecided('new start')
    if prev[0][1] != it:
        if prev[0][1] == it + Lin(1):
            raise Bad('the new start is counted from the old end of the row', prev[0][0])
        raise Undecided('new start')
    d = dif[0]
    w = 1
    while d is not None and d.op in ('ashr', 'lshr', 'sdiv', 'sext', 'zext', 'trunc'):
        if d.op in ('ashr', 'lshr'):
            w <<= int(d.ops[1][2:])
        elif d.op == 'sdiv':
            w *= int(d.ops[1][2:])
        d = D.d(d.ops[0])
    if d is None or d.op != 'sub':
        raise Undecided('number of entries copied')
    x, y = (D.d(o).ops[0] if D.d(o) is not None and D.d(o).op == 'ptrtoint' else None for o in d.ops)
    for i, width in ((i1, 4 if 'int' in (i1.get('cdem') or '') else None), (i2, D.vs)):
        if x == i.id and y == i.ops[2]:
            out.append(('move', 'new starts', s, 'previous start plus the entries copied'))
            return out
    raise Undecided('number of entries copied')


def follows(v, i, up, down):
    """value at v goes with index at i, over the entries counted up or down; False when it does not, Undecided when not recognised"""
    if v == i:
        if v in (up, down):
            return True
        for d in (v - up, v - down):
            if d.is_const():
                return False
        raise Undecided('order of the entries moved')
    if (v - i).is_const() or v in (up, down) or i in (up, down):
        return False
    raise Undecided('order of the entries moved')


def known(n):
    return all(isinstance(a, tuple) and a[0] in ('at', 'v', 'arg', 'fld', 'max') for a in n.t)


def indexof(D, off, w, IND):
    """off == w * IND[pos]: pos"""
    try:
        r = is_at(divide(off, w), IND)
    except Undecided:
        return None
    return r[1] if r else None


def run(rep, prog, mprog):
    done = {}
    for f in prog.functions:
        m = re.match(r'void hif::(?:internal::)?(apply_num_dropping|apply_space_dropping|drop_offsets_kernel|drop_L_E|drop_U_F)<', f.dem)
        if not m or 'operator()' in f.dem[-60:] or len(f.ins) < 4:
            continue
        nm = m.group(1)
        cx = 'complex' in f.dem
        lab = nm + (' (complex)' if cx else '')
        if done.get(lab):
            continue
        done[lab] = True
        ds = []
        try:
            if nm == 'apply_num_dropping':
                res = numerical(D(prog, f, ['tau', 'kappa', 'v'], f.dem), 'tau', 'kappa', 'v')
            elif nm == 'apply_space_dropping':
                res = space(D(prog, f, ['nnz', 'alpha', 'v', 'start_size'], f.dem), 'nnz', 'alpha', 'v', 'start_size')
            elif nm == 'drop_offsets_kernel':
                d = D(prog, f, ['ref_indptr', 'alpha', 'indptr', 'indices', 'vals', 'buf', 'ibuf'], f.dem)
                d.vs = 16 if cx else 8
                cs = d.calls(r'^[^(]*std::nth_element<')
                if len(cs) != 1:
                    raise Undecided('%d selections' % len(cs))
                ds.append(d)
                res = block(d, cs[0], lambda ind: ('indptr', 'vals', 'alpha', 'ref_indptr', 'ibuf') if ind == 'indices' else None)
            else:
                res = forward(D(prog, f, ['ref', 'alpha', 'M', 'buf', 'ibuf'], f.dem))
        except Bad as e:
            rep.bad(RULE.get(nm, 'limit'), lab, str(e), e.ins.loc if e.ins is not None else f.dem[:100])
            continue
        except Undecided as e:
            rep.und(RULE.get(nm, 'limit'), lab, e)
            continue
        for x in res:
            rep.ok(x[0], '%s: %s' % (lab, x[1]), '%s: %s' % (x[2].loc.split('(')[0], x[3]))
        for d in ds:
            for u in d.unds:
                rep.und('move', lab, u)
    names = 'ref_indptr_L alpha_L ref_indptr_U alpha_U L_E U_F buf_L ibuf_L buf_U ibuf_U nthreads'.split()

    def side(ind):
        m = re.match(r'(L_E|U_F)\._indices$', ind)
        if not m:
            return None
        s = m.group(1)[0]
        return (m.group(1) + '._ind_start', m.group(1) + '._vals', 'alpha_' + s, 'ref_indptr_' + s, 'ibuf_' + s)
    todo = []
    for f in mprog.functions:
        if re.match(r'void hif::mt::drop_L_E_and_U_F<', f.dem) and not re.search(r'omp_outlined|operator\(\)', f.dem[-60:]) and len(f.ins) > 4 and len(f.args) == len(names):
            todo.append((f, f, names, 'serial part'))
    for name, (P, fk, lim) in mtrun.forkmap(mprog).items():
        if not re.match(r'void hif::mt::drop_L_E_and_U_F<', P.dem) or len(P.args) != len(names):
            continue
        f = next(x for x in mprog.functions if x.name == name)
        try:
            todo.append((f, P, shared_roles(P, fk, f, names), 'threads'))
        except Undecided as e:
            rep.und('same', 'mt::drop_L_E_and_U_F', e)
    for f, P, roles, what in todo:
        cx = 'complex' in P.dem
        lab = 'mt::drop_L_E_and_U_F, %s%s' % (what, ' (complex)' if cx else '')
        encl = P.dem
        d = D(mprog, f, roles, encl)
        d.vs = 16 if cx else 8
        for c in d.calls(r'^[^(]*hif::drop_(L_E|U_F)<'):
            s = re.search(r'hif::drop_(L_E|U_F)<', c.get('cdem')).group(1)
            want = ['ref_indptr_' + s[0], 'alpha_' + s[0], s]
            try:
                for k, n in enumerate(want):
                    r = d.arg_is(c.ops[k], n) if k != 1 else passed(d, c.ops[k], n)
                    if r is None:
                        raise Undecided('argument %d' % k)
                    if not r:
                        raise Bad('argument %d of drop_%s is not %s' % (k + 1, s, n), c)
            except Bad as e:
                rep.bad('same', lab, str(e), e.ins.loc)
                continue
            except Undecided as e:
                rep.und('same', lab, e)
                continue
            rep.ok('same', '%s: drop_%s' % (lab, s), '%s: called with %s' % (c.loc.split('(')[0], ', '.join(want)))
        for c in d.calls(r'^[^(]*std::nth_element<'):
            try:
                for x in block(d, c, side):
                    rep.ok(x[0], '%s: %s' % (lab, x[1]), '%s: %s' % (x[2].loc.split('(')[0], x[3]))
            except Bad as e:
                rep.bad('same', lab, str(e), e.ins.loc if e.ins is not None else f.dem[:100])
            except Undecided as e:
                rep.und('same', lab, e)
        for u in d.unds:
            rep.und('move', lab, u)
    return len(done)


RULE = {'apply_num_dropping': 'threshold', 'apply_space_dropping': 'limit', 'drop_offsets_kernel': 'limit', 'drop_L_E': 'same', 'drop_U_F': 'same'}


def passed(d, o, n):
    """operand o is the value of the named scalar argument"""
    if re.fullmatch(r'a\d+', o):
        return d.names[int(o[1:])] == n
    i = d.d(o)
    if i is None or i.op != 'load':
        return None
    try:
        root, off = d.E.norm(*d.f.addr(i.ops[0]))
        return off == Lin(0) and d.E.mem(root) == n
    except Undecided:
        return None


def forward(d):
    f = d.f
    cs = d.calls(r'hif::internal::drop_offsets_kernel<')
    if len(cs) != 1:
        raise Undecided('%d calls of the kernel' % len(cs))
    c = cs[0]
    for k, n in ((0, 'ref'), (5, 'buf'), (6, 'ibuf')):
        if d.arg_is(c.ops[k], n) is False:
            raise Bad('argument %d of the kernel is not %s' % (k + 1, n), c)
    if passed(d, c.ops[1], 'alpha') is False:
        raise Bad('the limit of the kernel is not alpha', c)
    want = {2: 0, 3: 40, 4: 80}
    for k, o in want.items():
        t = d.t(c.ops[k]) - Lin.atom(('ptr', 'M'))
        if not t.is_const():
            raise Undecided('argument %d of the kernel' % k)
        if t.c != o:
            raise Bad('argument %d of the kernel is another array of the block' % (k + 1), c)
    return [('same', 'kernel', c, 'called with the sizes, limit and arrays of the block')]


def body(rep, w):
    rep.rule('threshold', 'numerical dropping deletes exactly the entries whose modulus is at most tau/kappa')
    rep.rule('limit', 'the number of entries kept is the limit times the size of the row (column) of the input rounded up, and only longer rows are shortened')
    rep.rule('select', 'the entries kept are those with the largest modulus')
    rep.rule('move', 'indices and values stay together when entries are removed')
    rep.rule('same', 'serial and threaded dropping of the off-diagonal blocks use the limit and the sizes of their own block in the same way')
    cfg = open(os.path.join(vt.VERIF, 'cfg', 'drop.cfg')).read()
    prog = w.dump(w.lower('tus/crout.cpp', []), cfg)
    mprog = w.dump(w.lower('tus/mt.cpp', ['-fopenmp', '-I', os.path.join(vt.VERIF, 'tus', 'omp')]), cfg)
    n = run(rep, prog, mprog)
    rep.need('limit', n, 2, 'dropping routines')
