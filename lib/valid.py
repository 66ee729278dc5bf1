"""Validation of compressed matrices: which malformed inputs reach the end of a validating function without an error.

A defect class is a set of facts about one row (or about the header); the function is specialised to them and must have no
path that completes.  Rows and entries are taken by a generic iteration of a loop that every completing path passes and
that covers all of them.
"""
import re
from ir import Lin, Undecided, untup
from spec import SFunc

INF = float('inf')
W = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}


class Scheme:
    """where the position array, the index array, the counts and the lengths are"""

    def __init__(self, f):
        nm = lambda k: (f.args[k].get('var') or f.args[k]['name'])
        self.member = re.search(r'::(\w+)\(', f.dem).group(1)
        self.row = self.member.endswith('crs')
        if self.member.startswith('check'):
            self.start, self.ind = ('ld', ('arg', 0), Lin(0).tup(), 'ptr', None), ('ld', ('arg', 0), Lin(40).tup(), 'ptr', None)
            a = nm(0)
            self.fields = {'status': 24 + 40 * 0, 'ssize': 8, 'isize': 48, 'vsize': 88, 'n': 120, 'm': 128}
            self.check = False
        else:
            self.start, self.ind = ('arg', 3), ('arg', 4)
            self.n, self.m = (1, 2) if self.row else (2, 1)
            self.fields = {}
            self.check = True


class VF(SFunc):
    def __init__(self, f, sch, facts=(), L=None, K=None, shift=0, srt=None, asg=None):
        self.sch, self.L, self.K, self.shift, self.srt, self.asg = sch, L, K, shift, srt, asg
        self.base0 = f
        self.exact = ({'ssize': 1, 'n': -1}, 1, 1) in facts or asg is not None
        env = {'check': 1} if sch.check else {}
        env['\0'] = 0
        if ({'p0': 1}, 0, 0) in facts or asg and asg.get('p0') == (0, 0):
            env['p0'] = 0
        facts = list(facts) + [({'n': 1}, 0, INF), ({'m': 1}, 0, INF)]
        if not sch.check:
            facts.append(({'status': 1}, 1, 2))
        SFunc.__init__(self, f, env, facts, truth=VF.tf)

    # names -------------------------------------------------
    def isroot(self, r, which):
        w = self.sch.start if which == 's' else self.sch.ind
        if r == w:
            return True
        return r[0] == 'ld' and w[0] == 'ld' and r[1] == w[1] and untup(r[2]) == untup(w[2])

    def cnt(self, a):
        """n / m"""
        if a[0] == 'arg' and self.sch.check:
            return {self.sch.n: 'n', self.sch.m: 'm'}.get(a[1])
        if a[0] == 'ld' and a[1] == ('arg', 0) and not self.sch.check:
            o = untup(a[2])
            if o.is_const():
                for k, v in self.sch.fields.items():
                    if o.c == v and k in 'nm':
                        return k
        return None

    def pos(self, a):
        """relative position c when a is start[row + c]; 'nnz' for start[n]; 'p0' for start[0]"""
        if a[0] != 'ld' or a[3] not in W or not self.isroot(a[1], 's'):
            return None
        o = untup(a[2])
        w = W[a[3]]
        if o == Lin(0):
            return 'p0'
        if any(k % w for k in o.t.values()) or o.c % w:
            return None
        it = ('it', self.L)
        if set(o.t) == {it} and o.t[it] == w:
            return 'p@%d' % (o.c // w - self.shift)
        if len(o.t) == 1 and not o.c:
            (x, k), = o.t.items()
            if k == w and self.cnt(x) == 'n':
                return 'nnz'
        if len(o.t) == 1 and o.c == -w and self.exact:
            (x, k), = o.t.items()
            if k == w and x[0] == 'ld' and x[1] == ('arg', 0) and untup(x[2]) == Lin(self.sch.fields.get('ssize', -1)):
                return 'nnz'            # the last of exactly n+1 positions
        return None

    def where(self, o, w):
        """byte offset in the index array -> name of the entry"""
        if any(k % w for k in o.t.values()) or o.c % w:
            return None
        c = o.c // w
        t = dict(o.t)
        inner = t.pop(('it', self.K), 0) if self.K is not None else 0
        if len(t) != 1:
            return None
        (x, k), = t.items()
        p = self.pos(x)
        if k != w or p not in ('p@0', 'p@1') or inner not in (0, w):
            return None
        if inner:
            return 'elem@%d' % c if p == 'p@0' else None
        return ('first@%d' if p == 'p@0' else 'last@%d') % c

    def aname(self, a):
        if not hasattr(self, 'sch'):
            return SFunc.aname(self, a)
        c = self.cnt(a)
        if c:
            return c
        if a[0] == 'arg':
            n = SFunc.aname(self, a)
            return n
        if a == ('it', self.L) and self.L is not None:
            return 'row'
        if a == ('it', self.K) and self.K is not None:
            return 'entry'
        if a[0] == 'ld':
            if a[1] == ('arg', 0) and not self.sch.check:
                o = untup(a[2])
                if o.is_const():
                    for k, v in self.sch.fields.items():
                        if k == 'status':
                            if o.c in (24, 64, 104):
                                return k
                        elif o.c == v:
                            return k
                return None
            p = self.pos(a)
            if p:
                return p
            if a[3] in W and self.isroot(a[1], 'i'):
                return self.where(untup(a[2]), W[a[3]])
        return None

    def bounds(self, l):
        """under a witness every name is a number a*M + b, M beyond every bound"""
        if getattr(self, 'asg', None) is not None and not l.is_const():
            d = self.named(l)
            if d is None or any(n not in self.asg for n in d):
                return -INF, INF
            a = sum(k * self.asg[n][0] for n, k in d.items())
            b = sum(k * self.asg[n][1] for n, k in d.items()) + l.c
            return (b, b) if not a else (10 ** 6, INF) if a > 0 else (-INF, -10 ** 6)
        return SFunc.bounds(self, l)

    # comparisons -------------------------------------------
    def sorted_call(self, v):
        i = self.ins.get(v)
        if i is None or i.op != 'call':
            return None
        m = re.match(r'(?:[\w*: ]+ )?std::(is_sorted|is_sorted_until)<', i.get('cdem') or '') or re.search(r'std::(is_sorted|is_sorted_until)<', i.get('cdem') or '')
        if not m:
            return None
        try:
            w = None
            ra, oa = self.addr(i.ops[0])
            rb, ob = self.addr(i.ops[1])
        except Undecided:
            return None
        e = re.search(r'is_sorted(?:_until)?<(\w[\w ]*?) const\*', i.get('cdem'))
        w = {'int': 4, 'long': 8, 'unsigned int': 4, 'unsigned long': 8, 'short': 2}.get(e.group(1)) if e else None
        if w is None or not self.isroot(ra, 'i') or ra != rb:
            return None
        if self.where(oa, w) != 'first@0' or self.where(ob, w) != 'last@0':
            return None
        return i, m.group(1)

    def tf(self, i):
        if i.op == 'call':
            s = self.sorted_call(i.id)
            if s and s[1] == 'is_sorted':
                return self.srt
            return None
        if i.op != 'icmp':
            return None
        p = i.get('pred')
        for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
            s = self.sorted_call(x)
            if s and s[1] == 'is_sorted_until' and p in ('eq', 'ne') and self.srt is not None:
                try:
                    if self.addr(y) == self.addr(s[0].ops[1]):
                        return self.srt == (p == 'eq')
                except Undecided:
                    pass
        if p in ('ult', 'ule', 'ugt', 'uge') and not self.isptr(i.ops[0]):
            try:
                a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
            except Undecided:
                return None
            (al, ah), (bl, bh) = self.bounds(a), self.bounds(b)
            if ah < 0 and bl >= 0:      # a negative value compares as a huge one
                return p in ('ugt', 'uge')
            if bh < 0 and al >= 0:
                return p in ('ult', 'ule')
        return None

    def cmp(self, i):
        """the test that continues a loop over rows or entries stays open"""
        for l in (self.L, self.K):
            if l is not None:
                M = self.base0.loops[l]
                if i.blk in M['exiting'] and (i.blk == M['header'] or M['header'] in self.base0.succ[i.blk]):
                    return None
        return SFunc.cmp(self, i)

    # graph -------------------------------------------------
    def bodies(self, lid):
        """blocks where an iteration starts"""
        L = self.base0.loops[lid]
        h = L['header']
        if h not in self.blocks:
            return None
        if h in L['exiting']:
            return [s for s in self.succ[h] if s in L['blocks']]
        return [h]

    def fails(self, lid, inner=True):
        """every iteration ends in an error: True / False / None (undecided)"""
        bs = self.bodies(lid)
        if bs is None:
            return False
        if not any(b in self.returning() for b in bs):
            return True
        L = set(self.base0.loops[lid]['blocks'])
        st, seen = list(bs), set()
        while st:
            b = st.pop()
            if b in seen or b not in L:
                continue
            seen.add(b)
            for s in self.succ[b]:
                if b == self.base0.loops[lid]['header'] and b in self.base0.loops[lid]['exiting'] and s not in L:
                    continue
                if len(self.succ[b]) > 1 and s not in self.returning() and (inner or self.base0.bloop[b] == lid):
                    return None
                if s != self.base0.loops[lid]['header']:
                    st.append(s)
        return False

    def may_fail(self, lid):
        L = set(self.base0.loops[lid]['blocks'])
        bs = self.bodies(lid) or []
        return [b for b in bs if b not in self.returning()]

    def passes(self, frm, to, via):
        """every live path from a block of frm to one of `to` goes through via"""
        st, seen = [b for b in frm if b != via], set()
        while st:
            b = st.pop()
            if b in seen or b == via:
                continue
            seen.add(b)
            if b in to:
                return False
            st.extend(s for s in self.succ.get(b, ()) if s in self.returning())
        return True

    def exits(self):
        return {b for b in self.blocks if self.blocks[b] and self.blocks[b][-1].op == 'ret'}


def bodycount(f, lid):
    L = f.loops[lid]
    t = f.trips(lid)
    return t - 1 if L['exiting'] == [L['header']] else t


def lam(p, f, i):
    """predicate of the comparator of a sortedness call: 'le', 'lt' or None"""
    d = i.get('cdem')
    if 'lambda' not in d:
        return 'lt' if len(i.ops) == 2 else None
    res = set()
    for g in p.find(r"::operator\(\)\([^()]*\) const$"):
        if '__gnu_cxx' in g.dem or g.dem[:g.dem.rindex('::operator()')] + '>(' not in d:
            continue
        rets = [x for b in g.blocks.values() for x in b if x.op == 'ret']
        if len(rets) != 1 or not rets[0].ops[0].startswith('%'):
            res.add(None)
            continue
        c = g.ins[rets[0].ops[0]]
        if c.op in ('zext', 'xor') and c.ops[0].startswith('%'):
            neg = c.op == 'xor'
            c = g.ins[c.ops[0]]
        else:
            neg = False
        if c.op != 'icmp':
            res.add(None)
            continue
        try:
            a, b = g.lin(c.ops[0]), g.lin(c.ops[1])
        except Undecided:
            res.add(None)
            continue
        n = len(g.args)
        l, r = Lin.atom(('arg', n - 2)), Lin.atom(('arg', n - 1))
        pr = c.get('pred').lstrip('us') if c.get('pred') not in ('eq', 'ne') else None
        if a == r and b == l:
            pr = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt'}.get(pr)
        elif not (a == l and b == r):
            pr = None
        if neg:
            pr = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le'}.get(pr)
        res.add(pr)
    return res.pop() if len(res) == 1 else None


HEADW = {'m': (1, 0), 'n': (1, 5), 'p0': (0, 0), 'nnz': (1, 50), 'isize': (1, 50), 'vsize': (1, 50), 'ssize': (1, 6), 'status': (0, 1), 'row': (0, 5), 'entry': (0, 0)}


def wit(**k):
    """a matrix with one particular row; x: the value of its only entry"""
    d = dict(HEADW)
    x = k.pop('x', (0, 3))
    y = k.pop('y', None)
    d.update({'p@0': (0, 10), 'p@1': (0, 11) if y is None else (0, 12), 'elem@0': x, 'first@0': x, 'last@-1': x if y is None else y,
              'p@-1': (0, 9), 'p@2': (0, 13)})
    if y is None:
        d.update({'last@-2': (0, 1), 'first@1': (0, 4)})
    else:
        d.update({'elem@1': y, 'first@1': y, 'last@-2': x})
    d.update({a.replace('_', '@'): b for a, b in k.items()})
    return d


def witness(f, sch, asg, srt, want):
    """does the validating function let the witness pass (want False: end in an error)?  True / False / None"""
    res = True
    v = VF(f, sch, [], None, None, 0, srt, asg)
    for b in v.returning():
        if v.bloop[b] == -1 and len(v.succ[b]) > 1 and any(s not in v.returning() for s in v.succ[b]):
            res = None
    if v.entry not in v.returning():
        return False
    for L in f.loops:
        if f.loops[L]['parent'] != -1:
            continue
        v = VF(f, sch, [], L, None, 0, srt, asg)
        r = v.fails(L, False)
        if r is True:
            return False
        if r is None:
            res = None
        for K in f.loops:
            if f.loops[K]['parent'] != L:
                continue
            v = VF(f, sch, [], L, K, 0, srt, asg)
            if f.loops[K]['header'] not in v.blocks:
                continue
            hs = v.bodies(K)
            if not hs:          # not a single entry is looked at
                continue
            n = asg['p@1'][1] - asg['p@0'][1]
            cnt = None
            try:
                lo, hi = v.bounds(bodycount(f, K))
                cnt = lo if lo == hi else None
            except Undecided:
                pass
            vals = [asg['elem@0'], asg.get('elem@1')]
            for e in range(max(0, n) if cnt is None else min(max(cnt, 0), max(n, 0))):
                a = dict(asg, **{'elem@%d' % (j - e): vals[j] for j in range(n)})
                a['entry'] = (0, e)
                r = VF(f, sch, [], L, K, 0, srt, a).fails(K)
                if r is True and cnt is not None:
                    return False
                if r is not False:
                    res = None
    return res


V_EXACT = [({'ssize': 1, 'n': -1}, 1, 1), ({'p0': 1}, 0, 0), ({'isize': 1, 'nnz': -1}, 0, 0), ({'vsize': 1, 'nnz': -1}, 0, 0), ({'nnz': 1}, 0, INF)]
NONEMPTY = [({'p@1': 1, 'p@0': -1}, 1, INF)]


def rng(nm, lo, hi=None):
    """nm in [lo, m + hi]"""
    return [({nm: 1}, lo, INF), ({nm: 1, 'm': -1}, -INF, -1 if hi is None else hi)]


def head(rep, f, what, sch):
    if sch.check:
        cases = [('first position not zero', [({'p0': 1}, 1, INF)]), ('first position negative', [({'p0': 1}, -INF, -1)])]
    else:
        def repl(k, d, lo, hi):
            return [x for j, x in enumerate(V_EXACT) if j != k] + [(d, lo, hi)]
        cases = [('position array too short', repl(0, {'ssize': 1, 'n': -1}, -INF, 0)),
                 ('first position not zero', repl(1, {'p0': 1}, 1, INF)),
                 ('first position negative', repl(1, {'p0': 1}, -INF, -1)),
                 ('more entries than indices', repl(2, {'isize': 1, 'nnz': -1}, -INF, -1)),
                 ('more entries than values', repl(3, {'vsize': 1, 'nnz': -1}, -INF, -1))]
    HW = {'first position not zero': {'p0': (0, 1)}, 'first position negative': {'p0': (0, -1)}, 'position array too short': {'ssize': (1, 5)},
          'more entries than indices': {'isize': (1, 49)}, 'more entries than values': {'vsize': (1, 49)}}
    for nm, facts in cases:
        hw = HW[nm]
        v = VF(f, sch, facts)
        w = '%s: %s' % (what, nm)
        if v.entry not in v.returning():
            rep.ok('reject', w)
            continue
        und = [b for b in v.returning() if v.bloop[b] == -1 and len(v.succ[b]) > 1 and any(s not in v.returning() for s in v.succ[b])]
        if und and witness(f, sch, wit(**hw), True, False) is not True:
            rep.und('reject', w, 'a check that may reject it is not decided')
        else:
            rep.bad('reject', w, 'the matrix passes validation', f.dem.split('(')[0])
    v = VF(f, sch, V_EXACT if not sch.check else [({'p0': 1}, 0, 0)])
    w = '%s: consistent lengths' % what
    if v.entry not in v.returning():
        rep.bad('accept', w, 'a matrix whose arrays have exactly the required lengths is rejected', f.dem.split('(')[0])
    elif any(v.bloop[b] == -1 and len(v.succ[b]) > 1 and any(s not in v.returning() for s in v.succ[b]) for b in v.returning()):
        rep.und('accept', w, 'a check that may reject it is not decided')
    else:
        rep.ok('accept', w)


def search(rep, p, f, sch, what, nm, facts, srt=None, elems=False, pos=False):
    """some loop over all rows (and for elems: over all entries of a row) ends in an error under the facts"""
    n = [Lin.atom(('arg', sch.n))] if sch.check else None
    best = 'no'
    why = ''
    w = '%s: %s' % (what, nm)
    for L in f.loops:
        if f.loops[L]['parent'] != -1:
            continue
        kids = [None] + [k for k in f.loops if f.loops[k]['parent'] == L]
        for shift in (-1, 0, 1):
            for K in kids:
                if K is None and elems == 'pair':
                    continue
                if K is None or not elems:
                    if K is not None:
                        continue
                    v = VF(f, sch, facts, L, None, shift, srt)
                    r = v.fails(L)
                else:
                    v = VF(f, sch, facts, L, K, shift, srt)
                    r = v.fails(K)
                if r is False:
                    continue
                if r is None:
                    if best == 'no':
                        best, why = 'und', 'a check that may reject it is not decided'
                    continue
                # coverage of the rows
                try:
                    cnt = bodycount(f, L)
                except Undecided as e:
                    best, why = 'und', str(e)
                    continue
                names = v.named(cnt)
                if names != {'n': 1} or cnt.c or shift != 0 and not (pos and shift in (-1, 0, 1)):
                    # [shift, shift + cnt) against [0, n)
                    if names == {'n': 1} and best != 'ok':
                        lo, hi = shift, shift + cnt.c
                        if best != 'und' or why.startswith('a check'):
                            best, why = 'bad', 'only rows %d up to n%+d are looked at' % (lo, hi - 1)
                    elif best == 'no':
                        best, why = 'und', 'the loop runs over %r rows' % cnt
                    continue
                if shift != 0:
                    continue
                if not v.passes([v.entry], v.exits(), f.loops[L]['header']):
                    best, why = 'und', 'a path completes without looking at the rows'
                    continue
                if K is not None and elems:
                    try:
                        c2 = f.trips(K)
                        c2 = c2 - 1 if f.loops[K]['exiting'] == [f.loops[K]['header']] else c2
                    except Undecided as e:
                        best, why = 'und', str(e)
                        continue
                    d = v.named(c2)
                    full = d == {'p@1': 1, 'p@0': -1} and c2.c == (-1 if elems == 'pair' else 0)
                    if not full:
                        best, why = ('bad' if d == {'p@1': 1, 'p@0': -1} else 'und'), 'the loop over the entries of a row runs %r times' % c2
                        continue
                    h = f.loops[K]['header']
                    if not v.passes(v.bodies(L), {f.loops[L]['header']} | v.exits(), h):
                        best, why = 'und', 'a path completes a row without looking at its entries'
                        continue
                best = 'ok'
                break
            if best == 'ok':
                break
        if best == 'ok':
            break
    return best, why


def emit(rep, f, w, r, sch=None, asg=None, srt=True):
    best, why = r
    if best != 'ok':
        for a in [dict(x, status=(0, k)) for x in asg or () for k in (1, 2)]:
            x = witness(f, sch, a, srt, False)
            if x is True:
                best, why = 'bad', 'the matrix passes validation'
                break
        else:
            best = 'und' if best == 'no' else best
    if best == 'ok':
        rep.ok('reject', w)
    elif best == 'und':
        rep.und('reject', w, why)
    else:
        rep.bad('reject', w, why or 'the matrix passes validation', f.dem.split('(')[0])


def rows(rep, p, f, sch, what):
    emit(rep, f, what + ': positions decrease', search(rep, p, f, sch, what, 'positions decrease', [({'p@1': 1, 'p@0': -1}, -INF, -1)]), sch, [wit(p_1=(0, 9))])
    # order of the indices
    calls = [i for b in f.blocks.values() for i in b if i.op == 'call' and re.search(r'std::is_sorted', i.get('cdem') or '')]
    preds = {lam(p, f, i) for i in calls}
    for nm, lo, hi, accepted in (('indices of a row decrease', -INF, -1, ('le', 'lt')), ('an index of a row is repeated', 0, 0, ('le',))):
        w = '%s: %s' % (what, nm)
        r = search(rep, p, f, sch, what, nm, NONEMPTY + [({'elem@1': 1, 'elem@0': -1}, lo, hi)], None, 'pair')
        if r[0] != 'ok' and calls:
            if preds == {None} or None in preds:
                r2 = ('und', 'comparator not recognised')
            elif preds <= set(accepted):
                r2 = search(rep, p, f, sch, what, nm, NONEMPTY, False)
            else:
                r2 = ('bad', 'the order test accepts it (comparator %s)' % ','.join(sorted(preds)))
            r = r2 if r2[0] in ('ok', 'bad') or r[0] != 'und' else r
        det = None if None in preds else preds <= set(accepted) if preds else True
        emit(rep, f, w, r, sch, [wit(x=(0, 3), y=(0, 3 + max(lo, -1) if lo else 3))] if det is not None else (), det is not True if preds else True)
    # range of the indices: each entry, or the first and the last of a sorted row
    for nm, ef, lf in (('an index is too large', ({'elem@0': 1, 'm': -1}, 0, INF), ({'last@-1': 1, 'm': -1}, 0, INF)),
                       ('an index is negative', ({'elem@0': 1}, -INF, -1), ({'first@0': 1}, -INF, -1))):
        w = '%s: %s' % (what, nm)
        r = search(rep, p, f, sch, what, nm, NONEMPTY + [ef], True, True)
        if r[0] != 'ok':
            r2 = search(rep, p, f, sch, what, nm, NONEMPTY + [lf], True)
            r = r2 if r2[0] == 'ok' or r[0] != 'bad' else r
        emit(rep, f, w, r, sch, [wit(x=(1, 0)), wit(x=(0, 3), y=(1, 0), n=(1, 5))] if 'large' in nm else [wit(x=(0, -1)), wit(x=(0, -1), y=(0, 3))])
    # accepted rows
    for nm, facts in (('an empty row', [({'p@1': 1, 'p@0': -1}, 0, 0)]),
                      ('a row with one entry in the last column', [({'p@1': 1, 'p@0': -1}, 1, 1)] + sum([rng(x, 0) + [({x: 1, 'm': -1}, -1, -1)] for x in ('first@0', 'last@-1', 'elem@0')], [])),
                      ('a row with one entry in the first column', [({'p@1': 1, 'p@0': -1}, 1, 1)] + sum([[({x: 1}, 0, 0), ({x: 1, 'm': -1}, -INF, -1)] for x in ('first@0', 'last@-1', 'elem@0')], [])),
                      ('a full row', NONEMPTY + sum([rng(x, 0) for x in ('first@0', 'last@-1', 'elem@0')], []) + [({'elem@1': 1, 'elem@0': -1}, 1, INF)])):
        w = '%s: %s' % (what, nm)
        if nm != 'an empty row' and preds & {'ge', 'gt'}:
            rep.bad('accept', w, 'the order test rejects increasing indices', f.dem.split('(')[0])
            continue
        st, und = 'ok', None
        for L in f.loops:
            if f.loops[L]['parent'] != -1:
                continue
            for K in [None] + [k for k in f.loops if f.loops[k]['parent'] == L]:
                v = VF(f, sch, facts, L, K, 0, True)
                T = L if K is None else K
                r = v.fails(T, K is not None) if K is None or nm != 'an empty row' else False
                if r is True and (K is None or nm != 'an empty row') and v.bodies(T):
                    st, und = 'bad', 'every path of an iteration at line %s ends in an error' % v.blocks[v.bodies(T)[0]][0].loc
                elif r is None and K is None and st == 'ok':
                    kids = [k for k in f.loops if f.loops[k]['parent'] == L]
                    if not kids:
                        st, und = 'und', 'a check that may reject it is not decided'
                elif r is None and K is not None and st == 'ok':
                    st, und = 'und', 'a check that may reject it is not decided'
        if st == 'ok':
            rep.ok('accept', w)
        elif st == 'und':
            rep.und('accept', w, und)
        else:
            rep.bad('accept', w, und, f.dem.split('(')[0])


class FF(SFunc):
    """factorize under an assumption on the first position of the input matrix"""

    def aname(self, a):
        if a[0] == 'ld' and a[1][0] == 'ld' and a[1][1] == ('arg', 1) and untup(a[1][2]) == Lin(0) and untup(a[2]) == Lin(0):
            return 'A.p0'
        return SFunc.aname(self, a)

    def out(self, b):
        ii = self.base.blocks[b]
        if ii and ii[-1].op == 'switch' and b not in self.stops:
            try:
                lo, hi = self.bounds(self.lin(ii[-1].ops[0]))
            except Undecided:
                return SFunc.out(self, b)
            cs = ii[-1].get('cases')
            r = [s for k, s in cs if lo <= k <= hi]
            if hi == INF or lo == -INF or any(k not in [c for c, s in cs] for k in range(lo, hi + 1)):
                r.append(ii[-1].get('def'))
            return list(dict.fromkeys(r))
        return SFunc.out(self, b)

    def open_base(self):
        """a live branch on the first position that the assumption does not decide"""
        for b in self.returning():
            t = self.blocks[b][-1]
            if len(self.succ[b]) < 2 or t.op != 'br':
                continue
            c = self.ins.get(t.ops[0])
            try:
                if c is not None and c.op == 'icmp' and not self.isptr(c.ops[0]):
                    if any(self.aname(a) == 'A.p0' for a in (self.lin(c.ops[0]) - self.lin(c.ops[1])).t):
                        return True
            except Undecided:
                pass
        return False


def calls(v, rx):
    return [i for b in v.rpo() for i in v.blocks[b] if i.op in ('call', 'invoke') and re.search(rx, i.get('cdem') or '')]


def onopt(v, blk, nm):
    """an option or size the branch at the end of blk depends on alone"""
    c = v.ins.get(v.blocks[blk][-1].ops[0]) if v.blocks[blk][-1].ops else None
    if c is None or c.op != 'icmp':
        return None
    try:
        d = v.lin(c.ops[0]) - v.lin(c.ops[1])
    except Undecided:
        return None
    ns = {v.aname(a) for a in d.t}
    return sorted(ns)[0] if ns and all(n and (n.startswith(nm + '.') or n in ('A._psize', 'A._nrows', 'A._ncols')) for n in ns) else None


def front(rep, f, what):
    """factorize: validation before the levels are computed, index base"""
    nm = f.args[2].get('var') or f.args[2]['name']
    v = FF(f, {nm + '.check': 1, '\0': 0}, [({'A._psize': 1}, 1, INF), ({'A._nrows': 1}, 1, INF), ({'A._ncols': 1}, 1, INF)])
    ks, cs = calls(v, '::_factorize_kernel<'), calls(v, r'::check_validity\(\)')
    w = '%s: validation precedes the factorization' % what
    if not ks:
        rep.und('consulted', w, 'the level loop is not found')
        return
    bad = None
    for k in ks:
        try:
            r = v.addr(k.ops[1])[0]
            via = {c.blk for c in cs if v.addr(c.ops[0])[0] == r}
        except Undecided as e:
            bad = bad or ('und', str(e))
            continue
        st, seen, hit = [v.entry], set(), False
        while st:
            b = st.pop()
            if b in seen or b in via:
                continue
            seen.add(b)
            if b == k.blk:
                hit = True
                break
            st.extend(v.succ[b])
        if hit and b not in via:
            # a branch that is open and skips the validation
            toward = set()
            q = list(via)
            while q:
                x = q.pop()
                if x not in toward:
                    toward.add(x)
                    q.extend(v.pred[x])
            skip = [x for x in seen if len(v.succ[x]) > 1 and any(y in toward for y in v.succ[x]) and any(y not in toward for y in v.succ[x])]
            opt = [x for x in skip if onopt(v, x, nm)]
            bad = ('bad', '%s suppresses the requested validation' % onopt(v, opt[0], nm)) if opt else \
                ('und', 'a branch may skip the validation') if skip and via else ('bad', 'with the validation requested the levels are computed without it')
    if bad is None:
        rep.ok('consulted', w)
    elif bad[0] == 'und':
        rep.und('consulted', w, bad[1])
    else:
        rep.bad('consulted', w, bad[1], f.dem.split('(')[0])
    for nm2, lo, hi in (('first position 2 or more', 2, INF), ('first position negative', -INF, -1), ('first position zero', 0, 0), ('first position one', 1, 1)):
        w = '%s: %s' % (what, nm2)
        v = FF(f, {'\0': 0}, [({'A._psize': 1}, 1, INF), ({'A._nrows': 1}, 1, INF), ({'A._ncols': 1}, 1, INF), ({'A.p0': 1}, lo, hi)])
        live = [k for k in calls(v, '::_factorize_kernel<') if k.blk in v.returning()]
        if lo > 1 or hi < 0:
            if not live:
                rep.ok('base', w, 'rejected')
            elif v.open_base():
                rep.und('base', w, 'a test of the first position is not decided')
            else:
                rep.bad('base', w, 'a matrix with another index base is factorized', f.dem.split('(')[0])
            continue
        if not live:
            rep.bad('base', w, 'a matrix with this index base is rejected', f.dem.split('(')[0])
            continue
        sh = {}
        for b in v.returning():
            for i in v.blocks[b]:
                if i.op != 'store' or v.bloop[b] == -1:
                    continue
                try:
                    l = v.lin(i.ops[0])
                    r, off = v.addr(i.ops[1])
                    t = v.trips(v.bloop[b])
                except Undecided:
                    continue
                at = [a for a in l.t if a[0] == 'ld' and a[1][0] == 'ld' and a[1][1] == ('arg', 1) and a[3] in W]
                if len(l.t) != 1 or not at or l.t[at[0]] != 1:
                    continue
                f0 = untup(at[0][1][2]).c
                L = v.loops[v.bloop[b]]
                t = t - 1 if L['exiting'] == [L['header']] else t
                sh[f0] = (l.c, untup(at[0][2]), off, t, i.loc, W[at[0][3]], v.bloop[b])
        if lo == 0:
            z = [x for x in sh.values() if x[0]]
            if z:
                rep.bad('base', w, 'indices of a 0-based matrix are shifted by %d' % z[0][0], z[0][4])
            else:
                rep.ok('base', w)
            continue
        res = None
        for f0, nmf, size in ((0, 'positions', 8), (40, 'indices', 48)):
            if f0 not in sh:
                res = res or ('und', 'the shift of the %s is not recognised' % nmf)
                continue
            c, src, dst, t, loc, ww, lid = sh[f0]
            if src != dst:
                res = ('bad', 'shifted %s are stored at another place' % nmf, loc)
            elif c != -1:
                res = ('bad', 'the %s of a 1-based matrix are shifted by %d' % (nmf, c), loc)
            elif set(src.t) == {('it', lid)} and src.t[('it', lid)] == ww and src.c > 0:
                res = ('bad', 'the first %d %s are not shifted' % (src.c // ww, nmf), loc)
            elif src != Lin.atom(('it', lid), ww) or t.t != {a: 1 for a in t.t if a[0] == 'ld' and a[1] == ('arg', 1) and untup(a[2]) == Lin(size)} or not t.t:
                res = res or ('und', 'range of the shift of the %s: %r' % (nmf, t))
            elif t.c:
                res = ('bad', '%+d %s are shifted' % (t.c, nmf), loc)
        if res is None:
            rep.ok('base', w, 'positions and indices shifted by one')
        elif res[0] == 'und':
            rep.und('base', w, res[1])
        else:
            rep.bad('base', w, res[1], res[2])
