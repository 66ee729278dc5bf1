"""Work sharing of the threads of a parallel region (the outlined functions of the -fopenmp lowering).

Index ranges are polynomials over B = N div T, o = N mod T, T (team size) and t (thread), evaluated separately for o = 0,
and for o > 0 below and above the thread from which the remainder is handed out.  The ranges [start(t), end(t)) must start at
0, be adjacent, and end at N, for every N and T.
"""
import re
from ir import Undecided

NUM, TID = 'omp_get_num_threads', 'omp_get_thread_num'
ONCE = ('__kmpc_master', '__kmpc_single', '__kmpc_masked')
BARRIER = ('__kmpc_barrier', '__kmpc_cancel_barrier')
SYNC = re.compile(r'^(__kmpc_|omp_|llvm\.)')
NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le'}
FLIP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}


class Poly(dict):
    @staticmethod
    def c(k):
        return Poly({(): k} if k else {})

    @staticmethod
    def s(x):
        return Poly({(x,): 1})

    def __add__(a, b):
        r = Poly(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + v
            if not r[k]:
                del r[k]
        return r

    def neg(a):
        return Poly({k: -v for k, v in a.items()})

    def __sub__(a, b):
        return a + b.neg()

    def __mul__(a, b):
        r = Poly()
        for k, v in a.items():
            for q, w in b.items():
                m = tuple(sorted(k + q, key=str))
                r[m] = r.get(m, 0) + v * w
                if not r[m]:
                    del r[m]
        return r

    def sub(a, sym, p):
        r = Poly()
        for k, v in a.items():
            m = Poly.c(v)
            for x in k:
                m = m * (p if x == sym else Poly.s(x))
            r = r + m
        return r

    def const(a):
        if not a:
            return 0
        if set(a) == {()}:
            return a[()]
        return None

    def syms(a):
        return {x for k in a for x in k}

    def text(a):
        out = []
        for k, v in sorted(a.items(), key=lambda kv: (len(kv[0]), str(kv[0]))):
            n = '*'.join(str(x) if isinstance(x, str) else '?' for x in k)
            out.append(('%+d' % v if not k else ('+' if v == 1 else '-' if v == -1 else '%+d*' % v) + n))
        return ''.join(out).lstrip('+') or '0'


B, O, T, t = Poly.s('B'), Poly.s('o'), Poly.s('T'), Poly.s('t')


class Requested(Exception):
    def __init__(self, ins):
        self.ins = ins


class Case:
    """polynomial evaluation of the values of a function under one assumption"""

    def __init__(self, f, kind, num=None, tid=None, subst=()):
        self.f = f
        self.kind = kind            # 'Z' o = 0; 'L' o > 0, t below the breakpoint; 'R' at or above
        self.subst = dict(subst)    # o -> 1 or o + 1, B -> 0 or B + 1, to decide comparisons of these alone
        self.und = set()
        self.num, self.tid = num, tid       # values standing for T and t (arguments), else the runtime calls
        self.memo = {}
        self.brk = None             # first thread of the upper part
        self.div = None             # dividend polynomial (opaque)
        self.feas = None
        self.divisor()
        self.explore()
        for i in f.ins.values():
            if i.op == 'icmp' or i.op in ('call', 'invoke') and 'llvm.' in (i.get('callee') or ''):
                self.ev(i.id)

    def divisor(self):
        f = self.f
        self.dsub = None
        ds = [i for i in f.ins.values() if i.op in ('udiv', 'sdiv', 'urem', 'srem') and self.isT(i.ops[1]) is not None]
        for i in ds:
            if self.threaded(i.ops[0]):
                raise Undecided('the ranges are products divided by the number of threads')
        for i in ds:
            if self.isT(i.ops[1]) is False:
                raise Requested(i)
        if ds:
            d = self.raw(ds[0].ops[0])
            ops = [s for s in d.syms()]
            if len(ops) == 1 and d.get((ops[0],)) == 1 and len(d) <= 2:
                self.dsub = (ops[0], B * T + O - Poly.c(d.get((), 0)))
                self.total = d
            self.divs = ds

    def B(self):
        return self.subst.get('B', B)

    def O(self):
        return self.subst.get('o', O) if self.kind != 'Z' else Poly()

    def total_(self):
        return self.B() * T + self.O() - Poly.c(self.total.get((), 0))

    def N(self):
        return self.B() * T + self.O()

    def strip(self, v):
        while v in self.f.ins and self.f.ins[v].op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
            v = self.f.ins[v].ops[0]
        return v

    def threaded(self, v):
        seen, wl = set(), [v]
        while wl:
            x = wl.pop()
            if x == self.tid:
                return True
            i = self.f.ins.get(x)
            if x in seen or i is None or i.op in ('load', 'phi'):
                continue
            seen.add(x)
            if i.op in ('call', 'invoke') and (i.get('cdem') or i.get('callee')) == TID:
                return True
            wl.extend(o for o in i.ops if isinstance(o, str))
        return False

    def isT(self, v):
        """True: the team size; False: a number of threads from elsewhere; None: something else"""
        v = self.strip(v)
        if v == self.num:
            return True
        i = self.f.ins.get(v)
        if i is None:
            return None
        if i.op in ('call', 'invoke'):
            return True if (i.get('cdem') or i.get('callee')) == NUM else None
        if i.op == 'load':
            # an int handed in from outside the region
            try:
                r = self.f.addr(i.ops[0])[0]
            except Undecided:
                return None
            if r[0] == 'arg' and i.get('ty') == 'i32' and self.num is None:
                return False
            if r[0] == 'alloca':
                vs = {s.ops[0] for s in self.f.alloca_stores(r)} if hasattr(self.f, 'alloca_stores') else set()
                if len(vs) == 1:
                    return self.isT(vs.pop())
        return None

    def raw(self, v):
        """without substituting the dividend"""
        v = self.strip(v)
        if v.startswith('c:'):
            return Poly.c(int(v[2:]))
        try:
            l = self.f.lin(v)
        except Undecided:
            return Poly.s(('v', v))
        p = Poly.c(l.c)
        for a, k in l.t.items():
            p = p + Poly.s(('a', a)) * Poly.c(k)
        return p

    def ev(self, v):
        v = self.strip(v)
        if v in self.memo:
            return self.memo[v]
        self.memo[v] = Poly.s(('v', v))
        r = self._ev(v)
        if self.dsub:
            r = r.sub(self.dsub[0], self.total_())
        r = self.norm(r)
        self.memo[v] = r
        return r

    def norm(self, r):
        if self.kind == 'Z':
            r = r.sub('o', Poly())
        return r

    def _ev(self, v):
        f = self.f
        if v.startswith('c:'):
            return Poly.c(int(v[2:]))
        if v == self.num:
            return T
        if v == self.tid:
            return t
        i = f.ins.get(v)
        if i is None:
            return self.raw(v)
        c = i.get('cdem') or i.get('callee') or ''
        if i.op in ('call', 'invoke'):
            if c == NUM:
                return T
            if c == TID:
                return t
            if re.match(r'llvm\.[us](max|min)', c):
                a, b = self.ev(i.ops[0]), self.ev(i.ops[1])
                d = b - a
                if self.sign(d, 'ge'):
                    return b if 'max' in c else a
                if self.sign(d, 'le'):
                    return a if 'max' in c else b
                return Poly.s(('v', v))
            return Poly.s(('v', v))
        if i.op in ('add', 'sub', 'mul'):
            a, b = self.ev(i.ops[0]), self.ev(i.ops[1])
            return a + b if i.op == 'add' else a - b if i.op == 'sub' else a * b
        if i.op == 'or' and hasattr(f, '_disjoint') and f._disjoint(i):
            return self.ev(i.ops[0]) + self.ev(i.ops[1])
        if i.op == 'shl' and i.ops[1].startswith('c:'):
            return self.ev(i.ops[0]) * Poly.c(1 << int(i.ops[1][2:]))
        if i.op in ('udiv', 'sdiv') and self.isT(i.ops[1]) and self.dsub and self.raw(i.ops[0]) == self.total:
            return self.B()
        if i.op in ('urem', 'srem') and self.isT(i.ops[1]) and self.dsub and self.raw(i.ops[0]) == self.total:
            return self.O()
        if i.op == 'icmp':
            d = self.cond(i)
            return Poly.c(int(d)) if d is not None else Poly.s(('v', v))
        if i.op == 'select':
            d = self.truth(i.ops[0])
            if d is not None:
                return self.ev(i.ops[1] if d else i.ops[2])
            a, b = self.ev(i.ops[1]), self.ev(i.ops[2])
            return a if a == b else Poly.s(('v', v))
        if i.op == 'phi':
            if self.feas is not None:
                vs = [o for o, b in zip(i.ops, i.get('from') or []) if (b, i.blk) in self.feas]
                ps = [self.ev(o) for o in vs]
                if ps and all(p == ps[0] for p in ps):
                    return ps[0]
            return Poly.s(('v', v))
        if i.op == 'load':
            try:
                r = f.addr(i.ops[0])[0]
                if r[0] == 'alloca':
                    w = f.alloca_value(i)
                    if w is not None:
                        return self.ev(w)
            except Undecided:
                pass
        return self.raw(v)

    def truth(self, v):
        p = self.ev(v)
        c = p.const()
        return None if c is None else bool(c)

    def nonneg(self, p):
        """every coefficient and constant non-negative, over non-negative symbols"""
        return all(v >= 0 for v in p.values()) and p.syms() <= {'B', 'o', 'T', 't'}

    def cond(self, i):
        p = i.get('pred')
        q = p[1:] if p[0] in 'us' and p not in ('eq', 'ne') else p
        d = self.ev(i.ops[0]) - self.ev(i.ops[1])
        return self.sign(d, q)

    def sign(self, d, q):
        c = d.const()
        if c is not None:
            return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[q]
        if d.syms() <= {'o', 'T', 'B'}:
            r = self.range(d, q)
            if r is None:
                self.und |= {'B'} if 'B' in d.syms() else {'o'} if d.syms() == {'o'} else set()
            return r
        k = d.get(('t',))
        if k in (1, -1):
            if k == -1:
                d, q = d.neg(), FLIP[q]
            r = d - t           # d = t + r
            if q in ('gt', 'le'):
                # t + r > 0  <=>  t + r - 1 >= 0
                r = r - Poly.c(1)
                ge = q == 'gt'
            elif q in ('ge', 'lt'):
                ge = q == 'ge'
            else:
                return None
            # t >= -r
            th = r.neg()
            if th.syms() <= {'o', 'T', 'B'}:
                if self.range(th, 'le'):
                    return ge           # 0 <= t
                if self.range(th - T, 'ge'):
                    return not ge       # t < T
                if self.kind != 'Z' and 'o' in th.syms() and th.syms() <= {'o', 'T'} and all(len(k) <= 1 for k in th):
                    if self.brk is None:
                        self.brk = th
                    if self.brk == th:
                        return ge == (self.kind == 'R')
                    # t <= brk - 1 or brk <= t
                    if self.kind == 'R' and self.range(self.brk - th, 'ge'):
                        return ge
                    if self.kind == 'L' and self.range(self.brk - th, 'le'):
                        return not ge
        return None

    def range(self, d, q):
        """sign of a polynomial over 1 <= o < T (o = 0 and 1 <= T in case Z) and 0 <= B"""
        z = self.kind == 'Z'
        # every symbol as a minimum plus a non-negative rest: T = o + s
        d = d.sub('o', Poly() if z else Poly.c(1) + Poly.s('o')).sub('T', (Poly.c(1) if z else Poly.c(2) + Poly.s('o')) + Poly.s('s'))
        c = d.get((), 0)
        if all(v >= 0 for v in d.values()):
            r = {'ge': True, 'lt': False}
            if c > 0:
                r.update(gt=True, le=False, eq=False, ne=True)
        elif all(v <= 0 for v in d.values()):
            r = {'le': True, 'gt': False}
            if c < 0:
                r.update(lt=True, ge=False, eq=False, ne=True)
        else:
            r = {}
        return r.get(q)

    def explore(self):
        f = self.f
        e = next(iter(f.blocks))
        for _ in range(3):
            seen, edges, wl = {e}, set(), [e]
            while wl:
                b = wl.pop()
                l = f.blocks[b]
                x = l[-1]
                ss = f.succ[b]
                if x.op == 'br' and len(ss) == 2 and x.ops[0] != '':
                    d = self.truth(x.ops[0]) if x.ops else None
                    if d is not None:
                        tgt = [o for o in x.ops[1:] if isinstance(o, str) and o.startswith('b')]
                        # ops: condition, false, true
                        if len(tgt) == 2:
                            ss = [int(tgt[1][1:]) if d else int(tgt[0][1:])]
                for s in ss:
                    edges.add((b, s))
                    if s not in seen:
                        seen.add(s)
                        wl.append(s)
            if edges == self.feas:
                break
            self.feas = edges
            self.memo = {}
        self.reach = seen


def cases(f, num=None, tid=None):
    cs = {k: Case(f, k, num, tid) for k in 'ZLR'}
    und = set().union(*[c.und for c in cs.values()])
    if und:
        vs = [{}]
        for x in sorted(und):
            vs = [dict(v, **{x: p}) for v in vs for p in ((Poly.c(1), O + Poly.c(1)) if x == 'o' else (Poly(), B + Poly.c(1)))]
        for n, v in enumerate(vs):
            for k in 'ZLR':
                cs['%s#%d' % (k, n)] = Case(f, k, num, tid, v)
    return cs


def moving(cs, S, E):
    return any('t' in S[k].syms() or 't' in E[k].syms() for k in cs)


def partition(cs, S, E):
    """S, E: case -> polynomial.  -> None or what is wrong"""
    groups = sorted({k[1:] for k in cs if len(k) > 1}) or ['']
    if not moving(cs, S, E):
        return 'every thread processes the same range'
    for g in groups:
        r = partition1({k: cs[k + g] for k in 'ZLR'}, {k: S[k + g] for k in 'ZLR'}, {k: E[k + g] for k in 'ZLR'})
        if r:
            return r


def partition1(cs, S, E):
    L, R = cs['L'], cs['R']
    for k in 'ZLR':
        x = S[k].syms() | E[k].syms()
        if not x <= {'B', 'o', 'T', 't'}:
            raise Undecided('a bound is not a function of the number of rows, the team and the thread')
    N = {k: cs[k].N() for k in 'ZLR'}
    one = Poly.c(1)
    def at(p, x):
        return p.sub('t', x)
    def want(a, b, what):
        if a != b:
            return '%s: %s instead of %s' % (what, a.text(), b.text())
    def whole(k, note):
        return want(at(S[k], Poly()), Poly(), 'the first range starts elsewhere' + note) or \
            want(E[k], at(S[k], t + one), 'adjacent ranges do not meet' + note) or \
            want(at(E[k], T - one), N[k], 'the last range ends elsewhere' + note)
    r = whole('Z', ' (N divisible)')
    if r:
        return r
    c = L.brk if L.brk is not None else R.brk
    if c is None:
        if S['L'] != S['R'] or E['L'] != E['R']:
            raise Undecided('the case of a remainder is not understood')
        return whole('L', '')
    # both parts can be populated: 1 <= c <= T - 1 for some remainder
    if L.range(c, 'lt') or L.range(c - T, 'gt'):
        raise Undecided('the place where the remainder begins is not understood')
    r = want(at(S['L'], Poly()), Poly(), 'the first range starts elsewhere') or \
        want(E['L'], at(S['L'], t + one), 'adjacent ranges below the remainder do not meet') or \
        want(E['R'], at(S['R'], t + one), 'adjacent ranges of the remainder do not meet') or \
        want(at(E['L'], c - one), at(S['R'], c), 'the ranges do not meet where the remainder begins') or \
        want(at(E['R'], T - one), N['R'], 'the last range ends elsewhere')
    if r:
        return r
    if not L.range(T - c, 'gt'):
        return 'the remainder is not handed out to as many threads as there are rows left'
    if not L.range(c, 'ge'):
        raise Undecided('the place where the remainder begins is not understood')


class Region:
    """one parallel region"""

    TEAMS = (1, 2, 3, 5)

    def __init__(self, f, limit=None):
        self.f = f
        self.teams = tuple(T for T in self.TEAMS if limit is None or T <= limit)
        self.cs = None
        self.counts = {}
        self.users = f.users()
        self.scen, self.reached = {}, {}

    # ---- which threads execute a block
    def scenario(self, T_, t_):
        f = self.f
        memo = {}
        feas = [None]
        self.feas_ = feas

        def ev(v):
            if v in memo:
                return memo[v]
            memo[v] = None
            memo[v] = r = ev_(v)
            return r

        def ev_(v):
            if v.startswith('c:'):
                try:
                    return int(v[2:])
                except ValueError:
                    return None
            i = f.ins.get(v)
            if i is None:
                return None
            c = i.get('cdem') or i.get('callee') or ''
            if i.op in ('call', 'invoke'):
                return T_ if c == NUM else t_ if c == TID else int(t_ == 0) if c in ONCE else None
            if i.op in ('sext', 'zext', 'trunc', 'freeze'):
                return ev(i.ops[0])
            if i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'urem', 'srem', 'udiv', 'sdiv'):
                a, b = ev(i.ops[0]), ev(i.ops[1])
                if i.op == 'and' and i.get('ty') == 'i1' and (a == 0 or b == 0):
                    return 0
                if i.op == 'or' and i.get('ty') == 'i1' and (a in (1, -1) or b in (1, -1)):
                    return 1
                if a is None or b is None:
                    return None
                if i.op == 'xor' and i.get('ty') == 'i1':
                    return int(bool(a) != bool(b))
                try:
                    return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b,
                            'urem': a % b if b else None, 'srem': a % b if b else None, 'udiv': a // b if b else None, 'sdiv': a // b if b else None}[i.op]
                except ZeroDivisionError:
                    return None
            if i.op == 'icmp':
                a, b = ev(i.ops[0]), ev(i.ops[1])
                if a is None or b is None:
                    return None
                p = i.get('pred')
                q = p[1:] if p not in ('eq', 'ne') else p
                return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q])
            if i.op == 'select':
                c_ = ev(i.ops[0])
                if c_ is None:
                    a, b = ev(i.ops[1]), ev(i.ops[2])
                    return a if a == b else None
                return ev(i.ops[1] if c_ else i.ops[2])
            if i.op == 'phi' and feas[0] is not None:
                vs = {ev(o) for o, b in zip(i.ops, i.get('from') or []) if (b, i.blk) in feas[0]}
                return vs.pop() if len(vs) == 1 else None
            return None
        e = next(iter(f.blocks))
        seen = set()
        for _ in range(3):
            seen, edges, wl = {e}, set(), [e]
            while wl:
                b = wl.pop()
                x = f.blocks[b][-1]
                ss = f.succ[b]
                if x.op == 'br' and len(ss) == 2:
                    d = ev(x.ops[0])
                    tg = [int(o[1:]) for o in x.ops[1:]]
                    if d is not None and len(tg) == 2:
                        ss = [tg[1] if d else tg[0]]
                elif x.op == 'switch':
                    pass
                for s in ss:
                    edges.add((b, s))
                    if s not in seen:
                        seen.add(s)
                        wl.append(s)
            if edges == feas[0]:
                break
            feas[0] = edges
            memo.clear()
        self.scen[T_, t_] = (ev, feas[0])
        return seen

    def term(self, v, T_, t_, memo):
        """expression of a value for one thread; values of this thread only are resolved"""
        if v in memo:
            return memo[v]
        memo[v] = ('loop', v)
        memo[v] = r = self.term_(v, T_, t_, memo)
        return r

    def term_(self, v, T_, t_, memo):
        ev, feas = self.scen[T_, t_]
        i = self.f.ins.get(v)
        if i is None:
            return v
        n = ev(v)
        if n is not None:
            return n
        T = lambda x: self.term(x, T_, t_, memo)
        if i.op == 'phi':
            vs = [o for o, b in zip(i.ops, i.get('from') or []) if (b, i.blk) in feas]
            ts = [T(o) for o in vs]
            if ts and all(x == ts[0] for x in ts):
                return ts[0]
            return ('phi', v)
        if i.op == 'select':
            c = ev(i.ops[0])
            if c is not None:
                return T(i.ops[1] if c else i.ops[2])
        if i.op == 'getelementptr':
            return ('gep', T(i.get('base')), i.get('off'), tuple((T(o), k) for o, k in i.get('var') or []))
        return (i.op, i.get('cdem') or '') + tuple(T(o) for o in i.ops if isinstance(o, str))

    def shared(self, v, blk):
        """two threads of some team that use the same address expression, or None"""
        for T_ in self.teams:
            seen = {}
            for t_ in range(T_):
                if blk not in self.reached[T_, t_]:
                    continue
                x = self.term(v, T_, t_, {})
                if x in seen:
                    return T_, seen[x], t_
                seen[x] = t_
        return None

    def shares(self):
        """block -> 'all' | 'one' | 'some' | ('none', T)"""
        f = self.f
        cnt = {b: {} for b in f.blocks}
        for T_ in self.teams:
            for t_ in range(T_):
                r = self.reached[T_, t_] = self.scenario(T_, t_)
                for b in r:
                    cnt[b][T_] = cnt[b].get(T_, 0) + 1
        out = {}
        for b, d in cnt.items():
            n = tuple(d.get(T_, 0) for T_ in self.teams)
            out[b] = 'one' if n == (1,) * len(n) else 'all' if n == self.teams else n
        return out

    # ---- memory
    def roots(self, v, seen=None):
        f = self.f
        seen = set() if seen is None else seen
        if v in seen:
            return set()
        seen.add(v)
        if v[0] != '%':
            try:
                return {f.addr(v)[0]}
            except Undecided:
                return {('v', v)}
        i = f.ins[v]
        if i.op == 'getelementptr':
            return self.roots(i.get('base'), seen)
        if i.op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.roots(i.ops[0], seen)
        if i.op == 'phi':
            return set().union(set(), *[self.roots(o, seen) for o in i.ops])
        if i.op == 'select':
            return set().union(*[self.roots(o, seen) for o in i.ops[1:]])
        if i.op == 'alloca':
            return {('alloca', v)}
        if i.op in ('call', 'invoke'):
            return {('call', v)}
        if i.op == 'load':
            return {('loaded', self.slot(i.ops[0]))}
        return {('v', v)}

    def slot(self, v):
        """header field a pointer is loaded from: (root, offset)"""
        try:
            r, off = self.f.addr(v)
        except Undecided:
            return ('?', v)
        return (self.short(r), off.c if off.is_const() else '*')

    def short(self, r):
        if r[0] in ('arg', 'alloca', 'global'):
            return r
        if r[0] == 'ld':
            return ('ld',) + tuple(str(x) for x in r[1:4])
        return (r[0], str(r[1:2]))

    def deps(self, v, index=True):
        """values an address is computed from; optionally not through loaded column or row indices"""
        seen = set()
        wl = [v]
        while wl:
            x = wl.pop()
            if x in seen or not isinstance(x, str):
                continue
            seen.add(x)
            i = self.f.ins.get(x)
            if i is None:
                continue
            if not index and i.op == 'load' and i.get('ty') == 'i32':
                continue
            wl.extend(o for o in i.ops if isinstance(o, str))
            if i.op == 'getelementptr':
                wl.append(i.get('base'))
                wl.extend(o for o, _ in i.get('var', []))
        return seen
