"""Iterative refinement: abstract interpretation over linear expressions in b, the current iterate, A and M^-1.

A vector holds a linear combination of  b,  X (the iterate at the head of the iteration),  A(e)  and  S(e) = M^-1 e;
the main loop is analysed once for its first iteration (X = 0) and once under a loop invariant found by dropping
candidates that the loop body does not preserve.
"""
import re
import events, poly
from ir import Lin, Undecided
from kernel import Kernel
from spec import SFunc

INF = float('inf')
SOLVE = re.compile(r'hif::HIF<.*>::solve<')
MTNT = re.compile(r'hif::mt::multiply_nt<')
LOW = re.compile(r'::multiply_(mrhs_)?(nt|t)_low<')
NORM = re.compile(r'norm2<')
RESIZE = re.compile(r'hif::Array<.*>::resize\(')
FUNC = re.compile(r'std::function<.*>::operator\(\)')


class Bad(Exception):
    def __init__(self, msg, loc='?'):
        Exception.__init__(self, msg)
        self.loc = loc


def lin(*ts):
    r = {}
    for a, k in ts:
        r[a] = r.get(a, 0) + k
    return {a: k for a, k in r.items() if k}


def key(e):
    return tuple(sorted(e.items(), key=repr))


def plus(a, b, k=1):
    return lin(*(list(a.items()) + [(x, k * y) for x, y in b.items()]))


def apply(op, e):
    return lin(*[((op, a), k) for a, k in e.items()])


def subst(e, x):
    """replace X by the expression x"""
    r = {}
    for a, k in e.items():
        r = plus(r, sub_atom(a, x), k)
    return r


def sub_atom(a, x):
    if a == 'X':
        return x
    if isinstance(a, tuple):
        return apply(a[0], sub_atom(a[1], x))
    return {a: 1}


def estr(e):
    if e is None:
        return 'unknown'
    if not e:
        return '0'

    def at(a):
        return '%s(%s)' % ({'A': 'A', 'At': 'A^H', 'S': 'M^-1', 'St': 'M^-H'}[a[0]], at(a[1])) if isinstance(a, tuple) else a
    return ' '.join('%s%s' % ('+' if k == 1 else '-' if k == -1 else '%+d*' % k, at(a)) for a, k in sorted(e.items(), key=repr))


class RK(Kernel):
    def count(self, lid, blk):
        if lid == self.outer:
            return Lin.atom(('outer', lid))
        return Kernel.count(self, lid, blk)


class Refine:
    def __init__(self, f, prog, tran, facts, es, cx, bzero=False):
        self.tran = tran
        self.bzero = bzero
        self.g = prog.globals if hasattr(prog, 'globals') else {}
        facts = list(facts) + [({'b._size': 1, 'x._size': -1}, 0, 0), ({'b._size': 1}, 2, INF), ({'x._size': 1}, 2, INF)]
        sf = self.f = SFunc(f, {'tran': tran}, facts)
        self.live = sf.returning()
        self.es, self.cx = es, cx
        self.prm = {(a.get('var') or a['name']): k for k, a in enumerate(sf.args)}
        self.calls = {c.ins.id: c for c in events.calls(sf, self.g, lambda nm: True) if not c.name.startswith('llvm.')}
        cores = [c for c in self.calls.values() if SOLVE.search(c.name)]
        outs = {c.loops[-1] if False else sf.loop_chain(c.ins.blk)[0] for c in cores if sf.loop_chain(c.ins.blk)}
        if len(outs) > 1:
            raise Undecided('solves in %d loops' % len(outs))
        self.outer = outs.pop() if outs else None
        if any(len(sf.loop_chain(c.ins.blk)) > 1 for c in cores):
            raise Undecided('nested loops of solves')
        self.k = RK(sf, lambda m: es, lambda m: 1, lambda m: cx)
        self.k.outer = self.outer
        self.stm = {}
        for s in self.k.collect(lambda r: r[0] != 'alloca' and not (r[0] == 'arg' and self.argname(r) == 'cnt')):
            self.stm.setdefault(s.ins.blk, []).append(s)
        self.doff = self.data_off()
        self.order = {b: n for n, b in enumerate(sf.rpo())}
        self.norms = {}

    def argname(self, r):
        a = self.f.args[r[1]]
        return a.get('var') or a['name']

    def data_off(self):
        k = self.prm['x']
        for o in range(0, 64, 8):
            if self.f.field_of(('arg', k), o) == 'x._data':
                return o
        raise Undecided('layout of Array')

    def obj(self, a, what):
        """memory name of the data of an array object argument"""
        if a.kind == 'mem' and a.v[0] == 'arg' and a.off.is_const():
            n = self.f.field_of(a.v, a.off.c + self.doff)
            if n and n.endswith('._data'):
                return n
        raise Undecided('%s: %r' % (what, a))

    # ---- element statements
    def stmt(self, s, st):
        f = self.f
        loops = [(l, c) for l, c in s.loops if l != self.outer]
        mem = s.mem
        if mem not in st and not mem.endswith('_data'):
            raise Undecided('store to %s' % mem)
        idx = s.row + s.col
        if len(loops) != 1 or idx != Lin.atom(('it', loops[0][0])):
            if len(loops) == 1:
                d = idx - Lin.atom(('it', loops[0][0]))
                if d.is_const() and d.c > 0 and self.whole(loops[0][1] + d):
                    raise Bad('the elements of %s before %d are not updated' % (mem, d.c), s.ins.loc)
            st[mem] = None
            return
        n = loops[0][1]
        if not self.whole(n):
            if n.is_const() or (self.f.named(n) or {}).keys() <= {'N', 'r'} or self.whole(n + 1) or self.whole(n - 1):
                raise Bad('%s elements of %s are written' % (f.show(n), mem), s.ins.loc)
            st[mem] = None
            return
        L = f.loops.get(loops[0][0])
        if L is not None and not all(f.dom(s.ins.blk, b) for b in L['blocks'] if L['header'] in f.succ[b]):
            st[mem] = None
            return
        z = {(): None}
        e = {}
        try:
            for mono, c in s.z.items():
                if len(mono) != 1 or c[1] or c[0].denominator != 1:
                    raise Undecided('value')
                l = mono[0]
                if not self.cx:
                    l = l[1] if l[0] == 'real' else l
                if l[0] != 'el':
                    if l[0] == '~' and l[1][0] == 'el':
                        l = l[1]
                        v = st.get(l[1])
                        if v is None:
                            raise Undecided('value')
                        v = {('conj', a): k for a, k in v.items()}
                        e = plus(e, v, int(c[0]))
                        continue
                    raise Undecided('value')
                i = self.index(l)
                if i != idx:
                    raise Undecided('index')
                if (l[1], loops[0][0]) in self.written and l[1] != mem:
                    raise Undecided('fused loop')
                v = st.get(l[1])
                if v is None:
                    raise Undecided('%s' % l[1])
                e = plus(e, v, int(c[0]))
            if s.kind == 'update':
                if st.get(mem) is None:
                    raise Undecided(mem)
                e = plus(e, st[mem])
        except Undecided:
            e = None
        self.written.add((mem, loops[0][0]))
        st[mem] = e

    @staticmethod
    def index(l):
        from ir import untup
        return untup(l[2]) + untup(l[3])

    def whole(self, n):
        d = self.f.named(n)
        if d is not None and n.c == 0 and len(d) == 1:
            (a, k), = d.items()
            return k == 1 and a.endswith('._size')
        if n.c == 0 and len(n.t) == 1:
            (a, k), = n.t.items()
            if k == 1 and a[0] in ('v', 'call'):
                i = self.f.ins.get(a[1])
                return i is not None and re.search(r'HIF<.*>::(ncols|nrows)\(', i.get('cdem') or '') is not None
        return False

    # ---- calls
    def call(self, c, st, ph):
        nm, a, loc = c.name, c.args, c.ins.loc
        if SOLVE.search(nm):
            if a[0].kind != 'mem' or a[0].v != ('arg', self.prm['m']) or a[0].off != Lin(0):
                raise Undecided('preconditioner %r' % a[0])
            src, dst = self.obj(a[1], 'right-hand side'), self.obj(a[2], 'solution')
            t, r = self.flag(a[3]), a[4]
            if t != self.tran:
                raise Bad('the inner solve is %s although the refinement is%s' % ('transposed' if t else 'not transposed', '' if self.tran else ' not transposed'), loc)
            self.rank(r, c.ins.ops[4], ph, loc)
            if src == dst:
                raise Undecided('solve in place')
            v = st.get(src)
            st[dst] = None if v is None else apply('S' if not t else 'St', v)
            return
        if MTNT.search(nm):
            self.prod(self.obj(a[1], 'input'), self.obj(a[2], 'output'), 0, a[0], st, loc)
            return
        m = LOW.search(nm)
        if m:
            if len(a) != 3 or m.group(1):
                raise Undecided('partial product')
            if any(x.kind != 'mem' or x.off != Lin(0) for x in a[1:]):
                raise Undecided('vectors of the product')
            self.prod(a[1].name, a[2].name, 0 if m.group(2) == 'nt' else 1, a[0], st, loc)
            return
        if FUNC.search(nm):
            if any(a[k].kind != 'mem' or a[k].off != Lin(0) for k in (1, 4)):
                raise Undecided('vectors of the product')
            self.prod(a[1].name, a[4].name, self.flag(a[6]), a[0], st, loc)
            return
        if NORM.search(nm):
            v = st.get(self.obj(a[0], 'norm'))
            self.norms[c.ins.id, ph] = v
            return
        if RESIZE.search(nm):
            n = self.obj(a[0], 'resize')
            if a[1].kind == 'int' and not self.whole(a[1].v):
                raise Bad('%s gets %s entries' % (n, self.f.show(a[1].v)), loc)
            st[n] = None
            return
        if re.search(r'::(ncols|nrows)\(|get_nthreads', nm):
            return
        raise Undecided('call of %s' % nm[:60])

    def rank(self, r, v, ph, loc):
        want = Lin.atom(('arg', self.prm['r']))
        if r.kind == 'int' and r.v == want:
            return
        pb, cs = self.path
        i = self.f.ins.get(v)
        if i is not None and i.op in ('zext', 'sext'):
            v = i.ops[0]
        for x, cc in self.opts(v, pb, cs, ph):
            if x == want:
                continue
            if (x.is_const() or all(a[0] == 'arg' for a in x.t)) and not self.loose(cc[len(cs):], ph):
                raise Bad('the inner solve gets %s instead of the requested rank' % self.f.show(x), loc)
            raise Undecided('rank %r' % x)

    def loose(self, conds, ph):
        """a condition whose meaning on this path is not recognised"""
        for c, _ in conds:
            i = self.f.ins.get(c)
            if i is None or i.op not in ('icmp', 'fcmp'):
                return True
            if i.op == 'icmp':
                try:
                    d = self.f.lin(i.ops[0]) - self.f.lin(i.ops[1])
                except Undecided:
                    return True
                if any(a[0] not in ('arg', 'it') for a in d.t) or ('arg', self.prm['r']) in d.t:
                    return True
        return False

    def flag(self, a):
        if a.kind == 'int' and a.v == Lin.atom(('arg', self.prm['tran'])):
            return self.tran
        if a.kind == 'int' and a.v.is_const():
            return 1 if a.v.c else 0
        raise Undecided('transposition %r' % a)

    def prod(self, src, dst, t, A, st, loc):
        if A.kind != 'mem' or A.v != ('arg', self.prm['A']) or A.off != Lin(0):
            raise Undecided('matrix %r' % A)
        if t != self.tran:
            raise Bad('the residual uses the %s matrix although the refinement is%s' % ('transposed' if t else 'plain', ' transposed' if self.tran else ' not transposed'), loc)
        v = st.get(src)
        st[dst] = None if v is None or src == dst else apply('At' if t else 'A', v)

    # ---- branches
    def decide(self, v, ph):
        """truth of a condition in phase ph ('pre', 0: first iteration, 1: later ones); None if open"""
        f = self.f
        t = f.truth(v)
        if t is not None:
            return t
        i = f.ins.get(v)
        if i is None:
            return None
        if i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
            t = self.decide(i.ops[0], ph)
            return None if t is None else not t
        if i.op == 'fcmp':
            m = self.scalar(i.ops[0], ph), self.scalar(i.ops[1], ph)
            if m[1] == 0 and isinstance(m[0], tuple) and m[0] == ((('norm', key({'b': 1})), 1),) and i.get('pred') in ('oeq', 'ueq', 'une', 'one', 'ule', 'ole', 'ogt', 'ugt'):
                z = self.bzero
                return z if i.get('pred') in ('oeq', 'ueq', 'ole', 'ule') else not z
            return None
        if i.op == 'icmp' and self.outer is not None and ph != 'pre':
            try:
                d = f.lin(i.ops[0]) - f.lin(i.ops[1])
            except Undecided:
                return None
            it = ('it', self.outer)
            k = d.t.get(it, 0)
            if not k:
                return None
            r = d - Lin.atom(it, k)
            if not r.is_const():
                return None
            lo, hi = (r.c + k * ph, r.c + k * ph) if ph != 'gen' else ((r.c + k, INF) if k > 0 else (-INF, r.c + k))
            p = i.get('pred')
            if p in ('eq', 'ne') and (lo > 0 or hi < 0 or lo == hi):
                return (lo == hi == 0) == (p == 'eq')
            if p in ('ugt', 'sgt') and (lo > 0 or hi <= 0):
                return lo > 0
            if p in ('ult', 'slt') and (hi < 0 or lo >= 0):
                return hi < 0
            if p in ('uge', 'sge') and (lo >= 0 or hi < 0):
                return lo >= 0
            if p in ('ule', 'sle') and (hi <= 0 or lo > 0):
                return hi <= 0
        return None

    def scalar(self, v, ph):
        """monomial over norms and bounds as sorted tuple ((atom, power)...), 0, or None"""
        f = self.f
        if v.startswith('d:'):
            x = float(v[2:])
            return 0 if x == 0 else () if x == 1 else ((('const', x), 1),)
        i = f.ins.get(v)
        if i is None:
            return None
        if i.op in ('fpext', 'fptrunc', 'freeze'):
            return self.scalar(i.ops[0], ph)
        if i.op in ('fmul', 'fdiv'):
            a, b = self.scalar(i.ops[0], ph), self.scalar(i.ops[1], ph)
            if a is None or b is None or a == 0 or b == 0:
                return None
            d = dict(a)
            for x, k in b:
                d[x] = d.get(x, 0) + (k if i.op == 'fmul' else -k)
            return tuple(sorted(((x, k) for x, k in d.items() if k), key=repr))
        if i.op == 'call' and NORM.search(i.get('cdem') or ''):
            for q in (ph, 'pre'):
                if (i.id, q) in self.norms:
                    e = self.norms[i.id, q]
                    return None if e is None else ((('norm', key(e)), 1),)
            return None
        if i.op == 'load':
            try:
                r, o = f.addr(i.ops[0])
            except Undecided:
                return None
            if r == ('arg', self.prm.get('betas', -1)) and o.is_const():
                return ((('beta', o.c // 8), 1),)
        if i.op == 'phi':
            ls = [o for o, fr in zip(i.ops, i.get('from')) if (fr, i.blk) in f.live_edges]
            if len(ls) == 1:
                return self.scalar(ls[0], ph)
        return None

    # ---- regions
    def top_inner(self, b):
        """outermost loop around b below the main loop, or None"""
        ch = [l for l in self.f.loop_chain(b) if l != self.outer]
        return ch[0] if ch else None

    def region(self, starts, ph):
        """abstract execution of an acyclic region (inner loops collapsed) from [(block, state, conditions, phi bindings)];
        yields (kind, edge, state, conditions, bindings) for loop entry, back edges, exits and returns"""
        f = self.f
        L = f.loops.get(self.outer) if self.outer is not None else None
        inL = lambda b: L is not None and b in L['blocks']
        out, work, done = [], {}, 0
        for b, s, cs, pb in starts:
            work.setdefault(b, []).append((s, cs, pb))
        while work:
            b = min(work, key=lambda x: self.order[x])
            for s0, conds, pb0 in work.pop(b):
                done += 1
                if done > 3000:
                    raise Undecided('too many paths')
                s = dict(s0)
                self.written = set()
                il = self.top_inner(b)
                if il is None:
                    self.path = pb0, conds
                    self.block(b, s, ph)
                    edges = [(b, n) for n in f.succ[b]]
                else:
                    bl = sorted(f.loops[il]['blocks'], key=lambda x: self.order[x])
                    for x in bl:
                        if x in self.live:
                            self.block(x, s, ph)
                    edges = [(x, n) for x in bl for n in f.succ[x] if n not in f.loops[il]['blocks'] and n in self.live]
                    if len({n for _, n in edges}) > 1:
                        raise Undecided('inner loop with several exits')
                if f.blocks[b][-1].op == 'ret':
                    out.append(('ret', (b, None), s, conds, pb0))
                    continue
                sw = {}
                t = f.blocks[b][-1]
                if il is None and t.op == 'switch':
                    tab = dict((k, n) for k, n in t.get('cases'))
                    for x, cs in self.opts(t.ops[0], pb0, conds, ph):
                        if x.is_const():
                            sw.setdefault(tab.get(x.c, t.get('def')), []).append(cs)
                        else:
                            sw = {n: [conds] for _, n in edges}
                            break
                todo = []
                for x, n in dict.fromkeys(edges):
                    if n not in self.live or (x, n) not in f.live_edges:
                        continue
                    if sw or il is None and t.op == 'switch':
                        todo += [(x, n, cs) for cs in dict.fromkeys(sw.get(n, ()))]
                    else:
                        todo.append((x, n, conds))
                for x, n, cs in todo:
                    t = f.blocks[x][-1]
                    if il is None and t.op == 'br' and len(set(f.base.succ[x])) == 2 and len(f.succ[x]) == 2:
                        d = self.known(t.ops[0], pb0, ph)
                        tv = f.base.succ[x][0] == n
                        if d is not None and d != tv or (t.ops[0], not tv) in cs:
                            continue
                        if d is None or ph != 'pre' and self.mentions_count(t.ops[0]):
                            cs = cs + ((t.ops[0], tv),) if (t.ops[0], tv) not in cs else cs
                    pb = dict(pb0)
                    for i in f.blocks[n]:
                        if i.op == 'phi':
                            for o, fr in zip(i.ops, i.get('from')):
                                if fr == x:
                                    pb[i.id] = o
                    if L is not None and n == L['header']:
                        out.append(('back' if inL(x) else 'enter', (x, n), s, cs, self.carried(pb, pb0, cs, ph)))
                    elif inL(x) and not inL(n):
                        out.append(('exit', (x, n), s, cs, pb))
                    elif (s, cs, pb) not in work.setdefault(n, []):
                        work[n].append((s, cs, pb))
        return out

    def opts(self, v, pb, conds, ph, depth=0):
        """[(Lin, conditions)] an integer can be on this path"""
        f = self.f
        if depth > 30:
            raise Undecided('deep value')
        if v in pb:
            return self.opts(pb[v], {k: x for k, x in pb.items() if k != v}, conds, ph, depth + 1)
        i = f.ins.get(v)
        if i is None:
            return [(f.lin(v), conds)]
        if i.op == 'select':
            r = []
            d = self.decide(i.ops[0], ph)
            for tv, o in ((True, i.ops[1]), (False, i.ops[2])):
                if d is not None and d != tv or (i.ops[0], not tv) in conds:
                    continue
                cs = conds if d is not None or (i.ops[0], tv) in conds else conds + ((i.ops[0], tv),)
                r += self.opts(o, pb, cs, ph, depth + 1)
            return r
        if i.op in ('extractvalue', 'insertvalue'):
            raise Undecided('aggregate')
        if i.op in ('add', 'sub') and any(o in pb for o in i.ops):
            return [(x + y if i.op == 'add' else x - y, c2) for x, c1 in self.opts(i.ops[0], pb, conds, ph, depth + 1)
                    for y, c2 in self.opts(i.ops[1], pb, c1, ph, depth + 1)]
        if i.op in ('zext', 'sext', 'trunc', 'freeze') and i.ops[0] in f.ins and (f.ins[i.ops[0]].op in ('phi', 'select') or i.ops[0] in pb) and i.get('from_ty') != 'i1':
            return self.opts(i.ops[0], pb, conds, ph, depth + 1)
        return [(f.lin(v), conds)]

    def known(self, v, pb, ph):
        """truth of a branch condition that the path fixes"""
        i = self.f.ins.get(v)
        for _ in range(20):
            if v in pb:
                v = pb[v]
            else:
                break
        if v.startswith('c:'):
            return v != 'c:0'
        return self.decide(v, ph)

    def carried(self, pb, pb0, conds, ph):
        """constants the phis at the head of the main loop get over an edge"""
        f = self.f
        r = {}
        for i in f.blocks[f.loops[self.outer]['header']]:
            if i.op == 'phi' and i.id in pb and not self.f.isptr(i.id) and i.get('ty') not in ('double', 'float'):
                try:
                    if ('it', self.outer) in f.lin(i.id).t:
                        continue
                    o = self.opts(pb[i.id], pb0, conds, ph)
                except Undecided:
                    continue
                if o and all(x.is_const() and x == o[0][0] for x, _ in o):
                    r[i.id] = 'c:%d' % o[0][0].c
        return r

    def mentions_count(self, v):
        return self.count_cond(v, True) is not None

    def count_cond(self, v, tv):
        """a comparison of iterations with N as (e, eq): the condition says e >= 0 (or e == 0); None when it is not one"""
        f = self.f
        i = f.ins.get(v)
        if i is None:
            return None
        if i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
            return self.count_cond(i.ops[0], not tv)
        if i.op != 'icmp':
            return None
        try:
            d = f.lin(i.ops[0]) - f.lin(i.ops[1])
        except Undecided:
            return None
        n = ('arg', self.prm['N'])
        if n not in d.t or ('it', self.outer) not in d.t:
            return None
        p = i.get('pred')
        if not tv:
            p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'slt': 'sge', 'ule': 'ugt', 'sle': 'sgt', 'ugt': 'ule', 'sgt': 'sle', 'uge': 'ult', 'sge': 'slt'}[p]
        if p in ('uge', 'sge'):
            return d, False
        if p in ('ugt', 'sgt'):
            return d - 1, False
        if p in ('ule', 'sle'):
            return d.scale(-1), False
        if p in ('ult', 'slt'):
            return d.scale(-1) - 1, False
        return (d if d.t[n] < 0 else d.scale(-1)), p

    def block(self, b, st, ph):
        todo = [(i.pos, 'c', self.calls[i.id]) for i in self.f.blocks[b] if i.id in self.calls]
        todo += [(s.ins.pos, 's', s) for s in self.stm.get(b, ())]
        for _, k, x in sorted(todo, key=lambda t: t[0]):
            if k == 'c':
                self.call(x, st, ph)
            else:
                self.stmt(x, st)


INIT = {'b._data': {'b': 1}, 'x._data': None, 'ir._xk._data': None, 'ir._r._data': None}


def step(x, t):
    """x + M^-1 (b - A x)"""
    a, s = ('At', 'St') if t else ('A', 'S')
    return plus(x, apply(s, plus({'b': 1}, apply(a, x), -1)))


def results(R, st, pb, blk, conds, ph):
    """[(count, flag, conditions)] returned, as Lin"""
    f = R.f
    ret = [i for i in f.blocks[blk] if i.op == 'ret'][0]
    cs = []
    for b in f.blocks:
        for i in f.blocks[b]:
            if i.op == 'store':
                try:
                    r, o = f.addr(i.ops[1])
                except Undecided:
                    continue
                if r == ('arg', R.prm['cnt']):
                    cs.append(i)
    if len(cs) != 1 or not f.dom(cs[0].blk, blk):
        raise Undecided('stores of the count')
    return [(c, fl, c2) for fl, c1 in R.opts(ret.ops[0], pb, conds, ph) for c, c2 in R.opts(cs[0].ops[0], pb, c1, ph)]


def residual_cond(R, conds, ph, x, beta):
    """does a condition on the path say |b - A x| / |b| <= / > betas[beta]? True / False (all recognised, none does) / None"""
    t = R.tran
    want = {('norm', key(plus({'b': 1}, apply('At' if t else 'A', x), -1))): 1, ('norm', key({'b': 1})): -1, ('beta', beta): -1}
    inv = {a: -k for a, k in want.items()}
    known, seen = True, []
    for v, tv in conds:
        i = R.f.ins.get(v)
        while i is not None and i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
            v, tv = i.ops[0], not tv
            i = R.f.ins.get(v)
        if i is None or i.op != 'fcmp':
            if R.count_cond(v, tv) is None:
                known = False
            continue
        a, b = R.scalar(i.ops[0], ph), R.scalar(i.ops[1], ph)
        if a is None or b is None or a == 0 or b == 0:
            known = False
            continue
        d = dict(a)
        for q, k in b:
            d[q] = d.get(q, 0) - k
        d = {q: k for q, k in d.items() if k}
        p = i.get('pred')[1:]
        if not tv:
            p = {'le': 'gt', 'lt': 'ge', 'gt': 'le', 'ge': 'lt'}.get(p, '?')
        if d == inv:
            d, p = want, {'le': 'ge', 'lt': 'gt', 'gt': 'lt', 'ge': 'le'}.get(p, '?')
        seen.append((d, p))
        if d == want and p in (('le', 'lt') if beta == 0 else ('gt', 'ge')):
            return True, seen
    return (False if known else None), seen


def analyse(rep, f, prog):
    """obligations of one instantiation of one variant"""
    m = re.match(r'Refine<(.*), ([^,<]*<.*>)>::(\w+)\(', f.dem)
    T, bounded = m.group(1), m.group(3).startswith('bounded')
    mat = re.search(r'(CRS|CCS|function)<', m.group(2)).group(1)
    cx = 'complex' in T
    es = {'double': 8, 'float': 4, 'std::complex<float>': 8, 'std::complex<double>': 16}[T]
    who0 = '%s<%s, %s>' % ('bounded refinement' if bounded else 'refinement', T, mat)
    n = 0
    for tran in (0, 1):
        who = who0 + (', transposed' if tran else '')
        jobs = [('single', single), ('iterate', iterate)] + ([('zero', zero)] if bounded else [])
        for rule, fn in jobs:
            n += 1
            try:
                d = fn(f, prog, tran, es, cx, bounded)
                if d[0]:
                    rep.ok(rule, who, d[1])
                else:
                    rep.und(rule, who, d[1])
            except Bad as e:
                rep.bad(rule, who, str(e), e.loc)
            except Undecided as e:
                rep.und(rule, who, str(e))
    return n


def single(f, prog, tran, es, cx, bounded):
    R = Refine(f, prog, tran, [({'N': 1}, 0, 1)], es, cx)
    rs = R.region([(R.f.entry, dict(INIT), (), {})], 'pre')
    want = {('St' if tran else 'S', 'b'): 1}
    if not rs:
        raise Undecided('no return')
    for kind, e, st, cs, pb in rs:
        if kind != 'ret':
            return loopy(R, rs, want, tran)
        x = st['x._data']
        if x is None:
            raise Undecided('x after one solve')
        if x != want:
            raise Bad('for a single iteration x is %s instead of %s' % (estr(x), estr(want)), f.dem.split('(')[0])
        if bounded:
            for c, fl, _ in results(R, st, pb, e[0], cs, 'pre'):
              if (c, fl) != (Lin(1), Lin(-1)):
                if c.is_const() and fl.is_const():
                    raise Bad('a single iteration reports count %r, flag %r' % (c, fl), f.dem.split('(')[0])
                raise Undecided('count and flag')
    return True, 'x = M^-1 b'


def loopy(R, rs, want, tran):
    raise Undecided('the single iteration runs through the loop')


def zero(f, prog, tran, es, cx, bounded):
    R = Refine(f, prog, tran, [({'N': 1}, 2, INF)], es, cx, bzero=True)
    rs = R.region([(R.f.entry, dict(INIT), (), {})], 'pre')
    for kind, e, st, cs, pb in rs:
        if kind != 'ret':
            if any(R.f.ins[c].op == 'fcmp' for c, _ in cs if c in R.f.ins):
                raise Undecided('test of the right-hand side')
            raise Bad('a zero right-hand side is iterated on', f.dem.split('(')[0])
        x = st['x._data']
        if x is None:
            raise Undecided('x for a zero right-hand side')
        if x != {}:
            raise Bad('for a zero right-hand side x is %s' % estr(x), f.dem.split('(')[0])
        for c, fl, _ in results(R, st, pb, e[0], cs, 'pre'):
          if (c, fl) != (Lin(0), Lin(0)):
            if c.is_const() and fl.is_const():
                raise Bad('a zero right-hand side reports count %r, flag %r' % (c, fl), f.dem.split('(')[0])
            raise Undecided('count and flag')
    return True, 'x = 0, count 0, flag 0'


def joinst(states):
    r = dict(states[0])
    for s in states[1:]:
        for k in r:
            if s.get(k) != r[k]:
                r[k] = None
    return r


def joinb(bs):
    r = dict(bs[0])
    for b in bs[1:]:
        r = {k: v for k, v in r.items() if b.get(k) == v}
    return r


def iterate(f, prog, tran, es, cx, bounded):
    R = Refine(f, prog, tran, [({'N': 1}, 2, INF)], es, cx)
    where = f.dem.split('(')[0]
    if R.outer is None:
        raise Bad('no loop of solves for two and more iterations', where)
    F = R.f
    pre = R.region([(F.entry, dict(INIT), (), {})], 'pre')
    for kind, e, st, cs, pb in pre:
        if kind == 'ret':
            raise (Bad if not cs else Undecided)('%sreturns before the first solve' % ('' if not cs else 'some path '), where)
    H = F.loops[R.outer]['header']
    st = joinst([s for _, _, s, _, _ in pre])
    bind = joinb([pb for _, _, _, cs, pb in pre])
    it = Lin.atom(('it', R.outer))
    N = Lin.atom(('arg', R.prm['N']))
    X = {}
    inv = None
    for ph in (0, 1, 2, 'gen'):
        if ph == 'gen':
            # candidate invariants; X is the iterate at the head of any later iteration
            b, A = {'b': 1}, ('At' if tran else 'A')
            temps = [{'X': 1}, plus(b, apply(A, {'X': 1}), -1), b, {}, apply('St' if tran else 'S', plus(b, apply(A, {'X': 1}), -1))]
            x1 = step({}, tran)
            inv = {}
            for v, e in first.items():
                inv[v] = next((t for t in temps if e is not None and subst(t, x1) == e), None)
            while True:
                outs = R.region([(H, dict(inv), (), dict(bind))], 'gen')
                back = [o for o in outs if o[0] == 'back']
                if not back:
                    break
                x2 = step({'X': 1}, tran)
                jn = joinst([o[2] for o in back])
                nv = {v: (t if t is not None and jn[v] == subst(t, x2) else None) for v, t in inv.items()}
                nb = joinb([bind] + [o[4] for o in back])
                if nv == inv and nb == bind:
                    break
                inv, bind = nv, nb
            X = {'X': 1}
        else:
            outs = R.region([(H, dict(st), (), dict(bind))], ph)
            back = [o for o in outs if o[0] == 'back']
            if not back:
                if ph < 2:
                    raise Bad('the loop ends after %d iterations whatever was requested' % (ph + 1), where)
                raise Undecided('no back edge')
        after = step(X, tran)
        unk = False
        exits = []
        for kind, e, s, cs, pb in outs:
            if kind != 'exit':
                continue
            x = s['x._data']
            idx = it if x == X else it + 1 if x == after else None
            if x is None:
                unk = True
                continue
            if idx is None:
                raise Bad('the loop is left%s with x = %s; the iterate is %s' % (
                    '' if ph == 'gen' else ' in iteration %d' % (ph + 1), estr(x), estr(after)), F.blocks[e[0]][-1].loc)
            if not bounded:
                if len({(o[1]) for o in outs if o[0] == 'exit'}) > 1:
                    raise Undecided('several exits')
                tot = F.trips(R.outer) - 1 + (idx - it)
                tot = R.k.clean(tot)
                if tot != N:
                    d = F.named(tot - N) if (tot - N).t else {}
                    if (tot - N).is_const() or d is not None and set(d) <= {'N'}:
                        raise Bad('%s solves are done instead of N' % F.show(tot), F.blocks[e[0]][-1].loc)
                    raise Undecided('number of iterations %r' % tot)
                continue
            fin = R.region([(e[1], s, cs, pb)], ph)
            for k2, e2, s2, cs2, pb2 in fin:
                if k2 != 'ret':
                    raise Undecided('after the loop')
                if s2['x._data'] != x:
                    raise Undecided('x changes after the loop')
                loc = F.blocks[e[0]][-1].loc
                res = results(R, s2, pb2, e2[0], cs2, ph)
                exits += [(x, idx, c, fl, cs3, loc) for c, fl, cs3 in res]
        for x, idx, c, fl, cs2, loc in exits:
            atN = fl.is_const() and fl.c < 0 and c == N
            if c != idx and not atN:
                if set(c.t) <= {('it', R.outer)} or fl.is_const() and fl.c < 0 and set(c.t) == set(N.t):
                    raise Bad('%r iterations are reported after %r' % (c, idx), loc)
                raise Undecided('count %r' % c)
            if not fl.is_const():
                raise Undecided('flag %r' % fl)
            if fl.c < 0:
                cc = [R.count_cond(v, tv) for v, tv in cs2]
                cc = [q for q in cc if q is not None]
                if not any(q[1] in (False, 'eq') and q[0] == idx - N for q in cc):
                    if cc and all(len(q[0].t) == 2 for q in cc) or not cc and all(R.f.ins[v].op == 'fcmp' for v, _ in cs2):
                        raise Bad('flag %d is returned although N solves need not have been done' % fl.c, loc)
                    raise Undecided('condition of flag %d' % fl.c)
            else:
                beta = 0 if fl.c == 0 else 1
                ok, seen = residual_cond(R, cs2, ph, x, beta)
                if ok is None:
                    unk = True
                elif not ok:
                    raise Bad('flag %d is returned without the residual of the returned x being %s bound %d (conditions seen: %s)' % (
                        fl.c, 'within' if beta == 0 else 'above', beta, '; '.join(mono(d, p) for d, p in seen)), loc)
        if bounded:
            for kind, e, s, cs, pb in back:
                cc = [R.count_cond(v, tv) for v, tv in cs]
                cc = [q for q in cc if q is not None]
                if not cc:
                    if all(R.f.ins[v].op == 'fcmp' for v, _ in cs):
                        raise Bad('an iteration can follow another without the count being compared with N', F.blocks[e[0]][-1].loc)
                    raise Undecided('bound of the loop')
                if not any(q[1] in (False, 'ne') and (q[0] == N - it - 2 or q[1] == 'ne' and q[0] == it + 1 - N) for q in cc):
                    if all(set(q[0].t) == set((N - it).t) for q in cc):
                        raise Bad('the count that bounds the loop is not the number of solves', F.blocks[e[0]][-1].loc)
                    raise Undecided('bound of the loop')
        if unk and ph == 'gen':
            return False, 'the loop invariant is not found (%s)' % ', '.join('%s=%s' % (v, estr(t)) for v, t in inv.items())
        if ph != 'gen':
            st = joinst([o[2] for o in back])
            bind = joinb([o[4] for o in back])
            if ph == 0:
                first = dict(st)
            X = after
    return True, 'invariant: ' + ', '.join('%s = %s' % (v, estr(t)) for v, t in sorted(inv.items()) if t is not None)


def mono(d, p):
    return ' * '.join('%s^%d' % (estr(dict(a[1])) if a[0] == 'norm' else '%s%s' % a, k) for a, k in d.items()) + ' %s 1' % p
