"""Conditional constant propagation: a function specialised to a scenario.

A scenario gives values to named inputs (parameters, header fields) and interval
facts about differences of them; edges whose condition contradicts the scenario
are removed, and dominance, loops and phi values are recomputed on what is left.
Event extraction lists the calls and stores that every remaining path executes,
in order, together with their enclosing loops.
"""
import re
from ir import Function, Lin, Undecided, untup, astr

NORET = re.compile(r'^(void )?(hif::error\(|std::__throw_|std::terminate|__cxa_throw|__cxa_rethrow|abort|__cxa_bad|std::rethrow)')
INF = float('inf')


class SFunc(Function):
    def __init__(self, f, env=None, facts=(), truth=None, names=None):
        """env: {name: int or name}; facts: [({name: coef}, lo, hi)]; truth(sf, icmp) -> bool or None"""
        self.__dict__.update(f.__dict__)
        self.base = f
        for k in ('_lin', '_addr'):
            setattr(self, k, {})
        for k in ('_rc', '_as', '_live', '_cd'):
            self.__dict__.pop(k, None)
        self.env = env or {}
        self.ftab = {}
        for d, lo, hi in facts:
            self.fact(d, lo, hi)
        self.truthfn = truth
        self.names = names or {}
        self.all_succ = f.succ
        self.cut()

    def fact(self, d, lo, hi):
        k = frozenset(d.items())
        a, b = self.ftab.get(k, (-INF, INF))
        self.ftab[k] = (max(a, lo), min(b, hi))

    # ---- naming of inputs
    def aname(self, a):
        if a in self.names:
            return self.names[a]
        if a[0] == 'arg':
            x = self.args[a[1]]
            return x.get('var') or x.get('name') or 'arg%d' % a[1]
        if a[0] == 'ld' and a[1][0] == 'arg':
            off = untup(a[2])
            if off.is_const():
                return self.field_of(a[1], off.c)
        return None

    def named(self, l):
        """{name: coef} or None"""
        r = {}
        for a, k in l.t.items():
            n = self.aname(a)
            if n is None:
                return None
            r[n] = r.get(n, 0) + k
        return r

    def bounds(self, l):
        if l.is_const():
            return l.c, l.c
        d = self.named(l)
        if d is None:
            return -INF, INF
        d = {k: v for k, v in d.items() if v}
        if not d:
            return l.c, l.c
        lo, hi = self.ftab.get(frozenset(d.items()), (-INF, INF))
        m = {k: -v for k, v in d.items()}
        a, b = self.ftab.get(frozenset(m.items()), (-INF, INF))
        lo, hi = max(lo, -b), min(hi, -a)
        # sizes and counts are not negative: single named quantity with unsigned meaning is left to facts
        return lo + l.c, hi + l.c

    # ---- values under the scenario
    def _compute_lin(self, v):
        if v[0] == '%':
            i = self.ins[v]
            op = i.op
            if op == 'phi':
                lv = self.live_in(i)
                if len(set(lv)) == 1:
                    return self.lin(lv[0])
                L = self.bloop[i.blk]
                if not (L != -1 and self.loops[L]['header'] == i.blk):
                    ls = [self.lin(x) for x in lv]
                    if ls and all(x == ls[0] for x in ls):
                        return ls[0]
                    if len(lv) < len(i.ops):
                        return Lin.atom(('phi', v))
            elif op == 'select':
                t = self.truth(i.ops[0])
                if t is not None:
                    return self.lin(i.ops[1] if t else i.ops[2])
            elif op == 'icmp' or op in ('and', 'or', 'xor') and i.get('ty') == 'i1':
                t = self.truth(v)
                if t is not None:
                    return Lin(1 if t else 0)
            elif op in ('and', 'or', 'xor') and self.env:
                x, y = self.lin(i.ops[0]), self.lin(i.ops[1])
                if x.is_const() and y.is_const():
                    return Lin({'and': x.c & y.c, 'or': x.c | y.c, 'xor': x.c ^ y.c}[op])
            elif op in ('zext', 'sext') and i.get('from_ty') == 'i1':
                t = self.truth(i.ops[0])
                if t is not None:
                    return Lin((1 if op == 'zext' else -1) if t else 0)
            elif op == 'trunc' and i.get('ty') in ('i1', 'i8'):
                l = self.lin(i.ops[0])
                if l.is_const():
                    return Lin(l.c & 1 if i.get('ty') == 'i1' else ((l.c + 128) % 256) - 128)
            elif op == 'load':
                try:
                    root, off = self.addr(i.ops[0])
                    if root[0] == 'alloca':
                        w = self.alloca_value(i)
                        if w is not None:
                            return self.lin(w)
                except Undecided:
                    pass
        r = Function._compute_lin(self, v)
        return self.bind(r)

    def bind(self, r):
        if not self.env and not self.names and not self.ftab:
            return r
        o = Lin(r.c)
        for a, k in r.t.items():
            n = self.aname(a)
            if n is not None and n in self.env:
                x = self.env[n]
                o = o + (x if isinstance(x, Lin) else Lin(x)).scale(k)
            elif a[0] in ('min', 'max') and len(a) == 3:
                x, y = self.bind(untup(a[1])), self.bind(untup(a[2]))
                lo, hi = self.bounds(x - y)
                if lo >= 0:
                    z = y if a[0] == 'min' else x
                elif hi <= 0:
                    z = x if a[0] == 'min' else y
                else:
                    z = Lin.atom(a)
                o = o + z.scale(k)
            else:
                o = o + Lin.atom(a, k)
        return o

    def _compute_addr(self, v):
        if v[0] == '%':
            i = self.ins[v]
            if i.op == 'phi':
                lv = self.live_in(i)
                if len(set(lv)) == 1:
                    return self.addr(lv[0])
            elif i.op == 'select':
                t = self.truth(i.ops[0])
                if t is not None:
                    return self.addr(i.ops[1] if t else i.ops[2])
        return Function._compute_addr(self, v)

    def live_in(self, i):
        r = []
        for o, fr in zip(i.ops, i.get('from')):
            if (fr, i.blk) in self.live_edges:
                r.append(o)
        return r

    def truth(self, v):
        """truth value of an i1 under the scenario, or None"""
        if v.startswith('c:'):
            return v != 'c:0'
        if v[0] == 'a' and v[1:].isdigit():
            n = self.aname(('arg', int(v[1:])))
            if n in self.env:
                x = self.env[n]
                return bool(x if isinstance(x, int) else x.c)
            return None
        if v[0] != '%':
            return None
        i = self.ins[v]
        op = i.op
        if op == 'icmp':
            return self.cmp(i)
        if op == 'xor':
            a, b = self.truth(i.ops[0]), self.truth(i.ops[1])
            return None if a is None or b is None else a != b
        if op in ('and', 'or'):
            a, b = self.truth(i.ops[0]), self.truth(i.ops[1])
            w = op == 'or'
            if a is w or b is w:
                return w
            if a is not None and b is not None:
                return (a and b) if op == 'and' else (a or b)
            return None
        if op == 'select':
            c = self.truth(i.ops[0])
            if c is None:
                a, b = self.truth(i.ops[1]), self.truth(i.ops[2])
                return a if a is not None and a == b else None
            return self.truth(i.ops[1] if c else i.ops[2])
        if op in ('phi', 'trunc', 'freeze', 'load'):
            try:
                l = self.lin(v) if op != 'freeze' else self.lin(i.ops[0])
            except Undecided:
                return None
            if l.is_const():
                return bool(l.c & 1) if op == 'trunc' else bool(l.c)
            if op == 'trunc':
                a = self.lin(i.ops[0])
                if a.is_const():
                    return bool(a.c & 1)
            return None
        if op == 'call' and (i.get('callee') or '').startswith('llvm.expect'):
            return self.truth(i.ops[0])
        if self.truthfn:
            return self.truthfn(self, i)
        return None

    def cmp(self, i):
        if self.truthfn:
            t = self.truthfn(self, i)
            if t is not None:
                return t
        p = i.get('pred')
        try:
            if self.isptr(i.ops[0]):
                return self.pcmp(i)
            d = self.lin(i.ops[0]) - self.lin(i.ops[1])
        except Undecided:
            return None
        lo, hi = self.bounds(self.bind(d))
        p = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(p, p)
        if p == 'eq':
            return True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
        if p == 'ne':
            return False if lo == hi == 0 else True if lo > 0 or hi < 0 else None
        if p == 'slt':
            return True if hi < 0 else False if lo >= 0 else None
        if p == 'sle':
            return True if hi <= 0 else False if lo > 0 else None
        if p == 'sgt':
            return True if lo > 0 else False if hi <= 0 else None
        if p == 'sge':
            return True if lo >= 0 else False if hi < 0 else None
        return None

    def pcmp(self, i):
        p = i.get('pred')
        if p not in ('eq', 'ne'):
            return None
        a, b = i.ops
        if a == 'null':
            a, b = b, a
        ra, oa = self.addr(a)
        if b == 'null':
            nn = None
            if ra[0] in ('alloca', 'global') or ra[0] != 'null' and oa.is_const() and oa.c > 0:
                nn = True
            elif ra == ('null',):
                nn = False
            elif ra[0] in ('arg', 'ld') and oa == Lin(0):
                n = self.aname(ra)
                if n is not None and n in self.env:
                    nn = bool(self.env[n])
            if nn is None:
                return None
            return (not nn) if p == 'eq' else nn
        rb, ob = self.addr(b)
        if ra == rb:
            lo, hi = self.bounds(oa - ob)
            if lo == hi == 0:
                return p == 'eq'
            if lo > 0 or hi < 0:
                return p == 'ne'
        return None

    # ---- specialised graph
    def cut(self):
        f = self.base
        self.live_edges = {(b, s) for b, ss in f.succ.items() for s in ss}
        stopped = set()
        for b, ii in f.blocks.items():
            if any(x.op in ('call', 'invoke') and (x.get('noret') or NORET.match(x.get('cdem') or '')) for x in ii):
                stopped.add(b)
        self.stops = stopped
        for _ in range(12):
            self._lin, self._addr = {}, {}
            live, reach, st = set(), {f.entry}, [f.entry]
            while st:
                b = st.pop()
                for s in self.out(b):
                    if (b, s) not in self.live_edges:
                        continue
                    live.add((b, s))
                    if s not in reach:
                        reach.add(s)
                        st.append(s)
            if live == self.live_edges:
                break
            self.live_edges = live
        self._lin, self._addr = {}, {}
        self.reachable = reach
        self.blocks = {b: ii for b, ii in f.blocks.items() if b in reach}
        self.ins = f.ins
        self.succ = {b: [s for s in dict.fromkeys(f.succ[b]) if (b, s) in live] for b in reach}
        self.pred = {b: [] for b in reach}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self.loops = {}
        for k, L in f.loops.items():
            if L['header'] not in reach:
                continue
            bl = [b for b in L['blocks'] if b in reach]
            if not any(L['header'] in self.succ[b] for b in bl):
                continue        # no back edge left
            M = dict(L)
            M['blocks'] = bl
            M['exiting'] = [b for b in L['exiting'] if b in reach and any(s not in L['blocks'] for s in self.succ[b])]
            self.loops[k] = M
        self.bloop = {}
        for b in reach:
            l = f.bloop[b]
            while l != -1 and l not in self.loops:
                l = f.loops[l]['parent']
            self.bloop[b] = l
        for k, M in self.loops.items():
            p = f.loops[k]['parent']
            while p != -1 and p not in self.loops:
                p = f.loops[p]['parent']
            M['parent'] = p
        self.idom = self._idoms()

    def out(self, b):
        f = self.base
        ii = f.blocks[b]
        if b in self.stops or not ii:
            return []
        t = ii[-1]
        if t.op == 'br' and len(f.succ[b]) == 2:
            c = self.truth(t.ops[0])
            if c is not None:
                return [f.succ[b][0] if c else f.succ[b][1]]
        if t.op == 'switch':
            try:
                l = self.lin(t.ops[0])
                if l.is_const():
                    for k, s in t.get('cases'):
                        if k == l.c:
                            return [s]
                    return [t.get('def')]
            except Undecided:
                pass
        return f.succ[b]

    def _idoms(self):
        order = self.rpo()
        num = {b: k for k, b in enumerate(order)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != n:
                        while num[a] > num[n]:
                            a = idom[a]
                        while num[n] > num[a]:
                            n = idom[n]
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        r = {b: idom[b] for b in idom}
        r[self.entry] = -1
        return r

    # ---- liveness of blocks: can a normal return be reached
    def returning(self):
        if not hasattr(self, '_ret'):
            live = set()
            st = [b for b, ii in self.blocks.items() if ii and ii[-1].op == 'ret']
            while st:
                x = st.pop()
                if x in live or x in self.stops:
                    continue
                live.add(x)
                st.extend(self.pred[x])
            self._ret = live
        return self._ret

    def uncond(self, blk):
        """None when every returning path executes blk (loops: at least in every iteration); else a guard branch"""
        live = self.returning()
        if not hasattr(self, '_pd'):
            EX = -99
            succ = {b: [s for s in self.succ[b] if s in live] or [EX] for b in live}
            allb = set(live) | {EX}
            pd = {b: set(allb) for b in live}
            pd[EX] = {EX}
            order = [b for b in self.rpo() if b in live]
            ch = True
            while ch:
                ch = False
                for b in reversed(order):
                    n = set.intersection(*[pd[s] for s in succ[b]]) | {b}
                    if n != pd[b]:
                        pd[b] = n
                        ch = True
            self._pd = pd
            self._lsucc = succ
        pd = self._pd
        chain = self.loop_chain(blk)
        seen, st = set(), [blk]
        guards = []
        while st:
            x = st.pop()
            for a, ss in self._lsucc.items():
                if len(ss) < 2:
                    continue
                for s in ss:
                    if s == -99:
                        continue
                    if x in pd[s] and (a == x or x not in pd[a]) and (a, s) not in seen:
                        seen.add((a, s))
                        l = self.bloop[a]
                        if l in chain and a in self.loops[l]['exiting']:
                            st.append(a) if a != x else None
                            continue
                        guards.append((a, s))
                        st.append(a)
        return guards

    def field(self, v):
        """name of the memory a pointer operand designates: 'this._mat._array._data' (+ Lin byte offset)"""
        root, off = self.addr(v)
        return self.rootname(root), off

    def rootname(self, root):
        if root[0] == 'arg':
            return '&' + (self.aname(root) or '?')
        if root[0] == 'ld':
            n = self.aname(root)
            if n:
                return n
        if root == ('null',):
            return 'null'
        return astr(root)

    def show(self, l):
        """Lin with names"""
        r = []
        for a, k in sorted(l.t.items(), key=lambda t: repr(t[0])):
            n = self.aname(a) or astr(a)
            r.append(n if k == 1 else '%d*%s' % (k, n))
        if l.c or not r:
            r.append(str(l.c))
        return '+'.join(r)
