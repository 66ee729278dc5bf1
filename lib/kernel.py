"""Loop-nest summaries of numeric kernels.

Every store of a function is summarised as  mem[row,col] := / += value  over a
chain of counted loops, where value is an exact polynomial over memory elements
and over sums of inner loops.  Registers that accumulate in a loop and local
scratch arrays are folded into sums, so the summary does not depend on how the
accumulation is written.
"""
import re
from fractions import Fraction as Fr
from ir import Lin, Undecided, untup, astr
import poly


NORETURN = re.compile(r'(void )?(hif::error\(|std::__throw_|std::terminate|abort|__cxa_throw)')


class Stmt:
    """kind: 'assign' (mem[..] := z) or 'update' (mem[..] += z)"""

    def __init__(self, kind, mem, row, col, z, loops, ins, order, flat=None):
        self.kind, self.mem, self.row, self.col, self.z = kind, mem, row, col, z
        self.loops, self.ins, self.order, self.flat = loops, ins, order, flat

    def __repr__(self):
        return '%s %s[%r,%r] %s %s over %s' % (self.ins.loc, self.mem, self.row, self.col,
                                               ':=' if self.kind == 'assign' else '+=', poly.pstr(self.z), self.loops)


def nested_its(l):
    """iteration atoms anywhere inside a Lin"""
    r = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'it':
                r.add(x)
                return
            for y in x:
                go(y)
    for a in l.t:
        go(a)
    return r


def deep_subst(x, m):
    """substitute iteration atoms (by Lin) anywhere inside a Lin / tuple / polynomial leaf"""
    if isinstance(x, Lin):
        r = Lin(x.c)
        for a, k in x.t.items():
            if a in m:
                r = r + m[a].scale(k)
            else:
                r = r + Lin.atom(deep_subst(a, m), k)
        return r
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'lin':
            return deep_subst(untup(x), m).tup()
        return tuple(deep_subst(y, m) for y in x)
    return x


def psubst(p, m):
    r = {}
    for mono, c in p.items():
        mm = tuple(sorted((deep_subst(l, m) for l in mono), key=repr))
        u = r.get(mm, (0, 0))
        r[mm] = (u[0] + c[0], u[1] + c[1])
    return {k: v for k, v in r.items() if v[0] or v[1]}


class Kernel:
    """cfg: esz(memname)->bytes per element, cols(memname)->columns per row, cx(memname)->bool
       memnames come from debug info ('y', 'this._vals._data' ...); allocas are '%id'"""

    def __init__(self, fn, esz, cols, cx):
        self.f = fn
        self.esz, self.cols, self.cx = esz, cols, cx
        self.rpo = fn.rpo()
        self.pos = {b: k for k, b in enumerate(self.rpo)}
        self.stmts = []
        self.facts = None
        self.scratch = {}
        self.active = set()

    # -- memory naming
    def mem(self, root):
        if root[0] == 'arg':
            a = self.f.args[root[1]]
            return a.get('var') or a.get('name') or 'arg%d' % root[1]
        if root[0] == 'ld' and root[1][0] == 'arg':
            off = untup(root[2])
            if off.is_const():
                n = self.f.field_of(root[1], off.c)
                if n:
                    return n
        if root[0] == 'alloca':
            return root[1]
        raise Undecided('memory %s' % (root,))

    def split(self, mem, off):
        """byte offset -> (row, col, component)"""
        e, c = self.esz(mem), self.cols(mem)
        S = e * c
        row, col = Lin(0), Lin(0)
        for a, k in off.t.items():
            if k % S == 0:
                row = row + Lin.atom(a, k // S)
            elif k % e == 0:
                col = col + Lin.atom(a, k // e)
            else:
                raise Undecided('stride %d in %s' % (k, mem))
        row = row + off.c // S
        rem = off.c % S
        return row, col + rem // e, rem % e

    # -- loops
    def count(self, lid, blk):
        L = self.f.loops[lid]
        if len(L['exiting']) != 1:
            ex = [e for e in L['exiting'] if not all(self.dead(s) for s in self.f.succ[e] if s not in L['blocks'])]
            if len(ex) != 1:
                raise Undecided('loop with several exits')
        else:
            ex = L['exiting']
        t = self.clean(self.f.trips(lid))
        return t if self.f.dom(blk, ex[0]) else t - 1

    def clean(self, l):
        """max(a+1,b) - a style counts of guarded loops -> b - a"""
        for a in list(l.t):
            if isinstance(a, tuple) and a[0] in ('max', 'min') and len(a) == 3:
                xs = [untup(a[1]), untup(a[2])]
                for x, y in ((0, 1), (1, 0)):
                    rest = l - Lin.atom(a, l.t[a])
                    # l = max(x,y)*1 - start..., start+1 == x
                    if l.t[a] == 1 and a[0] == 'max' and (rest + xs[x]) == Lin(1):
                        return rest + xs[y]
        return l

    def loops_of(self, blk):
        return [(l, self.count(l, blk)) for l in self.f.loop_chain(blk)]

    # -- dead ends: blocks from which no return is reachable
    def dead(self, b):
        if not hasattr(self, '_live'):
            live = set()
            stop = {b2 for b2, ii in self.f.blocks.items()
                    if any(x.op == 'call' and NORETURN.match(x.get('cdem') or '') for x in ii)}
            st = [b2 for b2, ii in self.f.blocks.items() if ii and ii[-1].op == 'ret']
            while st:
                x = st.pop()
                if x in live or x in stop:
                    continue
                live.add(x)
                st.extend(self.f.pred[x])
            self._live = live
        return b not in self._live

    # -- values
    def fval(self, v, blk):
        if v.startswith('d:'):
            return poly.const(Fr(float(v[2:])).limit_denominator(10 ** 12))
        if v[0] != '%':
            raise Undecided('fp operand %s' % v)
        f = self.f
        i = f.ins[v]
        # a value of an inner loop used outside
        il = f.bloop[i.blk]
        if il != -1 and not f.in_loop(blk, il):
            return self.exit_value(i, blk)
        return self.fval_in(i)

    def exit_value(self, i, blk):
        f = self.f
        lid = f.bloop[i.blk]
        par = f.loops[lid]['parent']
        if par != -1 and not f.in_loop(blk, par):
            raise Undecided('value leaves two loops')
        L = f.loops[lid]
        if i.op == 'phi' and i.blk == L['header']:
            init, rest = self.accum(i, lid)
            cnt = self.clean(f.trips(lid)) - 1
            return poly.add(init, self.sum(lid, cnt, rest))
        z = self.fval_in(i)
        acc = [l for m in z for l in m if self.unreal(l)[0] == 'acc']
        if len(acc) == 1:
            ph = f.ins[self.unreal(acc[0])[1]]
            init, rest = self.accum(ph, lid)
            if poly.add(z, poly.leaf(acc[0]), -1) == rest:
                return poly.add(init, self.sum(lid, self.clean(f.trips(lid)), rest))
        raise Undecided('loop value at exit')

    @staticmethod
    def unreal(l):
        return l[1] if isinstance(l, tuple) and l and l[0] == 'real' else l

    def accum(self, ph, lid):
        """phi = init; phi += rest each iteration"""
        f = self.f
        L = f.loops[lid]
        init = back = None
        for o, fr in zip(ph.ops, ph.get('from')):
            fr = int(str(fr).lstrip('b')) if not isinstance(fr, int) else fr
            if fr in L['blocks']:
                if back is not None:
                    raise Undecided('two latches')
                back = (o, fr)
            else:
                init = (o, fr)
        if init is None or back is None:
            raise Undecided('phi')
        me = poly.leaf(('real', ('acc', ph.id)))
        if ph.id in self.active:
            raise Undecided('mutual recurrence')
        b = self.fval(back[0], back[1])
        rest = poly.add(b, me, -1)
        if any(self.unreal(l)[0] == 'acc' for m in rest for l in m):
            raise Undecided('recurrence is not an accumulation at %s' % ph.loc)
        return self.fval(init[0], init[1]), rest

    def sum(self, lid, cnt, rest):
        r = {}
        for m, c in rest.items():
            l = ('sum', lid, cnt.tup(), m)
            r = poly.add(r, poly.mul(poly.const(c[0], c[1]), self.sumleaf(l)))
        return r

    @staticmethod
    def sumleaf(l):
        return {(l,): (Fr(1), Fr(0))}

    def fval_in(self, i):
        f = self.f
        op, o = i.op, i.ops
        if op in ('fadd', 'fsub'):
            return poly.add(self.fval(o[0], i.blk), self.fval(o[1], i.blk), 1 if op == 'fadd' else -1)
        if op == 'fmul':
            return poly.mul(self.fval(o[0], i.blk), self.fval(o[1], i.blk))
        if op == 'fneg':
            return poly.scale(self.fval(o[0], i.blk), -1)
        if op == 'fdiv':
            return poly.mul(self.fval(o[0], i.blk), poly.inv(self.fval(o[1], i.blk)))
        if op in ('fpext', 'fptrunc', 'freeze'):
            return self.fval(o[0], i.blk)
        if op in ('sitofp', 'uitofp'):
            l = f.lin(o[0])
            if l.is_const():
                return poly.const(l.c)
        if op == 'extractvalue' and o[0] in f.ins:
            c = f.ins[o[0]]
            nm = c.get('callee') or ''
            if c.op == 'call' and re.match(r'__(div|mul)[sd]c3$', nm):
                a = [self.fval(x, c.blk) for x in c.ops]
                z1 = poly.add(a[0], poly.mul(poly.const(0, 1), a[1]))
                z2 = poly.add(a[2], poly.mul(poly.const(0, 1), a[3]))
                z = poly.mul(z1, poly.inv(z2) if 'div' in nm else z2)
                return poly.re(z) if i.get('ix') == [0] else poly.im(z)
        if op == 'call' and (i.get('callee') or '').startswith(('llvm.fmuladd', 'llvm.fma.')):
            return poly.add(poly.mul(self.fval(o[0], i.blk), self.fval(o[1], i.blk)), self.fval(o[2], i.blk))
        if op == 'phi':
            L = f.bloop[i.blk]
            if L != -1 and f.loops[L]['header'] == i.blk:
                return poly.leaf(('real', ('acc', i.id)))
            vals = [self.fval(x, int(str(fr).lstrip('b'))) for x, fr in zip(o, i.get('from'))]
            if all(x == vals[0] for x in vals):
                return vals[0]
            # merge of a guarded accumulation: the skipped side equals the other with an empty sum
            for x in vals:
                nosum = {m: c for m, c in x.items() if not any(self.unreal(l)[0] == 'sum' for l in m)}
                if all(y == x or y == nosum for y in vals) and nosum != x:
                    return x
            raise Undecided('phi at %s' % i.loc)
        if op == 'load':
            root, off = f.addr(o[0])
            mem = self.mem(root)
            row, col, comp = self.split(mem, off)
            if root[0] == 'alloca':
                z = self.scratch_read(root, mem, row, col, i)
                if not self.cx(mem):
                    return z
                return poly.re(z) if comp == 0 else poly.im(z)
            return self.element(mem, row, col, comp)
        raise Undecided('fp op %s at %s' % (op, i.loc))

    def element(self, mem, row, col, comp):
        l = ('el', mem, row.tup(), col.tup())
        if not self.cx(mem):
            return poly.leaf(('real', l))
        z = poly.leaf(l)
        return poly.re(z) if comp == 0 else poly.im(z)

    # -- scratch arrays
    def scratch_read(self, root, mem, row, col, at):
        """value of scratch[row,col] at instruction `at`; during an update of the same element: a leaf"""
        self_leaf = ('el', mem, row.tup(), col.tup())
        if mem in self.active:
            return poly.leaf(self_leaf if self.cx(mem) else ('real', self_leaf))
        st = self.scratch.get(mem)
        if st is None:
            self.active.add(mem)
            try:
                st = self.collect(lambda r: r == root)
            finally:
                self.active.discard(mem)
            self.scratch[mem] = st
        f = self.f
        ac = f.loop_chain(at.blk)
        idx = row.scale(self.cols(mem)) + col
        # is the read part of an update statement of the array itself?
        for s in st:
            if s.kind == 'update' and s.ins.blk == at.blk and s.row.scale(self.cols(mem)) + s.col == idx and s.ins.pos > at.pos:
                return poly.leaf(self_leaf if self.cx(mem) else ('real', self_leaf))
        best = None
        z = None
        for s in sorted(st, key=lambda s: s.order):
            sc = [l for l, _ in s.loops if not isinstance(l, str)]
            k = 0
            while k < len(sc) and k < len(ac) and sc[k] == ac[k]:
                k += 1
            # position of the statement and of the reader inside the innermost common loop
            if not self.before(s.ins, at, ac[:k]):
                continue
            extra = [(l, c) for l, c in s.loops if l not in ac[:k]]
            e = s.row.scale(self.cols(mem)) + s.col
            its = [(a, kk) for a, kk in e.t.items() if a[0] == 'it' and a[1] in [l for l, _ in extra]]
            m = {}
            own = None
            if len(its) == 1 and its[0][1] == 1:
                a = its[0][0]
                own = a[1]
                m[a] = idx - (e - Lin.atom(a))
            elif not its and e == idx:
                pass
            elif its:
                raise Undecided('scratch index %r' % e)
            else:
                if (e - idx).is_const():
                    continue
                raise Undecided('scratch index %r vs %r' % (e, idx))
            if own is not None:
                cnt = dict(extra)[own]
                lo = (e - Lin.atom(('it', own)))
                size = self.cols(mem) * self.rows_of(root, mem)
                if lo == Lin(0) and cnt == Lin(size):
                    pass
                else:
                    raise Undecided('scratch partly written')
            zz = psubst(s.z, m)
            rest = [(l, c) for l, c in extra if l != own]
            if s.kind == 'assign':
                if rest:
                    raise Undecided('scratch assigned in a loop')
                z = zz
            else:
                if z is None:
                    raise Undecided('scratch updated before it is set')
                if len(rest) > 1:
                    raise Undecided('scratch updated in nested loops')
                if rest:
                    zz = self.sum(rest[0][0], rest[0][1], zz)
                z = poly.add(z, zz)
        if z is None:
            raise Undecided('scratch read before it is set at %s' % at.loc)
        return z

    def rows_of(self, root, mem):
        sz = self.f.ins[root[1]].get('size')
        return sz // (self.esz(mem) * self.cols(mem))

    def before(self, a, b, common):
        """a executes before b in one iteration of the common loops"""
        pa, pb = (self.pos[a.blk], a.pos), (self.pos[b.blk], b.pos)
        return pa < pb

    # -- statements
    def collect(self, want):
        """statements storing into memories accepted by want(root)"""
        f = self.f
        out = []
        pend = {}
        order = 0
        for b in self.rpo:
            if self.dead(b):
                continue
            for i in f.blocks[b]:
                order += 1
                if i.op == 'store':
                    try:
                        root, off = f.addr(i.ops[1])
                    except Undecided:
                        raise Undecided('store through unknown pointer at %s' % i.loc)
                    if not want(root):
                        continue
                    vt = i.get('sty') or ''
                    mem = self.mem(root)
                    row, col, comp = self.split(mem, off)
                    loops = self.loops_of(b)
                    if self.cx(mem) and vt in ('i64', 'i128', 'double') and int({'double': 64}.get(vt, vt[1:])) == 8 * self.esz(mem) \
                            and comp == 0:
                        z = self.whole(i.ops[0])
                        out.append(self.mk(mem, row, col, z, loops, i, order))
                        continue
                    v = self.fval(i.ops[0], b) if not i.ops[0].startswith('c:') else poly.const(int(i.ops[0][2:]))
                    if self.cx(mem):
                        key = (mem, row.tup(), col.tup(), b)
                        d = pend.setdefault(key, {})
                        d[comp] = v
                        if len(d) < 2:
                            continue
                        pend.pop(key)
                        hs = self.esz(mem) // 2
                        z = poly.add(poly.re(d[0]), poly.mul(poly.const(0, 1), poly.re(d[hs])))
                    else:
                        z = v
                    out.append(self.mk(mem, row, col, z, loops, i, order))
                elif i.op == 'call':
                    c = i.get('callee') or ''
                    if c.startswith(('llvm.memcpy', 'llvm.memmove')):
                        s = self.mk_copy(i, want, order)
                        if s:
                            out.append(s)
                    elif c.startswith('llvm.memset'):
                        s = self.mk_set(i, want, order)
                        if s:
                            out.append(s)
        if pend:
            raise Undecided('only one component of a complex element is stored: %s' % [(k[0], k[3], list(d)) for k, d in pend.items()])
        return out

    def whole(self, v):
        """a complex element moved as one integer"""
        if v in ('c:0', 'd:0.0', 'd:0'):
            return {}
        s = self.f.ins.get(v)
        if s is None or s.op != 'load':
            raise Undecided('complex element stored as a whole')
        root, off = self.f.addr(s.ops[0])
        mem = self.mem(root)
        row, col, comp = self.split(mem, off)
        if root[0] == 'alloca' or comp or not self.cx(mem):
            raise Undecided('complex element moved from %s' % mem)
        return poly.leaf(('el', mem, row.tup(), col.tup()))

    def mk(self, mem, row, col, z, loops, i, order):
        me = ('el', mem, row.tup(), col.tup())
        leaf = poly.leaf(me) if self.cx(mem) else poly.leaf(('real', me))
        mono = list(leaf)[0]
        if z.get(mono) == (Fr(1), Fr(0)):
            rest = poly.add(z, leaf, -1)
            return Stmt('update', mem, row, col, rest, loops, i, order)
        return Stmt('assign', mem, row, col, z, loops, i, order)

    def mk_copy(self, i, want, order):
        f = self.f
        rd, od = f.addr(i.ops[0])
        if not want(rd):
            return None
        rs, os_ = f.addr(i.ops[1])
        md, ms = self.mem(rd), self.mem(rs)
        ln = f.lin(i.ops[2])
        r1, c1, k1 = self.split(md, od)
        r0, c0, k0 = self.split(ms, os_)
        n = ln.divexact(self.esz(md))
        if n is None or k1 or k0 or self.esz(md) != self.esz(ms):
            raise Undecided('copy at %s' % i.loc)
        # flat element loop
        it = ('it', 'mc' + i.id)
        N0, N1 = self.cols(ms), self.cols(md)
        loops = self.loops_of(i.blk) + [(it[1], n)]
        if n == Lin(1):
            loops, it = self.loops_of(i.blk), None
        itl = Lin.atom(it) if it else Lin(0)
        src = ('el', ms, r0.tup(), (c0 + itl).tup())
        z = poly.leaf(src) if self.cx(ms) else poly.leaf(('real', src))
        if rs[0] == 'alloca':
            z = self.scratch_read(rs, ms, r0, c0 + itl, i)
        return Stmt('assign', md, r1, c1 + itl, z, loops, i, order)

    def mk_set(self, i, want, order):
        f = self.f
        rd, od = f.addr(i.ops[0])
        if not want(rd):
            return None
        md = self.mem(rd)
        if i.ops[1] != 'c:0':
            raise Undecided('memset value')
        r1, c1, k1 = self.split(md, od)
        n = f.lin(i.ops[2]).divexact(self.esz(md))
        if n is None or k1:
            raise Undecided('memset length at %s' % i.loc)
        it = ('it', 'mc' + i.id)
        return Stmt('assign', md, r1, c1 + Lin.atom(it), {}, self.loops_of(i.blk) + [(it[1], n)], i, order)

    # -- guards
    def guards(self, blk):
        """branch conditions (instr, taken successor) the block is control dependent on, without loop
        exits and without branches whose other side never returns"""
        f = self.f
        if not hasattr(self, '_cd'):
            self._cd = self.control_deps()
        seen, out = set(), []
        st = [blk]
        while st:
            b = st.pop()
            for (a, s) in self._cd.get(b, ()):
                if (a, s) in seen:
                    continue
                seen.add((a, s))
                out.append((a, s))
                st.append(a)
        return out

    def control_deps(self):
        f = self.f
        live = [b for b in self.rpo if not self.dead(b)]
        # post-dominators on the live subgraph (dead ends removed)
        succ = {b: [s for s in dict.fromkeys(f.succ[b]) if not self.dead(s)] for b in live}
        EXIT = -99
        for b in live:
            if not succ[b]:
                succ[b] = [EXIT]
        allb = set(live) | {EXIT}
        pd = {b: set(allb) for b in live}
        pd[EXIT] = {EXIT}
        ch = True
        while ch:
            ch = False
            for b in reversed(live):
                n = set.intersection(*[pd[s] for s in succ[b]]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        cd = {}
        for a in live:
            if len(succ[a]) < 2:
                continue
            for s in succ[a]:
                for b in pd[s]:
                    if b == EXIT:
                        continue
                    if b == a or b not in pd[a]:
                        cd.setdefault(b, []).append((a, s))
        self.pd = pd
        return cd

    def eq_facts(self):
        """Lin differences known to be zero because the other branch never returns"""
        if self.facts is not None:
            return self.facts
        f = self.f
        out = []
        for b in self.rpo:
            if self.dead(b):
                continue
            br = f.blocks[b][-1]
            ss = f.succ[b]
            if br.op != 'br' or len(ss) != 2 or not br.ops:
                continue
            d = [self.dead(s) for s in ss]
            if d[0] == d[1]:
                continue
            taken = 0 if d[1] else 1
            self._facts_of(br.ops[0], taken == 0, out)
        self.facts = out
        return out

    def _facts_of(self, v, val, out):
        i = self.f.ins.get(v)
        if i is None:
            return
        if i.op == 'icmp' and i.get('pred') in ('eq', 'ne'):
            if (i.get('pred') == 'eq') == val:
                try:
                    out.append(self.f.lin(i.ops[0]) - self.f.lin(i.ops[1]))
                except Undecided:
                    pass
        elif i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
            self._facts_of(i.ops[0], not val, out)
        elif i.op == 'or' and not val or i.op == 'and' and val:
            for o in i.ops:
                self._facts_of(o, val, out)
        elif i.op == 'select' and not val and i.ops[1] in ('c:1', 'c:-1'):
            self._facts_of(i.ops[0], val, out)
            self._facts_of(i.ops[2], val, out)
        elif i.op == 'select' and val and i.ops[2] == 'c:0':
            self._facts_of(i.ops[0], val, out)
            self._facts_of(i.ops[1], val, out)

    def reduce(self, l):
        """rewrite with the equality facts so that equal quantities get one name"""
        for d in self.eq_facts():
            atoms = [(a, k) for a, k in d.t.items() if k in (1, -1)]
            if len(d.t) == 2 and len(atoms) == 2 and d.c == 0:
                atoms.sort(key=lambda t: repr(t[0]))
                a, b = atoms[1][0], atoms[0][0]
                if d.t[a] == -d.t[b]:
                    l = l.subst({a: Lin.atom(b)})
        return l
