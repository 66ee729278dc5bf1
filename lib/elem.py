"""Element-wise meaning of the stores of the elimination kernels.

Every floating-point store of a function becomes  array[index] := / += value  where value is a polynomial over elements
array[index], indices are canonical terms over the integer arrays they were loaded from, and arrays are named by the role of
the argument they belong to.  The rules (see steps) compare these with the elimination formula.
"""
import math
import re
import poly
from ir import Lin, Undecided, untup
from kernel import Kernel

W = {'i8': 1, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8, 'float': 4, 'x86_fp80': 16}


class Elem(Kernel):
    def __init__(self, fn, roles, cx=(), vsize=8):
        self.roles = roles              # argument index -> role
        self.cxm = cx                   # roles whose elements are complex
        self.vsize = vsize
        super().__init__(fn, None, lambda m: 1, self.iscx)
        self.esz = lambda m: vsize * 2 if self.iscx(m) else vsize
        self._canon = {}

    def iscx(self, m):
        return any(m == r or m.startswith(r + '.') or m.startswith(r + '[') for r in self.cxm)

    # ---- arrays
    def mem(self, root):
        f = self.f
        if root[0] == 'arg':
            return self.roles.get(root[1]) or 'arg%d' % root[1]
        if root[0] == 'ld' and root[4] is None:
            off = untup(root[2])
            base = self.mem(root[1])
            if off.is_const():
                n = None
                if root[1][0] == 'arg':
                    n = f.field_of(root[1], off.c)
                    n = n.split('.', 1)[1] if n and '.' in n else None
                if n is None:
                    n = '+%d' % off.c
                return base if n in ('_data', '+0') else base + '.' + re.sub(r'\._data$|\._M_impl\._M_start$|\._M_impl$', '', n)
            return '%s[%s]' % (base, self.txt(self.canon(off)))
        if root[0] == 'ld' and root[1][0] == 'alloca':
            return 'tmp' + root[1][1]
        if root[0] == 'cyc' and f.ins[root[1]].op == 'load':
            r, o = f.addr(f.ins[root[1]].ops[0])
            if r[0] == 'alloca':
                return 'tmp' + r[1]
        if root[0] == 'call':
            c = f.ins[root[1]]
            m = self.method(c)
            if m and m[1] == 'val':
                return m[0] + '.vals()[%s]' % self.txt(self.index(m[0], c.ops[1]))
            if re.match(r'[^(]*std::vector<.*>::operator\[\]\(', c.get('cdem') or '') and c.ops:
                return '%s.at' % self.mem(self.norm(*f.addr(c.ops[0]))[0])
            m = re.search(r'::(\w+)\(', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', c.get('cdem') or ''))))
            if m and c.ops:
                return '%s.%s()' % (self.mem(self.norm(*f.addr(c.ops[0]))[0]), m.group(1))
        if root[0] == 'alloca':
            return root[1]
        raise Undecided('memory %s' % (root,))

    def method(self, c):
        """(object, name) of an access of a sparse vector"""
        n = re.match(r'[^(]*(SparseVector|IndexValueArray)<.*>::(\w+)\(', c.get('cdem') or '')
        if n and c.ops:
            return self.mem(self.norm(*self.f.addr(c.ops[0]))[0]), n.group(2)

    def index(self, obj, v):
        return Lin.atom(('at', obj + '.idx', self.canon(self.f.lin(v)).tup()))

    def exit_value(self, i, blk):
        f = self.f
        lid = f.bloop[i.blk]
        par = f.loops[lid]['parent']
        L = f.loops[lid]
        if par != -1 and not f.in_loop(blk, par):
            raise Undecided('value leaves two loops')
        if i.op == 'phi' and i.blk == L['header']:
            init, rest = self.accum(i, lid)
            return poly.add(init, self.sum(lid, Lin.atom(('n', lid)), rest))
        raise Undecided('loop value at exit')

    def norm(self, root, off):
        """resolve a pointer that is one of two positions in the same array"""
        f = self.f
        if root[0] == 'phi' and f.ins[root[1]].op == 'phi':
            i = f.ins[root[1]]
            L = f.bloop[i.blk]
            if L != -1 and f.loops[L]['header'] == i.blk:
                return root, off
            xs = [self.norm(*f.addr(o)) for o in i.ops]
            r0, o0 = xs[0]
            if all(r == r0 for r, _ in xs):
                ds = [o - o0 for _, o in xs]
                if all(d.is_const() for d in ds):
                    fr = [int(str(b).lstrip('b')) for b in i.get('from')]
                    k = [d.c for _, d in sorted(zip(fr, ds), key=lambda x: x[0])]
                    k0 = min(k)
                    g = math.gcd(*[x - k0 for x in k])
                    return r0, off + o0 + k0 + (Lin.atom(('ph', i.blk, tuple((x - k0) // g for x in k)), g) if g else Lin(0))
        return root, off

    # ---- indices
    def canon(self, l):
        if l in self._canon:
            return self._canon[l]
        r = Lin(l.c)
        for a, k in l.t.items():
            r = r + self.catom(a).scale(k)
        self._canon[l] = r
        return r

    def catom(self, a):
        f = self.f
        if not isinstance(a, tuple):
            return Lin.atom(a)
        if a[0] == 'ld' and a[4] is None:
            e = W.get(a[3])
            if e:
                try:
                    root, off = self.norm(a[1], untup(a[2]))
                    if root[0] == 'arg' and off.is_const() and e == 8 or root[0] == 'arg' and off.is_const() and f.field_of(root, off.c):
                        n = f.field_of(root, off.c)
                        if n and '.' in n:
                            return Lin.atom(('fld', self.mem(root) + '.' + n.split('.', 1)[1]))
                    m = self.mem(root)
                    q = self.canon(off).divexact(e)
                    if q is not None:
                        return Lin.atom(('at', m, q.tup()))
                except Undecided:
                    pass
            if a[1][0] == 'phi' and a[2] == Lin(0).tup():
                return Lin.atom(('deref', a[1][1]))
        if a[0] == 'arg':
            return Lin.atom(('arg', self.roles.get(a[1]) or a[1]))
        if a[0] == 'ld' and a[4] is not None and a[1][0] == 'alloca' and a[2] == Lin(0).tup():
            # a parameter spilled once because its address is taken
            st = [s for s in f.ins.values() if s.op == 'store' and s.ops[1] == a[1][1]]
            if len(st) == 1 and re.fullmatch(r'a\d+', st[0].ops[0]):
                return self.catom(('arg', int(st[0].ops[0][1:])))
        if a[0] == 'op' and a[1] == 'div' and isinstance(a[2], tuple):
            l = untup(a[2])
            ps = [x for x in l.t if isinstance(x, tuple) and x[0] == 'ptr']
            cl = [x for x in ps if x[1][0] == 'call']
            if len(ps) == 2 and len(l.t) == 2 and len(cl) == 1 and l.t[cl[0]] == 1 and not l.c:
                return Lin.atom(('cpos', cl[0][1][1]))
        if a[0] in ('max', 'min', 'mul', 'op'):
            return Lin.atom(tuple(self.canon(untup(x)).tup() if isinstance(x, tuple) and x and x[0] == 'lin' else x for x in a))
        if a[0] in ('v', 'phi') and a[1] in f.ins:
            i = f.ins[a[1]]
            if i.op in ('call', 'invoke'):
                m = self.method(i)
                if m and m[1] in ('idx', 'operator[]') and len(i.ops) == 2:
                    return self.index(m[0], i.ops[1])
                if m and m[1] == 'size':
                    return Lin.atom(('fld', m[0] + '.size()'))
            if i.op == 'load' and i.get('ty') in W:
                try:
                    root, off = f.addr(i.ops[0])
                    if root[0] == 'alloca':
                        w = f.alloca_value(i)
                        if w is not None:
                            return self.canon(f.lin(w))
                        # written once before its address was handed out
                        st = [s for s in f.ins.values() if s.op == 'store' and s.ops[1] == root[1]]
                        if len(st) == 1 and not off.t and not off.c:
                            return self.canon(f.lin(st[0].ops[0]))
                except Undecided:
                    pass
        return Lin.atom(a)

    def at(self, addr, esz):
        root, off = self.norm(*self.f.addr(addr))
        m = self.mem(root)
        return m, self.canon(off)

    def split(self, mem, off, w=None):
        e = w or self.esz(mem)
        row = Lin(0)
        for a, k in off.t.items():
            if k % e:
                raise Undecided('stride %d in %s' % (k, mem))
            row = row + Lin.atom(a, k // e)
        return row + off.c // e, Lin(0), off.c % e

    def fval_in(self, i):
        if i.op == 'load':
            try:
                root, off = self.norm(*self.f.addr(i.ops[0]))
                mem = self.mem(root)
            except Undecided:
                raise
            if root[0] == 'alloca':
                return super().fval_in(i)
            w = W.get(i.get('ty') or '', self.vsize)
            row, col, comp = self.split(mem, self.canon(off), w * (2 if self.iscx(mem) else 1))
            if comp not in (0, w):
                raise Undecided('part of an element')
            return self.element(mem, row, col, comp)
        if i.op in ('call', 'invoke'):
            m = self.method(i)
            if m and m[1] == 'val':
                return self.element(m[0] + '.vals()', self.index(m[0], i.ops[1]), Lin(0), 0)
        if i.op == 'extractvalue' and i.ops[0] in self.f.ins and self.f.ins[i.ops[0]].op in ('call', 'invoke'):
            c = self.f.ins[i.ops[0]]
            m = self.method(c)
            if m and m[1] == 'val' and i.get('ix') in ([0], [1]):
                return self.element(m[0] + '.vals()', self.index(m[0], c.ops[1]), Lin(0), self.vsize * i.get('ix')[0])
        return super().fval_in(i)

    def istores(self):
        """integer stores to memory: (array, index, stored value, instruction)"""
        f = self.f
        out = []
        for b in self.rpo:
            if self.dead(b):
                continue
            for i in f.blocks[b]:
                if i.op != 'store' or self.isfp(i) or (i.get('sty') or '') not in ('i32', 'i64'):
                    continue
                try:
                    root, off = self.norm(*f.addr(i.ops[1]))
                    if root[0] == 'alloca':
                        continue
                    q = self.canon(off).divexact(W[i.get('sty')])
                    if q is None:
                        continue
                    out.append((self.mem(root), q, self.canon(f.lin(i.ops[0])), i))
                except Undecided:
                    out.append((None, None, None, i))
        return out

    def collect(self, want=lambda r: True, partial=False):
        f = self.f
        out, pend = [], {}
        for b in self.rpo:
            if self.dead(b):
                continue
            for i in f.blocks[b]:
                if i.op != 'store' or not self.isfp(i):
                    continue
                try:
                    root, off = self.norm(*f.addr(i.ops[1]))
                    if root[0] == 'alloca':
                        continue
                    mem = self.mem(root)
                except Undecided:
                    if partial:
                        continue
                    raise
                w = W.get(i.get('sty') or '', self.vsize)
                row, col, comp = self.split(mem, self.canon(off), w * (2 if self.iscx(mem) else 1) if (i.get('sty') or '') != 'i128' else w)
                if self.iscx(mem) and (i.get('sty') or '') in ('i64', 'i128') and not comp:
                    out.append(self.mk(mem, row, col, self.whole(i.ops[0]), [], i, 0))
                    continue
                v = self.fval(i.ops[0], b) if not i.ops[0].startswith('c:') else poly.const(int(i.ops[0][2:]))
                if self.iscx(mem):
                    d = pend.setdefault((mem, row.tup(), b), {})
                    d[comp] = v
                    if len(d) < 2:
                        continue
                    pend.pop((mem, row.tup(), b))
                    v = poly.add(poly.re(d[0]), poly.mul(poly.const(0, 1), poly.re(d[max(d)])))
                out.append(self.mk(mem, row, col, v, [], i, 0))
        if pend:
            raise Undecided('only one component of a complex element is stored')
        return out

    def whole(self, v):
        s = self.f.ins.get(v)
        if s is None or s.op != 'load':
            raise Undecided('complex element stored as a whole')
        root, off = self.norm(*self.f.addr(s.ops[0]))
        mem = self.mem(root)
        row, col, comp = self.split(mem, self.canon(off))
        return poly.leaf(('el', mem, row.tup(), col.tup()))

    def isfp(self, i):
        t = i.get('sty') or i.get('ty') or ''
        v = i.ops[0]
        if t in ('double', 'float', 'x86_fp80') or v.startswith('d:'):
            return True
        if t in ('i64', 'i128') and v in self.f.ins and self.f.ins[v].op == 'load' and 'fp' in (self.f.ins[v].get('tag') or ''):
            return True
        return False

    # ---- text
    def txt(self, l):
        if isinstance(l, tuple) and l and l[0] == 'lin':
            l = untup(l)
        out = []
        for a, k in l.t.items():
            if isinstance(a, tuple) and a[0] == 'at':
                s = '%s[%s]' % (a[1], self.txt(a[2]))
            elif isinstance(a, tuple) and a[0] == 'fld':
                s = a[1]
            elif isinstance(a, tuple):
                s = ':'.join(str(x) for x in a)
            else:
                s = str(a)
            out.append(s if k == 1 else '%d*%s' % (k, s))
        if l.c or not out:
            out.append(str(l.c))
        return '+'.join(out)

    def ptxt(self, z):
        def leaf(l):
            if isinstance(l, tuple) and l[0] in ('real', '~', 'inv', 're', 'im'):
                return ('conj(%s)' % leaf(l[1])) if l[0] == '~' else leaf(l[1]) if l[0] == 'real' else '%s(%s)' % (l[0], l[1])
            if isinstance(l, tuple) and l[0] == 'el':
                return '%s[%s]' % (l[1], self.txt(l[2]))
            return str(l)
        return ' + '.join('%s*%s' % (c[0] if not c[1] else c, '*'.join(leaf(x) for x in m)) for m, c in z.items()) or '0'
