"""Abstract interpretation of the multilevel solve/product routines in the operator algebra.

Abstract state: for each vector a list of row intervals, each mapped to the
operator word-polynomial its rows hold (as a linear function of the input
vector), or TOP.  Element-wise loops, block copies and calls of the sparse and
dense kernels are transfer functions; branches are decided by the scenario
(sizes symbolic) and otherwise joined.
"""
import re
from ir import Lin, Undecided, untup, astr
import poly
import opalg
from fractions import Fraction as Fr

M = ('dim', 'm')
H = ('dim', 'h')


class Violation(Exception):
    def __init__(self, msg, loc='?'):
        Exception.__init__(self, msg)
        self.msg = msg
        self.loc = loc


class Top:
    def __init__(self, why, definite=False):
        self.why = why
        self.definite = definite      # certainly not the specified operator

    def __repr__(self):
        return 'TOP(%s)' % self.why


def sgn(l, scen):
    """sign of a linear form over m,h; None if unknown. scen: dict of fixed dims."""
    l = l.subst({k: Lin(v) for k, v in scen.items() if v is not None})
    # m,h >= 2 symbolic and 'large'
    lo = l.c
    pos = neg = False
    for a, k in l.t.items():
        if a not in (M, H):
            return None
        if k > 0:
            pos = True
        else:
            neg = True
    if not pos and not neg:
        return (lo > 0) - (lo < 0)
    mn = l.c + sum(2 * k for k in l.t.values() if k > 0) if not neg else None
    mx = l.c + sum(2 * k for k in l.t.values() if k < 0) if not pos else None
    if mn is not None and mn > 0:
        return 1
    if mx is not None and mx < 0:
        return -1
    return None


class VecInterp:
    """fn: ir.Function. cfg: dict with
       vecs: arg name -> vector name ('b','y','work')
       out: name of output vector; elem: bytes of scalar; cols: number of columns (1 for single)
       scen: {'m':..,'h':..,'dense':'qr'|'sy'|None}
    """

    def __init__(self, fn, cols, scen, complex_=True, esz=16, csz=None, ssz=None):
        self.f = fn
        self.cols = cols
        self.scen = scen
        self.cx = complex_
        self.esz = esz
        self.S = esz * cols
        self.csz = csz or esz
        self.ssz = ssz or (self.csz // 2 if complex_ else self.csz)
        self.dims = {M: scen.get('m'), H: scen.get('h')}
        self.argname = [a.get('var') or a['name'] for a in fn.args]
        self.trace = []
        self.stats = {'loops': 0, 'calls': 0, 'stores': 0}
        self.inpvec = 'b'
        self.outvec = 'y'
        self.lin_cache = {}

    # ---- naming
    def dimsub(self, l):
        """rewrite field loads to the dims m,h where the field's meaning is known"""
        m = {}
        for a in l.t:
            r = self.dim_atom(a)
            if r is not None:
                m[a] = r
        return l.subst(m).subst({k: Lin(v) for k, v in self.dims.items() if v is not None}) if (m or l.t) else l

    def dim_atom(self, a):
        if a in (M, H):
            return Lin.atom(a)
        if a[0] == 'max' or a[0] == 'min':
            xs = [self.dimsub(untup(x)) for x in a[1:]]
            if len(xs) == 2:
                s = sgn(xs[0] - xs[1], {})
                if s is not None:
                    big, small = (xs[0], xs[1]) if s >= 0 else (xs[1], xs[0])
                    return big if a[0] == 'max' else small
                # max(m+1, n): unknown for h==... handled by 'large' convention
            return None
        if a[0] != 'ld' or a[1][0] not in ('arg',):
            return None
        n = self.field(a[1], untup(a[2]))
        if n is None:
            return None
        k = self.argname[a[1][1]]
        f = n[len(k) + 1:] if n.startswith(k + '.') else n
        return self.dim_field(k, f)

    def dim_field(self, arg, f):
        m, h = Lin.atom(M), Lin.atom(H)
        n = m + h
        t = {'m': m, 'n': n, 'E._nrows': h, 'F._ncols': h}
        if f in t:
            return t[f]
        mm = re.match(r'(L_B|U_B|E|F)\.(.*)$', f)
        if mm:
            mat, leaf = mm.group(1), mm.group(2)
            if mat in ('L_B', 'U_B'):
                if leaf in ('_psize', '_ncols', '_nrows'):
                    return m
            if mat == 'E':
                if leaf == self.other_dim:
                    return h   # rows of E in the stored orientation
                if leaf == '_psize':
                    return m if self.ccs else h
                if leaf == '_ncols':
                    return m if not self.ccs else h
            if mat == 'F':
                if leaf == '_psize':
                    return h if self.ccs else m
                if leaf == self.other_dim:
                    return m if self.ccs else h
        if f in ('d_B._size', ):
            return m
        if f in ('s._size', 't._size', 'p._size', 'q._size', 'p_inv._size', 'q_inv._size'):
            return n
        if arg in ('b', 'y') and f == '_size':
            return n
        return None

    ccs = True
    other_dim = '_nrows'

    def field(self, root, off):
        if not off.is_const():
            return None
        return self.f.field_of(root, off.c)

    def vec_of(self, root):
        """vector name for a data-pointer root, or None"""
        if root[0] == 'arg':
            n = self.argname[root[1]]
            a = self.f.args[root[1]]
            t = self.f.types.pointee(a['dty']) if 'dty' in a else None
            if t and t['tag'] == 'DW_TAG_base_type':
                return n
            return None
        if root[0] == 'ld' and root[1][0] == 'arg':
            k = self.argname[root[1][1]]
            fl = self.field(root[1], untup(root[2]))
            if fl is None:
                return None
            if k in ('b', 'y', 'work', 'w'):
                if fl in (k, k + '._data'):
                    return 'work' if k == 'w' else k
                return None
            if fl.startswith(k + '.') and fl.endswith('._data'):
                return '@' + fl[len(k) + 1:-len('._data')]
        return None

    # ---- state: vec -> list of (lo,hi,content)
    def init_state(self):
        m, h = Lin.atom(M), Lin.atom(H)
        n = self.sub(m + h)
        st = {'b': [(Lin(0), n, opalg.one())],
              'y': [(Lin(0), n, Top('uninitialised y', True))],
              'work': [(Lin(0), None, Top('uninitialised work', True))]}
        return st

    def sub(self, l):
        return l.subst({k: Lin(v) for k, v in self.dims.items() if v is not None})

    def le(self, a, b):
        if b is None:
            return True
        if a is None:
            return False
        s = sgn(a - b, {})
        if s is None:
            raise Undecided('cannot order %r and %r' % (a, b))
        return s <= 0

    def lt(self, a, b):
        if a is None:
            return False
        if b is None:
            return True
        s = sgn(a - b, {})
        if s is None:
            raise Undecided('cannot order %r and %r' % (a, b))
        return s < 0

    def write(self, st, v, lo, hi, content):
        if not self.lt(lo, hi):
            return
        out = []
        for (a, b, c) in st[v]:
            if self.le(b, lo) if b is not None else False:
                out.append((a, b, c))
                continue
            if hi is not None and self.le(hi, a):
                out.append((a, b, c))
                continue
            if self.lt(a, lo):
                out.append((a, lo, c))
            if hi is not None and self.lt(hi, b):
                out.append((hi, b, c))
        out.append((lo, hi, content))
        out.sort(key=lambda t: self.order_key(t[0]))
        # coalesce
        res = []
        for t in out:
            if res and self.same(res[-1][2], t[2]) and res[-1][1] is not None and res[-1][1] == t[0]:
                res[-1] = (res[-1][0], t[1], t[2])
            else:
                res.append(t)
        st[v] = res

    def order_key(self, l):
        # m,h large and generic: evaluate at m=1000,h=1000000
        return l.c + sum(k * (1000 if a == M else 1000000) for a, k in l.t.items())

    def same(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return isinstance(a, Top) and isinstance(b, Top) and a.why == b.why
        return a == b

    def content(self, st, v, lo, hi):
        """pieces covering [lo,hi)"""
        r = []
        for (a, b, c) in st[v]:
            if (b is not None and self.le(b, lo)) or self.le(hi, a):
                continue
            x = lo if self.le(a, lo) else a
            y = hi if (b is None or self.le(hi, b)) else b
            r.append((x, y, c))
        if not self.lt(lo, hi):
            return []
        return r

    def embed(self, st, v, lo, hi):
        """operator polynomial of the sub-vector [lo,hi) embedded in n rows (only whole blocks)"""
        m = self.sub(Lin.atom(M))
        n = self.sub(Lin.atom(M) + Lin.atom(H))
        res = {}
        for (a, b, c) in self.content(st, v, lo, hi):
            if isinstance(c, Top):
                return c
            if a == Lin(0) and b == m:
                pr = opalg.P
            elif a == m and b == n:
                pr = opalg.PHI
            elif a == Lin(0) and b == n:
                pr = opalg.one()
            else:
                if a == b:
                    continue
                pr = opalg.word(('P[%r:%r]' % (a, b),))
            if self.dims[M] == 0:
                pr = opalg.one() if b == n else pr
            if self.dims[H] == 0:
                pr = opalg.one() if b == m else pr
            res = opalg.add(res, opalg.mul(pr, c))
        return opalg.nf(res)

    # ---- main
    def run(self):
        f = self.f
        order = f.rpo()
        instate = {f.entry: self.init_state()}
        live = {f.entry}
        self.live_edges = set()
        self.ret_states = []
        done_loops = set()
        for b in order:
            if b not in live:
                continue
            lid = f.bloop[b]
            if lid != -1:
                # only outermost loop headers are processed
                top = f.loop_chain(b)[0]
                L = f.loops[top]
                if b != L['header']:
                    continue
                st = instate[b]
                st = self.copy(st)
                self.do_loop(top, st)
                for e in set(L['exits']):
                    for pb in f.pred[e]:
                        if pb in L['blocks']:
                            self.live_edges.add((pb, e))
                    self.flow(instate, live, e, st)
                continue
            st = self.copy(instate[b])
            succs = self.do_block(b, st)
            for s in succs:
                self.live_edges.add((b, s))
                self.flow(instate, live, s, st)
        if not self.ret_states:
            raise Undecided('no return reached')
        st = self.ret_states[0]
        for o in self.ret_states[1:]:
            st = self.join(st, o)
        return st

    def copy(self, st):
        return {k: list(v) for k, v in st.items()}

    def flow(self, instate, live, s, st):
        if s in live:
            instate[s] = self.join(instate[s], st)
        else:
            live.add(s)
            instate[s] = self.copy(st)

    def join(self, a, b):
        r = {}
        for v in a:
            if len(a[v]) == len(b[v]) and all(x[0] == y[0] and x[1] == y[1] and self.same(x[2], y[2]) for x, y in zip(a[v], b[v])):
                r[v] = list(a[v])
                continue
            pts = []
            for lst in (a[v], b[v]):
                for (x, y, c) in lst:
                    for p in (x, y):
                        if p is not None and p not in pts:
                            pts.append(p)
            pts.sort(key=self.order_key)
            ends = pts[1:] + ([None] if a[v][-1][1] is None else [])
            out = []
            for x, y in zip(pts, ends):
                ca = [c for (p, q, c) in a[v] if self.le(p, x) and (q is None or (y is not None and self.le(y, q)))]
                cb = [c for (p, q, c) in b[v] if self.le(p, x) and (q is None or (y is not None and self.le(y, q)))]
                if ca and cb and self.same(ca[0], cb[0]):
                    out.append((x, y, ca[0]))
                else:
                    out.append((x, y, Top('differs between branches')))
            r[v] = out
        return r

    # ---- conditions
    def cond(self, v):
        """True/False/None"""
        f = self.f
        if v in ('c:0',):
            return False
        if v in ('c:1', 'c:-1'):
            return True
        if v[0] != '%':
            return None
        i = f.ins[v]
        if i.op == 'icmp':
            return self.icmp(i)
        if i.op == 'xor' and i.get('ty') == 'i1' and i.ops[1] in ('c:1', 'c:-1'):
            c = self.cond(i.ops[0])
            return None if c is None else not c
        if i.op in ('and', 'or') and i.get('ty') == 'i1':
            a, b = self.cond(i.ops[0]), self.cond(i.ops[1])
            if i.op == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                return None
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if i.op == 'select' and i.get('ty') == 'i1':
            c = self.cond(i.ops[0])
            if c is None:
                a, b = self.cond(i.ops[1]), self.cond(i.ops[2])
                return a if a is not None and a == b else None
            return self.cond(i.ops[1] if c else i.ops[2])
        if i.op in ('freeze', 'zext', 'trunc'):
            return self.cond(i.ops[0])
        if i.op == 'phi' and i.get('ty') == 'i1':
            vals = set()
            for o, fr in zip(i.ops, i.get('from')):
                if (fr, i.blk) in self.live_edges:
                    vals.add(self.cond(o))
            if len(vals) == 1:
                return vals.pop()
            return None
        if i.op == 'call':
            if (i.get('callee') or '').startswith('llvm.expect'):
                return self.cond(i.ops[0])
            return self.call_cond(i)
        return None

    def call_cond(self, i):
        d = i.get('cdem') or ''
        if re.search(r'(QRCP|LUP)<.*>::empty\(\) const$', d) or re.search(r'DenseSolver.*::empty\(\) const$', d):
            return self.scen.get('dense') != 'qr'
        if re.search(r'SYEIG<.*>::empty\(\) const$', d):
            return self.scen.get('dense') != 'sy'
        return None

    def icmp(self, i):
        f = self.f
        p = i.get('pred')
        a, b = i.ops
        # i1/bool compares
        if b == 'c:0' and p in ('eq', 'ne') and a[0] == '%':
            x = f.ins[a]
            if x.op == 'call' and (x.get('callee') or '').startswith('llvm.expect'):
                a = x.ops[0]
                x = f.ins.get(a)
            if x is not None and (x.op in ('zext', 'sext') and x.get('from_ty') == 'i1' or x.op == 'call' and x.get('ty') in ('i1', 'i8')):
                c = self.cond(a)
                return None if c is None else (c if p == 'ne' else not c)
        isptr = any(x == 'null' or (x[0] == '%' and f.ins[x].get('ty') == 'ptr') or (x[0] == 'a' and f.args[int(x[1:])]['ty'] == 'ptr') for x in (a, b))
        try:
            if isptr:
                ra, oa = f.addr(a)
                rb, ob = f.addr(b)
                if ra != rb:
                    return None
                d = oa - ob
            else:
                d = f.lin(a) - f.lin(b)
        except Undecided:
            return None
        d = self.dimsub(d)
        s = sgn(d, {})
        if s is None:
            # equality of generic dims
            return None
        return {'eq': s == 0, 'ne': s != 0, 'ult': s < 0, 'slt': s < 0, 'ule': s <= 0, 'sle': s <= 0,
                'ugt': s > 0, 'sgt': s > 0, 'uge': s >= 0, 'sge': s >= 0}.get(p)

    # ---- blocks
    def do_block(self, b, st):
        f = self.f
        for i in f.blocks[b]:
            if i.op == 'store':
                self.scalar_store(i, st)
            elif i.op in ('call', 'invoke'):
                self.do_call(i, st)
            elif i.op == 'ret':
                self.ret_states.append(st)
                return []
            elif i.op == 'unreachable':
                return []
            elif i.op == 'br':
                ss = f.succ[b]
                if len(ss) == 2 and ss[0] != ss[1]:
                    c = self.cond(i.ops[0])
                    if c is None:
                        return list(ss)
                    return [ss[0] if c else ss[1]]
                return list(dict.fromkeys(ss))
            elif i.op == 'switch':
                return list(dict.fromkeys(f.succ[b]))
        return list(dict.fromkeys(f.succ[b]))

    def scalar_store(self, i, st):
        try:
            root, off = self.f.addr(i.ops[1])
        except Undecided:
            return
        v = self.vec_of(root)
        if v in ('b', 'y', 'work') or v and v[0] == '@':
            if v[0] == '@' or v == 'b':
                raise Violation('the routine writes into %s, which it must only read' % v.strip('@'), i.loc)
            # an isolated element write
            r = self.row(off)
            self.write(st, v, r[0], r[0] + 1, Top('single element write at %s' % i.loc))

    def row(self, off):
        """split byte offset into (row Lin, col Lin, comp)"""
        off = self.dimsub(off)
        row, col = Lin(0), Lin(0)
        for a, k in off.t.items():
            if k % self.S == 0:
                row = row + Lin.atom(a, k // self.S)
            elif k % self.esz == 0:
                col = col + Lin.atom(a, k // self.esz)
            else:
                raise Undecided('odd stride %d' % k)
        row = row + off.c // self.S
        rem = off.c % self.S
        col = col + rem // self.esz
        return row, col, rem % self.esz

    # ---- calls
    def obj_of(self, v):
        """(argname, field path) for a pointer into a header object"""
        root, off = self.f.addr(v)
        if root[0] == 'arg' and off.is_const():
            n = self.argname[root[1]]
            fl = self.f.field_of(root, off.c)
            t = self.f.types.pointee(self.f.args[root[1]].get('dty', -1))
            if fl and fl.startswith(n + '.'):
                return n, fl[len(n) + 1:]
            return n, fl
        return None, None

    def member(self, v):
        n, fl = self.obj_of(v)
        if fl is None:
            return None
        return fl.split('.')[0]

    def vecptr(self, v):
        """data pointer -> (vec,row)"""
        root, off = self.f.addr(v)
        vec = self.vec_of(root)
        if vec is None:
            return None
        r, c, comp = self.row(off)
        if not (c == Lin(0) and comp == 0):
            raise Undecided('column offset')
        return vec, r

    def container(self, v, at):
        """argument naming a vector container (Array& or pointer&) -> (vec,row,size or None)"""
        root, off = self.f.addr(v)
        if root[0] == 'arg' and off == Lin(0):
            n = self.argname[root[1]]
            if n in ('b', 'y', 'work', 'w'):
                return ('work' if n == 'w' else n, Lin(0), None)
        if root[0] == 'alloca':
            data = size = None
            cand = [s for s in self.f.alloca_stores(root) if self.f.idominates(s[0], at)]
            best = {}
            for s, o in cand:
                if o.is_const():
                    if o.c not in best or self.f.idominates(best[o.c], s):
                        best[o.c] = s
            layout = self.array_layout()
            alsz = self.f.ins[root[1]].get('size')
            doff = layout['_data'] if alsz and alsz > 8 else 0
            if doff in best:
                x = best[doff].ops[0]
                p = self.vecptr(x)
                if p:
                    sz = None
                    if alsz and alsz > 8 and layout['_size'] in best:
                        sz = self.dimsub(self.f.lin(best[layout['_size']].ops[0]))
                    return (p[0], p[1], sz)
        return None

    def array_layout(self):
        if hasattr(self, '_al'):
            return self._al
        for a in self.f.args:
            t = self.f.types.pointee(a.get('dty', -1))
            if t and t['name'].startswith('Array<'):
                d = {}
                for e in t['el']:
                    m = self.f.types.l[e]
                    d[m['name']] = m['off']
                self._al = d
                return d
        raise Undecided('no Array layout')

    def need(self, x, what, i):
        if x is None:
            raise Undecided('%s at %s' % (what, i.loc))
        return x

    FUN = {'prec_solve': (-1, 'N'), 'prec_solve_tran': (-1, 'H'), 'prec_prod': (1, 'N'), 'prec_prod_tran': (1, 'H'), 'prec_solve_mrhs': (-1, 'N')}

    def do_call(self, i, st):
        f = self.f
        d = i.get('cdem') or ''
        c = i.get('callee') or ''
        m = Lin.atom(M)
        n = self.sub(m + Lin.atom(H))
        m = self.sub(m)
        base = re.sub(r'<.*', '', re.sub(r'^(void|[\w:]+) (?=hif::)', '', d))
        mm = re.match(r'(?:void )?hif::(?:CCS|CRS|internal::CompressedStorage)<.*?>::(multiply_(?:mrhs_)?(?:nt|t)_low|solve_as_strict_(?:lower|upper)(?:_tran)?(?:_mrhs)?(?:_tran)?)\b', d)
        if mm:
            self.stats['calls'] += 1
            k = mm.group(1)
            mat = self.need(self.member(i.ops[0]), 'matrix object', i)
            if k.startswith('multiply'):
                t = 'H' if '_t_low' in k else 'N'
                src = self.need(self.vecptr(i.ops[1]), 'input vector', i)
                dst = self.need(self.vecptr(i.ops[2]), 'output vector', i)
                rows = {'L_B': (0, 0), 'U_B': (0, 0), 'E': (1, 0), 'F': (0, 1)}.get(mat)
                if rows is None:
                    raise Undecided('matrix %s' % mat)
                if t == 'H':
                    rows = (rows[1], rows[0])
                blk = [(Lin(0), m), (m, n)]
                olo, ohi = blk[rows[0]]
                ilo, ihi = blk[rows[1]]
                op = {'L_B': 'L', 'U_B': 'U'}.get(mat, mat)
                if dst[0] not in ('y', 'work'):
                    raise Violation('%s writes into %s' % (k, dst[0]), i.loc)
                # the kernel reads len(in) rows from src and fully overwrites len(out) rows at dst
                if src[1] != ilo:
                    raise Violation('%s of %s reads from row %r of %s, its domain starts at row %r' % (k, mat, src[1], src[0], ilo), i.loc)
                if dst[1] != olo:
                    raise Violation('%s of %s writes to row %r of %s, its range starts at row %r' % (k, mat, dst[1], dst[0], olo), i.loc)
                if self.lt(olo, ohi):
                    x = self.embed(st, src[0], ilo, ihi)
                    if src[0] == dst[0] and rows[0] == rows[1]:
                        raise Violation('%s of %s works in place' % (k, mat), i.loc)
                    res = x if isinstance(x, Top) else opalg.nf(opalg.mul(opalg.word((op, t)), x))
                    self.write(st, dst[0], olo, ohi, res)
                    self.trace.append('%s[%r:%r] = %s%s*%s' % (dst[0], olo, ohi, op, '' if t == 'N' else '^H', src[0]))
                return
            cont = self.need(self.container(i.ops[1], i), 'triangular solve operand', i)
            if mat not in ('L_B', 'U_B'):
                raise Violation('triangular solve with %s' % mat, i.loc)
            low = 'lower' in k
            if low != (mat == 'L_B'):
                raise Violation('%s called on %s' % (k, mat), i.loc)
            t = 'H' if 'tran' in k else 'N'
            if cont[1] != Lin(0):
                raise Violation('triangular solve starts at row %r' % cont[1], i.loc)
            if self.lt(Lin(0), m):
                x = self.embed(st, cont[0], Lin(0), m)
                res = x if isinstance(x, Top) else opalg.nf(opalg.mul(opalg.word(('Li' if low else 'Ui', t)), x))
                self.write(st, cont[0], Lin(0), m, res)
            return
        mm = re.match(r'(?:void )?hif::(QRCP|LUP|SYEIG|[\w:]*Dense\w*)<.*>::(solve|multiply)(_mrhs)?\b', d)
        if mm:
            self.stats['calls'] += 1
            mem = self.member(i.ops[0])
            kind = 'sy' if mm.group(1) == 'SYEIG' else 'qr'
            cont = self.need(self.container(i.ops[1], i), 'dense solver operand', i)
            self.check_lastdim(i, i.ops[2])
            t = 'N'
            if kind == 'qr':
                tv = self.cond(i.ops[3]) if len(i.ops) > 3 else False
                if tv is None:
                    raise Undecided('transpose flag')
                t = 'H' if tv else 'N'
            else:
                t = 'S'
            self.schur(i, st, cont, cont, -1 if mm.group(2) == 'solve' else 1, t, n, m)
            return
        mm = re.match(r'(?:void )?hif::(prec_(?:solve|prod)(?:_tran|_mrhs)*)<', d)
        if mm:
            self.stats['calls'] += 1
            e, t = self.FUN[mm.group(1)]
            root, off = f.addr(i.ops[0])
            if not (root == ('arg', 0) and off == Lin(self.prec_size())):
                raise Violation('recursion does not advance to the next level (offset %r)' % off, i.loc)
            src = self.need(self.container(i.ops[1], i), 'recursive input', i)
            self.check_lastdim(i, i.ops[2])
            dst = self.need(self.container(i.ops[3], i), 'recursive output', i)
            wk = self.need(self.container(i.ops[4], i), 'recursive workspace', i)
            self.schur(i, st, src, dst, e, t, n, m)
            if wk[0] != 'work':
                raise Violation('recursive workspace is carved from %s' % wk[0], i.loc)
            if self.lt(wk[1], n):
                raise Violation('the workspace handed to the next level starts at row %r of work and overlaps the %r rows still in use' % (wk[1], n), i.loc)
            if wk[1] != n:
                raise Violation('the workspace handed to the next level starts at row %r, beyond the %r rows this level is accounted for' % (wk[1], n), i.loc)
            self.ws_seen = getattr(self, 'ws_seen', []) + [(i, wk)]
            self.write(st, 'work', wk[1], None, Top('scratch data left behind by the next level', True))
            return
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
            self.memcpy(i, st)
            return
        if c.startswith('llvm.memset'):
            root, off = f.addr(i.ops[0])
            v = self.vec_of(root)
            if v:
                ln = self.dimsub(f.lin(i.ops[2]))
                q = ln.divexact(self.S)
                r = self.row(off)
                if q is None:
                    raise Undecided('memset length')
                if i.ops[1] == 'c:0':
                    self.write(st, v, r[0], r[0] + q, {})
                else:
                    self.write(st, v, r[0], r[0] + q, Top('memset'))
            return
        # anything else must not receive a tracked vector
        if c.startswith('llvm.') or re.match(r'operator (new|delete)', d) or c.startswith('__divdc3'):
            return
        for o in i.ops:
            if o[0] in '%a' and o != 'asm':
                try:
                    root, off = f.addr(o)
                except Undecided:
                    continue
                v = self.vec_of(root)
                cont = None
                if v is None and root[0] == 'arg' and self.argname[root[1]] in ('y', 'work', 'w'):
                    t = f.types.pointee(f.args[root[1]].get('dty', -1))
                    v = self.argname[root[1]]
                if v in ('y', 'work', 'w'):
                    if re.search(r'::(empty|size|data|is_last_level)\(\) const', d):
                        continue
                    raise Undecided('unknown call %s takes %s at %s' % (d[:60], v, i.loc))

    def prec_size(self):
        t = self.f.types.pointee(self.f.args[0]['dty'])
        return t['size']

    def check_lastdim(self, i, v):
        l = self.f.lin(v)
        k = [j for j, n in enumerate(self.argname) if n == 'last_dim']
        if k and l != Lin.atom(('arg', k[0])):
            raise Violation('the requested last-level rank is not passed on (gets %r)' % l, i.loc)

    def schur(self, i, st, src, dst, e, t, n, m):
        if src[2] is not None and src[2] != self.sub(Lin.atom(H)):
            raise Violation('Schur-complement input has size %r instead of n-m' % src[2], i.loc)
        if dst[2] is not None and dst[2] != self.sub(Lin.atom(H)):
            raise Violation('Schur-complement output has size %r instead of n-m' % dst[2], i.loc)
        for c in (src, dst):
            if c[1] != m:
                raise Violation('Schur-complement operand starts at row %r of %s instead of row m' % (c[1], c[0]), i.loc)
        if not self.lt(m, n):
            return
        x = self.embed(st, src[0], m, n)
        self.write(st, dst[0], m, n, x if isinstance(x, Top) else opalg.nf(opalg.mul(opalg.word(('S', e, t)), x)))

    def memcpy(self, i, st):
        f = self.f
        rd, od = f.addr(i.ops[0])
        rs, os_ = f.addr(i.ops[1])
        vd, vs = self.vec_of(rd), self.vec_of(rs)
        if vd is None and vs is None:
            return
        ln = self.dimsub(f.lin(i.ops[2]))
        q = ln.divexact(self.S)
        if vd not in ('y', 'work'):
            if vd is None:
                raise Undecided('copy out of %s at %s' % (vs, i.loc))
            raise Violation('copy overwrites %s' % vd, i.loc)
        if q is None:
            raise Undecided('copy length %r at %s' % (ln, i.loc))
        r1, r0 = self.row(od), self.row(os_)
        if vs not in ('b', 'y', 'work'):
            self.write(st, vd, r1[0], r1[0] + q, Top('copied from elsewhere'))
            return
        if r1[0] != r0[0]:
            self.write(st, vd, r1[0], r1[0] + q, Top('data copied with a row shift', True))
            # a shifted copy is a different operator altogether
            for (a, b, c) in self.content(st, vs, r0[0], r0[0] + q):
                pass
            self.shifted = i
            return
        for (a, b, c) in self.content(self.copy(st), vs, r0[0], r0[0] + q):
            self.write(st, vd, a, b, c)

    # ---- loops
    def counts(self, lid, blk):
        """number of executions of blk per entry of loop lid"""
        f = self.f
        L = f.loops[lid]
        ex = L['exiting']
        if len(ex) != 1:
            raise Undecided('loop with several exits')
        t = self.dimsub(f.trips(lid))
        e = ex[0]
        if f.dom(blk, e):
            return t
        return t - 1

    def do_loop(self, top, st):
        f = self.f
        L = f.loops[top]
        self.stats['loops'] += 1
        sub = [l for l in f.loops.values() if l['parent'] == top]
        blocks = [b for b in f.rpo() if b in set(L['blocks'])]
        touches = False
        for b in blocks:
            for i in f.blocks[b]:
                if i.op == 'store':
                    try:
                        root, off = f.addr(i.ops[1])
                    except Undecided:
                        root = None
                    if root is None or self.vec_of(root) is not None:
                        touches = True
                    elif root[0] == 'phi' or root[0] == 'v':
                        raise Undecided('store through unknown pointer in loop at %s' % i.loc)
                elif i.op == 'call':
                    c = i.get('callee') or ''
                    if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c.startswith('llvm.memset'):
                        touches = True
                    elif not (c.startswith('__divdc3') or c.startswith('__divsc3') or c.startswith('__muldc3') or c.startswith('llvm.')):
                        raise Undecided('call %s inside loop at %s' % (i.get('cdem', '?')[:60], i.loc))
        if not touches:
            return
        # per row processing
        self.cur = {}        # (vec) -> list of (guard?) content for current row
        pend = {}            # (vec,row,col)-> {comp: (poly, instr)}
        self.loadsnap = {}
        self.vers = {}       # vec -> contents before each store of this loop
        rowstate = {}        # vec -> content override for the current row (after a store)
        self.rowstate = rowstate
        self.curst = st
        self.toploop = top
        self.rowvar = None
        self.rowrange = None
        results = []
        for b in blocks:
            for i in f.blocks[b]:
                if i.op == 'load' and i.get('ty') in ('double', 'float'):
                    self.snap_load(i)
                elif i.op == 'store':
                    root, off = f.addr(i.ops[1])
                    v = self.vec_of(root)
                    if v is None:
                        continue
                    if v[0] == '@' or v == 'b':
                        raise Violation('the routine writes into %s, which it must only read' % v.strip('@'), i.loc)
                    row, col, comp = self.row(off)
                    p = self.fval(i.ops[0])
                    self.stats['stores'] += 1
                    key = (v, row, col)
                    pend.setdefault(key, {})[comp] = p
                    if len(pend[key]) == (2 if self.cx else 1):
                        d = pend.pop(key)
                        if self.cx:
                            z = poly.add(poly.re(d[0]), poly.mul(poly.const(0, 1), poly.re(d[self.esz // 2])))
                        else:
                            z = d[0]
                        self.row_store(i, v, row, col, z, st)
                elif i.op == 'call' and (i.get('callee') or '').startswith(('llvm.memcpy', 'llvm.memmove')):
                    self.row_memcpy(i, st)
        if pend:
            raise Undecided('only one component of a complex element is written')

    def canon_row(self, row, i):
        """row Lin in the loop's iteration variable -> (lo,hi) range; row var must be +-1*it"""
        f = self.f
        its = [(a, k) for a, k in row.t.items() if a[0] == 'it']
        if len(its) != 1 or its[0][1] not in (1, -1):
            raise Undecided('row index %r at %s' % (row, i.loc))
        a, k = its[0]
        cnt = self.counts(a[1], i.blk)
        start = row - Lin.atom(a, k)
        if any(x not in (M, H) for x in start.t):
            raise Undecided('row start %r at %s' % (start, i.loc))
        if any(x not in (M, H) for x in cnt.t):
            raise Undecided('trip count %r at %s' % (cnt, i.loc))
        if k == 1:
            lo, hi = start, start + cnt
        else:
            lo, hi = start - cnt + 1, start + 1
        return a, lo, hi

    def check_cols(self, col, i):
        if self.cols == 1:
            if col != Lin(0):
                raise Undecided('column index in single rhs')
            return
        its = [(a, k) for a, k in col.t.items()]
        if len(its) != 1 or its[0][0][0] != 'it' or its[0][1] not in (1, -1):
            raise Undecided('column index %r' % col)
        a, k = its[0]
        cnt = self.counts(a[1], i.blk)
        if not cnt.is_const():
            raise Undecided('column count %r' % cnt)
        start = col.c
        lo, hi = (start, start + cnt.c) if k == 1 else (start - cnt.c + 1, start + 1)
        if (lo, hi) != (0, self.cols):
            raise Violation('only columns [%d,%d) of %d right-hand sides are processed' % (lo, hi, self.cols), i.loc)

    def snap_load(self, i):
        f = self.f
        try:
            root, off = f.addr(i.ops[0])
        except Undecided:
            return
        v = self.vec_of(root)
        if v is None:
            return
        self.loadsnap[i.id] = (v, len(self.vers.get(v, [])))

    def fval(self, v):
        """polynomial of a floating SSA value"""
        if v.startswith('d:'):
            return poly.const(Fr(float(v[2:])).limit_denominator(10 ** 12))
        if v[0] != '%':
            raise Undecided('fp operand %s' % v)
        i = self.f.ins[v]
        op = i.op
        o = i.ops
        if op == 'fadd':
            return poly.add(self.fval(o[0]), self.fval(o[1]))
        if op == 'fsub':
            return poly.add(self.fval(o[0]), self.fval(o[1]), -1)
        if op == 'fmul':
            return poly.mul(self.fval(o[0]), self.fval(o[1]))
        if op == 'fneg':
            return poly.scale(self.fval(o[0]), -1)
        if op == 'fdiv':
            return poly.mul(self.fval(o[0]), poly.inv(self.fval(o[1])))
        if op in ('fpext', 'fptrunc', 'freeze'):
            return self.fval(o[0])
        if op == 'extractvalue':
            c = self.f.ins[o[0]]
            if c.op == 'call' and (c.get('callee') or '') in ('__divdc3', '__divsc3', '__muldc3', '__mulsc3'):
                a = [self.fval(x) for x in c.ops]
                z1 = poly.add(a[0], poly.mul(poly.const(0, 1), a[1]))
                z2 = poly.add(a[2], poly.mul(poly.const(0, 1), a[3]))
                z = poly.mul(z1, poly.inv(z2) if 'div' in c.get('callee') else z2)
                return poly.re(z) if i.get('ix') == [0] else poly.im(z)
        if op == 'call' and (i.get('callee') or '').startswith(('llvm.fmuladd', 'llvm.fma.')):
            return poly.add(poly.mul(self.fval(o[0]), self.fval(o[1])), self.fval(o[2]))
        if op == 'load':
            root, off = self.f.addr(o[0])
            n = self.vec_of(root)
            if n is None:
                raise Undecided('fp load from %r at %s' % (root, i.loc))
            return self.elem(i, n, off)
        if op in ('sitofp', 'uitofp'):
            l = self.f.lin(o[0])
            if l.is_const():
                return poly.const(l.c)
        raise Undecided('fp op %s at %s' % (op, i.loc))

    def elem(self, i, n, off):
        if n[0] == '@':
            fld = n[1:].split('.')[0]
            real = fld in ('s', 't')
            sz = self.coef_size(fld)
            off = self.dimsub(off)
            comp = off.c % sz
            idx = Lin(off.c // sz)
            for a, k in off.t.items():
                if k % sz:
                    raise Undecided('coefficient stride')
                idx = idx + Lin.atom(a, k // sz)
            if real or not self.cx:
                return poly.leaf(('real', ('f', fld, idx.tup())))
            z = poly.leaf(('f', fld, idx.tup()))
            return poly.re(z) if comp == 0 else poly.im(z)
        row, col, comp = self.row(off)
        ver = self.loadsnap[i.id][1] if i.id in self.loadsnap else len(self.vers.get(n, []))
        l = ('x', n, row.tup(), col.tup(), ver)
        if not self.cx:
            return poly.leaf(('real', l))
        z = poly.leaf(l)
        return poly.re(z) if comp == 0 else poly.im(z)

    def coef_size(self, fld):
        return self.ssz if fld in ('s', 't') else self.csz

    def row_memcpy(self, i, st):
        f = self.f
        rd, od = f.addr(i.ops[0])
        rs, os_ = f.addr(i.ops[1])
        vd, vs = self.vec_of(rd), self.vec_of(rs)
        if vd is None and vs is None:
            return
        ln = f.lin(i.ops[2])
        if vd is None or vd[0] == '@' or vd == 'b':
            raise Violation('copy into %s' % vd, i.loc)
        if vs is None:
            raise Undecided('copy from unknown')
        r1, c1, k1 = self.row(od)
        r0, c0, k0 = self.row(os_)
        if ln == Lin(self.esz):
            if c1 != c0:
                raise Violation('columns are mixed (%r <- %r)' % (c1, c0), i.loc)
            l = ('x', vs, r0.tup(), c0.tup(), len(self.vers.get(vs, [])))
            self.row_store(i, vd, r1, c1, poly.leaf(l) if self.cx else poly.leaf(('real', l)), st)
        elif ln == Lin(self.S):
            l = ('x', vs, r0.tup(), Lin(0).tup(), len(self.vers.get(vs, [])))
            self.row_store(i, vd, r1, None, poly.leaf(l) if self.cx else poly.leaf(('real', l)), st)
        else:
            raise Undecided('copy length %r in loop' % ln)

    def row_store(self, i, v, row, col, z, st):
        a, lo, hi = self.canon_row(row, i)
        before = list(st[v])
        try:
            self.row_store2(i, v, row, col, z, st, lo, hi)
        finally:
            self.vers.setdefault(v, []).append(before)

    def at(self, st, vec):
        vs = self.vers.get(vec[1], [])
        if vec[4] < len(vs):
            return {vec[1]: vs[vec[4]]}
        return st

    def row_store2(self, i, v, row, col, z, st, lo, hi):
        if col is not None:
            self.check_cols(col, i)
        # linear in exactly one vector element per monomial
        pieces = None
        terms = []
        for mono, (x, y) in z.items():
            if y:
                terms = Top('complex constant factor')
                break
            vec = None
            coefs = []
            bad = None
            for l in mono:
                cj = 0
                r = l
                if r[0] == 'real':
                    r = r[1]
                    real = True
                else:
                    real = False
                if r[0] == '~':
                    cj = 1
                    r = r[1]
                iv = 1
                if r[0] == 'inv':
                    iv = -1
                    q = poly.thaw(r[1])
                    if len(q) != 1:
                        raise Undecided('division by a sum')
                    (mm, cc), = q.items()
                    if len(mm) != 1 or cc != (1, 0):
                        raise Undecided('division')
                    r = mm[0]
                    if r[0] == 'real':
                        r = r[1]
                    if r[0] == '~':
                        cj = 1 - cj
                        r = r[1]
                if r[0] == 'x':
                    if vec is not None or iv < 0 or cj:
                        bad = 'not linear in the vectors' if not cj else 'conjugates a vector element'
                    vec = r
                else:
                    coefs.append((r, iv, cj))
            if bad:
                raise Violation('element-wise update of %s is %s' % (v, bad), i.loc)
            if vec is None:
                raise Violation('element-wise update of %s has a term without a vector element' % v, i.loc)
            if col is not None and untup(vec[3]) != col:
                raise Violation('right-hand-side columns are mixed: column %r gets data of column %r' % (col, untup(vec[3])), i.loc)
            terms.append((x, vec, coefs))
        if isinstance(terms, Top):
            self.write(st, v, lo, hi, terms)
            return
        # split the row range at every breakpoint of the vectors read at the same row
        cuts = [lo, hi]
        for (x, vec, coefs) in terms:
            if untup(vec[2]) == row:
                for (p, q, c) in self.content(self.at(st, vec), vec[1], lo, hi):
                    for e in (p, q):
                        if e not in cuts:
                            cuts.append(e)
        cuts.sort(key=self.order_key)
        new = []
        for p, q in zip(cuts, cuts[1:]):
            if not self.lt(p, q):
                continue
            acc = {}
            for (x, vec, coefs) in terms:
                r = untup(vec[2])
                if r == row:
                    cs = self.content(self.at(st, vec), vec[1], p, q)
                    if len(cs) != 1:
                        raise Undecided('content split')
                    X = cs[0][2]
                    g = None
                else:
                    g = self.perm_of(r, row)
                    if g is None:
                        raise Undecided('row index %r at %s' % (r, i.loc))
                    if vec[1] == v:
                        raise Violation('permuted read of %s while it is being overwritten' % v, i.loc)
                    X = self.embed(self.at(st, vec), vec[1], Lin(0), self.sub(Lin.atom(M) + Lin.atom(H)))
                    if not isinstance(X, Top):
                        X = opalg.mul(opalg.word(('G', g)), X)
                if isinstance(X, Top):
                    acc = X
                    break
                for (cf, iv, cj) in coefs:
                    fld, idx = cf[1], untup(cf[2])
                    if fld in ('d_B',):
                        at = ('Db', iv, cj)
                    else:
                        at = ('D', fld, iv)
                    if idx == row:
                        X = opalg.mul(opalg.word(at), X)
                    else:
                        gg = self.perm_of(idx, row)
                        if gg is None:
                            raise Undecided('coefficient index %r' % idx)
                        X = opalg.mul(opalg.word(('G', gg), at, ('G', opalg.PAIR.get(gg, '?'))), X)
                acc = opalg.add(acc, opalg.scale(X, x))
            new.append((p, q, acc if isinstance(acc, Top) else self.restrict(opalg.nf(acc), p, q)))
        for (p, q, c) in new:
            self.write(st, v, p, q, c)
        self.trace.append('%s: %s[%r:%r]' % (i.loc, v, lo, hi))

    def restrict(self, X, p, q):
        return X

    def perm_of(self, idx, row):
        """idx == perm[row] -> perm field name"""
        a = idx.single()
        if a and a[0] == 'ld':
            n = self.vec_of(a[1])
            if n and n[0] == '@':
                off = untup(a[2])
                off = self.dimsub(off)
                if off == row.scale(4) or off == row.scale(8):
                    return n[1:].split('.')[0]
        return None

    def result(self):
        st = self.run()
        n = self.sub(Lin.atom(M) + Lin.atom(H))
        return self.embed(st, self.outvec, Lin(0), n), st
