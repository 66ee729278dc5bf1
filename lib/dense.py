"""Last-level dense solvers: every path of a solver entry, specialised to a rank/transposition scenario, is read as a
composition of LAPACK operations and gather/scatter/zero loops on the right-hand side; the composition is compared
with the one the factorization calls for."""
import re
from ir import Lin, Undecided, untup, astr
from spec import SFunc
from kernel import Kernel, nested_its
from events import Resolver, calls, Arg
import poly
from fractions import Fraction as Fr

PREC = {'s': 4, 'd': 8, 'c': 8, 'z': 16}


class Bad(Exception):
    def __init__(self, msg, loc='?'):
        Exception.__init__(self, msg)
        self.msg, self.loc = msg, loc


def sym(n):
    return Lin.atom(('sym', n))


class Interp:
    """scn: dict(env, facts); names: field name -> symbol; nrhs"""

    def __init__(self, f, prog, scn, prefix, cx, es, nrhs, symmap, inp):
        self.sf = SFunc(f, scn.get('env'), scn.get('facts', ()))
        self.prog, self.cx, self.es, self.nrhs, self.symmap, self.inp = prog, cx, es, nrhs, symmap, inp
        self.pfx = prefix
        self.R = Resolver(self.sf, prog.globals, self.canon)
        self.val = {inp: ('in',)}
        self.pieces = {}
        self.lwork = None

    # ---- naming
    def canon(self, l):
        def sub(a):
            n = self.sf.aname(a)
            if n in self.symmap:
                w = self.symmap[n]
                return Lin(w) if isinstance(w, int) else sym(w)
            if a[0] in ('mul', 'min', 'max') and len(a) == 3:
                x, y = self.canon(untup(a[1])), self.canon(untup(a[2]))
                if a[0] == 'mul':
                    if x.is_const():
                        return y.scale(x.c)
                    if y.is_const():
                        return x.scale(y.c)
                for u, v in ((x, y), (y, x)):
                    if a[0] in ('min', 'max') and u == Lin(0) and len(v.t) == 1 and v.c >= 0 and v.single() in (('sym', 'm'),):
                        return u if a[0] == 'min' else v
                x, y = sorted([x.tup(), y.tup()], key=repr)
                return Lin.atom((a[0], x, y))
            return None
        r = Lin(l.c)
        for a, k in l.t.items():
            w = sub(a)
            r = r + (w.scale(k) if w is not None else Lin.atom(a, k))
        return r

    def show(self, l):
        if not isinstance(l, Lin):
            return str(l)
        r = []
        for a, k in sorted(l.t.items(), key=lambda t: repr(t[0])):
            n = a[1] if a[0] == 'sym' else self.sf.aname(a) or astr(a)
            r.append(n if k == 1 else '%d*%s' % (k, n))
        if l.c or not r:
            r.append(str(l.c))
        return '+'.join(r)

    # ---- columns: element offset -> (index, column) ; column: None or 'all'
    def split_cm(self, off, loops, loc):
        """element offset in a column-major block of leading dimension m"""
        m = sym('m')
        idx, col = Lin(off.c), None
        for a, k in off.t.items():
            if a[0] == 'mul' and m.tup() in a[1:]:
                o = untup(a[2] if a[1] == m.tup() else a[1])
                at = o.single()
                if at and at[0] == 'it' and k == 1:
                    if col is not None:
                        raise Undecided('two column terms')
                    if dict(loops).get(at[1]) == Lin(self.nrhs):
                        col = 'all'
                        continue
                    raise Bad('columns 0..%s of %d are visited' % (self.show(dict(loops).get(at[1], Lin(0))), self.nrhs), loc)
                raise Bad('the columns of the block are addressed with stride %s*%d instead of the column length' % (self.show(o), k)
                          if at and at[0] == 'it' else 'column offset %s' % self.show(off), loc) if at else Undecided('column offset')
            if a == ('sym', 'm'):
                raise Undecided('column offset %s' % self.show(off))
            idx = idx + Lin.atom(a, k)
        if col is None and self.nrhs > 1:
            col = 'first'
        return idx, col

    def memname(self, mem):
        return mem

    def check_col(self, col, loc, what):
        if self.nrhs > 1 and col != 'all':
            raise Bad('%s acts on one column only' % what, loc)

    # ---- reading values
    def read(self, mem, loc):
        """full-vector value of a buffer"""
        if mem in self.pieces:
            self.settle(mem, loc)
        if mem not in self.val:
            raise Bad('%s is used before it is written' % mem, loc)
        return self.val[mem]

    def settle(self, mem, loc):
        ps = self.pieces.pop(mem)
        base = self.val.get(mem)
        n = None
        d = {}
        order = []
        for kind, perm, lo, hi, v, ploc in ps:
            d.setdefault((kind, perm), []).append((lo, hi, v, ploc))
            order.append((kind, perm))
        nz = [(k, x) for k, xs in d.items() for x in xs if x[2] is not None]
        zz = [(k, x) for k, xs in d.items() for x in xs if x[2] is None]
        if len(nz) == 0 and len(zz) == 1:
            raise Undecided('zero fill of %s' % mem)
        if len(nz) != 1 or len(zz) > 1:
            raise Undecided('%d value and %d zero pieces of %s' % (len(nz), len(zz), mem))
        (kind, perm), (lo, hi, v, ploc) = nz[0]
        if lo != Lin(0):
            raise Bad('entries [%s,%s) are set, not those from 0' % (self.show(lo), self.show(hi)), ploc)
        if kind == 'copy':
            if zz:
                raise Undecided('copy and zero')
            self.val[mem] = v if hi in (sym('m'), sym('m')) else ('first', self.show(hi), v)
            return
        k = hi
        if not zz:
            if k == sym('m'):
                self.val[mem] = (kind, perm, self.show(k), v)
                return
            raise Bad('the entries of %s beyond the rank are not zeroed' % mem, ploc)
        (zk, zp), (zlo, zhi, _, zloc) = zz[0]
        want = {'gather': ('ident', None), 'scatter': ('scatter', perm), 'diag/': ('scatter', perm and perm[:2]), 'diag*': ('scatter', perm and perm[:2])}[kind]
        full = zk == 'ident' and zlo == Lin(0) and zhi == sym('m') and order[0] == (zk, zp)
        if not full:
            if (zk, zp) != want:
                raise Bad('the zeroed entries are addressed as %s(%s), the retained ones as %s(%s)' % (zk, zp, kind, perm), zloc)
            if zlo != k:
                raise Bad('entries are zeroed from %s on but retained up to %s' % (self.show(zlo), self.show(k)), zloc)
            if zhi != sym('m'):
                raise Bad('entries are zeroed up to %s instead of %s' % (self.show(zhi), 'm'), zloc)
        self.val[mem] = (kind, perm, self.show(k), v)

    # ---- guards
    def guarded(self, ins, counts, slack=0):
        """non-benign condition the instruction depends on"""
        sf = self.sf
        for a, s in sf.uncond(ins.blk):
            br = sf.blocks[a][-1]
            if br.op != 'br' or not br.ops:
                return br
            if not self.benign(br.ops[0], sf.base.succ[a][0] == s, [c - slack for c in counts] if slack else counts):
                return br
        return None

    def benign(self, v, val, counts):
        """skipping (v != val) implies one of the counts is <= 0"""
        i = self.sf.ins.get(v)
        if i is None:
            return False
        if i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
            return self.benign(i.ops[0], not val, counts)
        if i.op == 'and' and val or i.op == 'or' and not val:
            return all(self.benign(o, val, counts) for o in i.ops)
        if i.op == 'select' and val and i.ops[2] == 'c:0':
            return self.benign(i.ops[0], val, counts) and self.benign(i.ops[1], val, counts)
        if i.op == 'select' and not val and i.ops[1] in ('c:1', 'c:-1'):
            return self.benign(i.ops[0], val, counts) and self.benign(i.ops[2], val, counts)
        t = self.sf.truth(v)
        if t is not None:
            return True
        if i.op != 'icmp' or self.sf.isptr(i.ops[0]):
            return False
        try:
            d = self.canon(self.sf.lin(i.ops[0]) - self.sf.lin(i.ops[1]))
        except Undecided:
            return False
        if len(i.ops) == 2 and i.ops[1] == 'c:0' and i.get('pred') in ('eq', 'ne'):
            z = self.sf.ins.get(i.ops[0])
            while z is not None and z.op == 'call' and (z.get('callee') or '').startswith('llvm.expect'):
                z = self.sf.ins.get(z.ops[0])
            if z is not None and z.op in ('zext', 'sext') and z.get('from_ty') == 'i1':
                return self.benign(z.ops[0], val == (i.get('pred') == 'ne'), counts)
        p = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(i.get('pred'), i.get('pred'))
        neg = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}
        skip = neg[p] if val else p       # condition d skip 0 holds when skipped
        for c in counts:
            if skip in ('slt', 'sle', 'eq'):
                e = c - d
                if e.is_const() and (e.c <= 0 or skip == 'slt' and e.c <= 1):
                    return True
                if e.is_const() and e.c <= 1 and skip in ('slt',):
                    return True
            if skip in ('sgt', 'sge', 'eq'):
                e = c + d
                if e.is_const() and (e.c <= 0 or skip == 'sgt' and e.c <= 1):
                    return True
        return False

    # ---- LAPACK calls
    def ints(self, a, want, what, loc):
        if a.kind != 'int':
            raise Undecided('%s argument %r' % (what, a))
        if a.v != want:
            raise Bad('%s is %s instead of %s' % (what, self.show(a.v), self.show(want)), loc)

    def ch(self, a):
        if a.kind != 'int' or not a.v.is_const():
            raise Undecided('option argument %r' % a)
        return chr(a.v.c)

    def matrix(self, a, name, loc):
        if a.kind != 'mem' or a.off != Lin(0):
            raise Undecided('matrix argument %r' % a)
        if a.name != self.pfx + name:
            raise Bad('the factor passed is %s instead of %s' % (a.name, self.pfx + name), loc)

    def vector(self, a, loops, loc, what):
        """buffer and column of a vector operand"""
        if a.kind != 'mem':
            raise Undecided('vector argument %r' % a)
        off = a.off.divexact(self.es)
        if off is None:
            raise Undecided('vector offset')
        idx, col = self.split_cm(off, loops, loc)
        if idx != Lin(0):
            raise Bad('%s starts at entry %s' % (what, self.show(idx)), loc)
        return a.name, col

    def call(self, c):
        sf, loc = self.sf, c.ins.loc
        m = re.match(r'([sdcz])(getrs|ormqr|unmqr|trsv|trmv|gemv)_$', c.name)
        if not m:
            raise Undecided('call of %s' % c.name)
        base = 'ormqr' if m.group(2) == 'unmqr' else m.group(2)
        A = c.args
        loops = [(l, self.canon(n)) for l, n in self.k.loops_of(c.ins.blk)]
        if base == 'ormqr':
            if A[11].kind == 'int' and A[11].v == Lin(-1):
                self.query = A[10]
                return
            g = self.guarded(c.ins, [l for _, l in loops])
            if g:
                raise Bad('%s is only called under a condition' % c.name, g.loc)
            if self.ch(A[0]) != 'L':
                raise Bad('Q is applied from side %s' % self.ch(A[0]), loc)
            t = {'T': 'H', 'C': 'H', 'N': 'N'}.get(self.ch(A[1]))
            if self.cx and self.ch(A[1]) == 'T':
                t = 'T'
            self.ints(A[2], sym('m'), 'the row count', loc)
            self.matrix(A[5], '_mat._data._data', loc)
            self.ints(A[6], sym('m'), 'the leading dimension of the factor', loc)
            self.matrix(A[7], '_tau._data', loc)
            self.ints(A[9], sym('m'), 'the leading dimension of the block', loc)
            mem, col = self.vector(A[8], loops, loc, 'the block')
            if col == 'all' and self.nrhs > 1:
                self.ints(A[3], Lin(1), 'the column count', loc)
            else:
                self.ints(A[3], Lin(self.nrhs), 'the column count', loc)
            if A[4].kind != 'int':
                raise Undecided('reflector count')
            self.val[mem] = ('Q', t, self.show(A[4].v), self.read(mem, loc))
            return
        g = self.guarded(c.ins, [l for _, l in loops])
        if g:
            raise Bad('%s is only called under a condition' % c.name, g.loc)
        if base in ('trsv', 'trmv'):
            if self.ch(A[0]) != 'U':
                raise Bad('%s uses the %s triangle' % (c.name, self.ch(A[0])), loc)
            if self.ch(A[2]) != 'N':
                raise Bad('%s assumes a unit diagonal' % c.name, loc)
            t = self.ch(A[1])
            if not self.cx and t == 'T':
                t = 'C'
            self.matrix(A[4], '_mat._data._data', loc)
            self.ints(A[5], sym('m'), 'the leading dimension', loc)
            self.ints(A[7], Lin(1), 'the increment', loc)
            mem, col = self.vector(A[6], loops, loc, 'the vector')
            self.check_col(col, loc, c.name)
            if A[3].kind != 'int':
                raise Undecided('size')
            self.val[mem] = ('R^-1' if base == 'trsv' else 'R', {'C': 'H'}.get(t, t), self.show(A[3].v), self.read(mem, loc))
            return
        if base == 'getrs':
            t = self.ch(A[0])
            if not self.cx and t == 'T':
                t = 'C'
            self.ints(A[1], sym('m'), 'the size', loc)
            self.ints(A[2], Lin(self.nrhs), 'the column count', loc)
            self.matrix(A[3], '_mat._data._data', loc)
            self.ints(A[4], sym('m'), 'the leading dimension', loc)
            self.matrix(A[5], '_ipiv._data', loc)
            self.ints(A[7], sym('m'), 'the leading dimension of the block', loc)
            mem, col = self.vector(A[6], loops, loc, 'the block')
            self.val[mem] = ('LU^-1', {'C': 'H'}.get(t, t), self.read(mem, loc))
            return
        if base == 'gemv':
            t = self.ch(A[0])
            if not self.cx and t == 'T':
                t = 'C'
            self.ints(A[1], sym('m'), 'the row count', loc)
            self.ints(A[2], sym('m'), 'the column count', loc)
            if A[3].kind != 'fp' or A[8].kind != 'fp':
                raise Undecided('scalar argument')
            if A[3].v != (1.0, 0.0):
                raise Bad('the product is scaled by %r' % (A[3].v,), loc)
            if A[8].v != (0.0, 0.0):
                raise Bad('the product is added to old content (beta=%r)' % (A[8].v,), loc)
            if A[4].kind != 'mem':
                raise Undecided('matrix')
            self.ints(A[5], sym('m'), 'the leading dimension', loc)
            self.ints(A[7], Lin(1), 'the increment', loc)
            self.ints(A[10], Lin(1), 'the increment', loc)
            mx, cx = self.vector(A[6], loops, loc, 'the input')
            my, cy = self.vector(A[9], loops, loc, 'the output')
            if mx == my:
                raise Bad('input and output of the product overlap', loc)
            self.incol(mx, cx, loops, loc, c.name)
            self.incol(my, cy, loops, loc, c.name)
            v = self.read(mx, loc)
            self.pieces.pop(my, None)
            self.val[my] = ('M' if '_mat.' in A[4].name else 'M' + A[4].name.replace(self.pfx, '').split('.')[0], {'C': 'H'}.get(t, t), v)
            return

    def incol(self, mem, col, loops, loc, what):
        if self.nrhs > 1:
            if 'work' in mem:
                if not any(n == Lin(self.nrhs) for _, n in loops):
                    raise Bad('%s acts on one column only' % what, loc)
            else:
                self.check_col(col, loc, what)

    # ---- element statements
    def rng(self, it, loops):
        n = dict(loops).get(it)
        if n is None:
            raise Undecided('loop')
        return self.canon(n)

    def index(self, l, loops):
        """('ident', None, it, shift) or ('perm', name, it, shift, minus)"""
        at = l.single() if l.c == 0 else (l - l.c).single()
        if at is None:
            # it + shift
            its = [a for a in l.t if a[0] == 'it']
            if len(its) == 1 and l.t[its[0]] == 1:
                sh = l - Lin.atom(its[0])
                if not nested_its(sh):
                    return ('ident', None, its[0][1], self.canon(sh), 0)
            raise Undecided('index %r' % l)
        if at[0] == 'it':
            return ('ident', None, at[1], Lin(l.c), 0)
        if at[0] == 'ld':
            off = untup(at[2])
            root = at[1]
            es = {'i32': 4, 'i64': 8}.get(at[3])
            o = off.divexact(es) if es else None
            if o is None:
                raise Undecided('index load')
            its = [a for a in o.t if a[0] == 'it']
            if len(its) != 1 or o.t[its[0]] != 1:
                raise Undecided('index load offset')
            return ('perm', self.sf.rootname(root), its[0][1], self.canon(o - Lin.atom(its[0])), l.c)
        raise Undecided('index %r' % l)

    def stmt(self, s, k, single):
        loc = s.ins.loc
        loops = [(l, self.canon(n)) for l, n in s.loops]
        if any(n == Lin(0) for _, n in loops):
            return
        if s.kind != 'assign':
            if self.scale_stmt(s, loops, loc):
                return
            raise Undecided('update of %s' % s.mem)
        row, col, mem = self.canon(s.row), self.canon(s.col), s.mem
        cxs = self.cols[mem]
        c = None
        if cxs == 1:
            row = row + col     # flat
            row, c = self.split_cm(row, loops, loc)
        else:
            c = self.rmcol(col, loops, loc)
        counts = [n for _, n in loops]
        g = self.guarded(s.ins, counts, 1 if single else 0)
        if g is not None:
            raise Bad('entries of %s are only set under a condition' % mem, g.loc)
        if 'work' not in mem:
            self.check_col(c, loc, 'the assignment of %s' % mem)
        elif self.nrhs > 1 and not any(n == Lin(self.nrhs) for _, n in loops):
            raise Bad('the loop on %s is not repeated for every column' % mem, loc)
        if not s.z:
            kind, perm, it, sh, mi = self.index(row, loops)
            n = self.rng(it, loops)
            if kind == 'ident':
                self.piece(mem, ('ident', None, sh, sh + n, None, loc))
            else:
                self.piece(mem, ('scatter', (perm, mi), sh, sh + n, None, loc))
            return
        if len(s.z) != 1:
            raise Undecided('value of %s' % mem)
        (mono, co), = s.z.items()
        if len(mono) > 1:
            return self.diag_stmt(s, mono, co, row, loops, loc)
        if co != (Fr(1), Fr(0)):
            raise Undecided('value of %s' % mem)
        leaf = mono[0]
        leaf = leaf[1] if leaf[0] == 'real' else leaf
        if leaf[0] != 'el':
            raise Undecided('value of %s' % mem)
        smem, srow, scol = leaf[1], self.canon(untup(leaf[2])), self.canon(untup(leaf[3]))
        if self.cols[smem] == 1:
            sidx, sc = self.split_cm(srow + scol, loops, loc)
        else:
            sidx, sc = srow, self.rmcol(scol, loops, loc)
        if 'work' not in smem:
            self.check_col(sc, loc, 'the read of %s' % smem)
        k1, p1, i1, s1, m1 = self.index(row, loops)
        k2, p2, i2, s2, m2 = self.index(sidx, loops)
        if i1 != i2:
            raise Undecided('indices')
        n = self.rng(i1, loops)
        v = self.read(smem, loc)
        if k1 == k2 == 'ident':
            if s1 != s2:
                raise Bad('entry i+%s of %s is set from entry i+%s' % (self.show(s1), mem, self.show(s2)), loc)
            self.piece(mem, ('copy', None, s1, s1 + n, v, loc))
        elif k1 == 'ident':
            if s1 != s2:
                raise Bad('entry i+%s is set through permutation entry i+%s' % (self.show(s1), self.show(s2)), loc)
            self.piece(mem, ('gather', (p2, m2), s1, s1 + n, v, loc))
        elif k2 == 'ident':
            if s1 != s2:
                raise Bad('permutation entry i+%s is set from entry i+%s' % (self.show(s1), self.show(s2)), loc)
            self.piece(mem, ('scatter', (p1, m1), s1, s1 + n, v, loc))
        else:
            raise Undecided('both sides permuted')

    def rmcol(self, col, loops, loc):
        at = col.single()
        if at and at[0] == 'it':
            if dict(loops).get(at[1]) == Lin(self.nrhs):
                return 'all'
            raise Bad('columns 0..%s of %d are visited' % (self.show(dict(loops).get(at[1], Lin(0))), self.nrhs), loc)
        return 'first'

    def diag_stmt(self, s, mono, co, row, loops, loc):
        """mem[t[i]] := mem[t[i]] / w[t[i]]"""
        mem = s.mem
        if len(mono) != 2 or co != (Fr(1), Fr(0)):
            raise Undecided('value of %s' % mem)
        el, op, wl = None, None, None
        for l in mono:
            l2 = l[1] if l[0] == 'real' else l
            if l2[0] == 'el' and l2[1] == mem:
                el = l2
            elif l2[0] == 'el':
                op, wl = '*', l2
            elif l2[0] == 'inv':
                q = l2[1]
                op, wl = '/', q
        if el is None or wl is None:
            raise Undecided('value of %s' % mem)
        w = self.leafof(wl)
        if w is None:
            raise Undecided('divisor')
        k1, p1, i1, s1, m1 = self.index(row, loops)
        e = self.canon(untup(el[2])) + self.canon(untup(el[3]))
        wi = self.canon(untup(w[2])) + self.canon(untup(w[3]))
        if e != row:
            raise Bad('entry %s is set from entry %s' % (self.show(row), self.show(e)), loc)
        if wi != row:
            raise Bad('entry %s is combined with eigenvalue %s' % (self.show(row), self.show(wi)), loc)
        if k1 != 'perm':
            raise Undecided('truncation order')
        n = self.rng(i1, loops)
        v = self.read(mem, loc)
        self.piece(mem, ('diag' + op, (p1, m1, w[1]), s1, s1 + n, v, loc))

    @staticmethod
    def leafof(x):
        if isinstance(x, tuple) and x and x[0] == 'el':
            return x
        if isinstance(x, tuple) and x and x[0] == 'real':
            return Interp.leafof(x[1])
        if isinstance(x, tuple):
            r = [Interp.leafof(y) for y in x if isinstance(y, tuple)]
            r = [y for y in r if y]
            return r[0] if len(r) == 1 else None
        return None

    def scale_stmt(self, s, loops, loc):
        return False

    def piece(self, mem, p):
        if p[0] == 'copy' or p[0] in ('gather',) and mem in self.pieces and all(q[0] != 'ident' for q in self.pieces[mem]):
            self.pieces.pop(mem, None)
        if p[0].startswith('diag'):
            kind, perm, lo, hi, v, loc = p
            self.pieces.setdefault(mem, []).append((kind, perm, lo, hi, v, loc))
            return
        self.pieces.setdefault(mem, []).append(p)

    # ---- driver
    def run(self):
        sf = self.sf
        es, N, inp = self.es, self.nrhs, self.inp

        class Cols(dict):
            def __missing__(d, k):
                return N if k == inp and N > 1 else 1
        self.cols = Cols()
        hes = es // 2 if self.cx else es

        def esz(mem):
            return hes if mem.endswith('_w._data') else es if mem.startswith(self.pfx) else self.ves
        k = Kernel(sf, esz, lambda mem: self.cols[mem], lambda mem: self.cx and not mem.endswith('_w._data'))
        self.k = k
        heap = lambda r: r[0] == 'ld' and untup(r[2]).is_const() and self.want(sf.rootname(r))
        stmts = k.collect(heap)
        stmts = self.drop_single(stmts)
        cs = calls(sf, self.prog.globals, lambda n: re.match(r'[sdcz]\w+_$', n), self.canon)
        pos = {b: j for j, b in enumerate(sf.rpo())}
        ev = [(pos[c.ins.blk], c.ins.pos, 'c', c) for c in cs] + [(pos[s.ins.blk], s.ins.pos, 's', s) for s in stmts]
        if not cs:
            raise Undecided('no LAPACK call found')
        for _, _, t, e in sorted(ev, key=lambda x: (x[0], x[1])):
            if t == 'c':
                self.call(e)
            else:
                self.stmt(e, k, getattr(e, 'single', False))
        return self.read(getattr(self, "out", self.inp), "?")

    def want(self, n):
        return n.endswith('._data') and not n.endswith('_jpvt._data')

    def drop_single(self, stmts):
        """std::copy writes one element directly when the length is one: part of the bulk copy"""
        out = []
        bulk = {}
        for s in stmts:
            for l, n in s.loops:
                if isinstance(l, str) and l.startswith('mc'):
                    bulk[(s.mem, (s.row + s.col).subst({('it', l): Lin(0)}).tup())] = s
        for s in stmts:
            if not any(isinstance(l, str) for l, _ in s.loops):
                b = bulk.get((s.mem, (s.row + s.col).tup()))
                if b is not None and len(s.loops) == len(b.loops) - 1 and s.kind == 'assign' and len(s.z) == 1:
                    b.single = True
                    continue
            out.append(s)
        for s in out:
            if any(isinstance(l, str) for l, _ in s.loops):
                s.single = True
        return out


def term(t):
    """readable composition"""
    if t == ('in',):
        return 'x'
    if isinstance(t, tuple):
        h = t[0] + '(' + ','.join(term(x) if isinstance(x, tuple) and x and x[0] in ('in', 'Q', 'R', 'R^-1', 'gather', 'scatter', 'M', 'LU^-1', 'diag/', 'diag*', 'first', 'M_mat_backup') else str(x) for x in t[1:]) + ')'
        return h
    return str(t)


INF = float('inf')
RANKS = {        # name -> (env, facts, retained rank)
    'default rank': ({'rank': 0}, [({'S._rank': 1, 'm': -1}, -INF, 0)], 'S._rank'),
    'explicit rank': ({}, [({'rank': 1}, 1, INF), ({'rank': 1, 'm': -1}, -INF, 0)], 'rank'),
    'excessive rank': ({}, [({'rank': 1}, 1, INF), ({'rank': 1, 'm': -1}, 1, INF)], None),
}


def expected(kind, op, tran, k, n):
    x = ('in',)
    p = ('S._jpvt._data', -1)
    if kind == 'qr':
        if op == 'solve':
            return ('scatter', p, k, ('R^-1', 'N', k, ('Q', 'H', k, x))) if not tran else ('Q', 'N', k, ('R^-1', 'H', k, ('gather', p, k, x)))
        return ('Q', 'N', k, ('R', 'N', k, ('gather', p, k, x))) if not tran else ('scatter', p, k, ('R', 'H', k, ('Q', 'H', k, x)))
    if kind == 'sy':
        return ('M', 'N', ('diag/' if op == 'solve' else 'diag*', ('S._trunc_order._data', 0, 'S._w._data'), k, ('M', 'H', x)))
    if op == 'solve':
        return ('LU^-1', 'H' if tran else 'N', x)
    return ('M_mat_backup', 'H' if tran else 'N', x)


def check(rep, rule, prog):
    n = 0
    for f in prog.find(r'^Dense<'):
        m = re.match(r'Dense<(.*)>::(qr|sy|lu)_(solve|multiply)(_mrhs)?(_mix)?\(', f.dem)
        if not m:
            continue
        n += 1
        cx = 'complex' in m.group(1)
        es = 8
        kind, op, nrhs = m.group(2), m.group(3), 3 if m.group(4) else 1
        for tran in ((0,) if kind == 'sy' else (0, 1)):
            for rname, (env, facts, k) in RANKS.items():
                what = '%s<%s>::%s%s%s, %s' % ({'qr': 'QRCP', 'sy': 'SYEIG', 'lu': 'LUP'}[kind], 'complex' if cx else 'real', op,
                                               (m.group(4) or '') + (' (other precision)' if m.group(5) else ''), ' transposed' if tran else '', rname)
                try:
                    t, t0 = one(f, prog, env, facts, k, kind, op, tran, cx, es, nrhs, bool(m.group(5)))
                    if t == t0:
                        rep.ok(rule, what, term(t))
                    else:
                        rep.bad(rule, what, 'computes %s instead of %s' % (term(t), term(t0)), f.loc if hasattr(f, 'loc') else '?')
                except Bad as e:
                    rep.bad(rule, what, e.msg, e.loc)
                except Undecided as e:
                    rep.und(rule, what, e)
    return n


def one(f, prog, env, facts, k, kind, op, tran, cx, es, nrhs, mix=False):
    inp = 'x._data'
    names = dict.fromkeys(('x._size', 'y._size', 'S._mat._nrows', 'S._mrhs._nrows', 'S._jpvt._size', 'S._mat._ncols',
                           'S._mat_backup._nrows', 'S._mat_backup._ncols', 'S._w._size', 'S._x._size', 'S._y._size', 'S._trunc_order._size'), 'm')
    env = dict(env, tran=tran)
    mnames = list(names)
    names['S._mrhs._ncols'] = nrhs
    fs = []
    for d, lo, hi in facts:
        for nm in mnames:
            fs.append(({(nm if a == 'm' else a): c for a, c in d.items()}, lo, hi))
    it = Interp(f, prog, {'env': env, 'facts': fs}, 'S.', cx, es, nrhs, names, inp)
    it.ves = (16 if cx else 4) if mix else es
    it.out = 'y._data' if kind == 'lu' and op == 'multiply' else inp
    return it.run(), expected(kind, op, tran, k or 'm', 'm')


# ---------------------------------------------------------------- factorizations
SZ = dict.fromkeys(('S._mat._nrows', 'S._jpvt._size', 'S._mat._ncols', 'S._ipiv._size', 'S._w._size', 'S._trunc_order._size'), 'm')


class Fac:
    def __init__(self, f, prog, env, es):
        self.f = SFunc(f, env)
        self.prog, self.es = prog, es
        self.calls = calls(self.f, prog.globals, lambda n: True, self.canon)
        self.loc = f.loc if hasattr(f, 'loc') else '?'

    def canon(self, l):
        r = Lin(l.c)
        for a, k in l.t.items():
            n = self.f.aname(a)
            r = r + (sym(SZ[n]).scale(k) if n in SZ else Lin.atom(a, k))
        return r

    def lapack(self, pat):
        return [c for c in self.calls if re.match(r'[sdcz](%s)_$' % pat, c.name)]

    def uncond(self, c):
        return not self.f.uncond(c.ins.blk)

    def arg(self, c, k, what, mem=None, lin=None, ch=None):
        a = c.args[k]
        if mem is not None:
            if a.kind != 'mem' or a.off != Lin(0):
                raise Undecided('%s of %s' % (what, c.name))
            if a.name != mem:
                raise Bad('%s of %s is %s instead of %s' % (what, c.name, a.name, mem), c.ins.loc)
        elif lin is not None:
            if a.kind != 'int':
                raise Undecided('%s of %s' % (what, c.name))
            if a.v != lin:
                raise Bad('%s of %s is %s instead of %s' % (what, c.name, self.f.show(a.v), self.f.show(lin)), c.ins.loc)
        elif ch is not None:
            if a.kind != 'int' or not a.v.is_const():
                raise Undecided('%s of %s' % (what, c.name))
            if chr(a.v.c) not in ch:
                raise Bad('%s of %s is %r' % (what, c.name, chr(a.v.c)), c.ins.loc)

    def whole(self, c, name):
        """the call covers the whole array"""
        a, b = c.args[0], c.args[1]
        return a.kind == b.kind == 'mem' and a.name == b.name == name and a.off == Lin(0)

    def touches(self, fld):
        """writes to the array: stores through its data pointer or calls given it"""
        r = []
        f = self.f
        for b in f.rpo():
            for i in f.blocks[b]:
                if i.op == 'store':
                    try:
                        root, off = f.addr(i.ops[1])
                    except Undecided:
                        continue
                    if f.rootname(root) == fld + '._data':
                        r.append(i)
        for c in self.calls:
            if any(a.kind == 'mem' and a.name == fld + '._data' for a in c.args):
                r.append(c.ins)
        return r


def one_call(F, pat):
    cs = F.lapack(pat)
    if not cs:
        raise Undecided('no %s call' % pat)
    real = [c for c in cs if not any(a.kind == 'int' and a.v == Lin(-1) for a in c.args)]
    if not real:
        raise Undecided('only workspace queries')
    if len(real) > 1:
        raise Undecided('%d %s calls' % (len(real), pat))
    if not F.uncond(real[0]):
        raise Bad('%s is only called under a condition' % real[0].name, real[0].ins.loc)
    return real[0]


def full_rank(F):
    """without truncation the rank recorded is the full dimension"""
    vals = []
    f = F.f
    for b in f.rpo():
        for i in f.blocks[b]:
            if i.op == 'store':
                try:
                    n, off = f.field(i.ops[1])
                    root, o = f.addr(i.ops[1])
                    if root[0] == 'arg' and o.is_const() and f.field_of(root, o.c) == 'S._rank':
                        v = F.canon(f.lin(i.ops[0]))
                        vals.append((v, i))
                except Undecided:
                    vals.append((None, i))
    if not vals or any(v is None for v, _ in vals):
        return
    cand = [v for v, _ in vals if set(v.t) <= {('sym', 'm')} and v.t]
    if cand and not any(v == sym('m') for v in cand):
        raise Bad('the initial rank is %s instead of the full dimension' % f.show(cand[0]), vals[0][1].loc)


def fac_qr(F):
    c = one_call(F, 'geqp3')
    full_rank(F)
    m = sym('m')
    F.arg(c, 0, 'row count', lin=m)
    F.arg(c, 1, 'column count', lin=m)
    F.arg(c, 2, 'matrix', mem='S._mat._data._data')
    F.arg(c, 3, 'leading dimension', lin=m)
    F.arg(c, 4, 'pivot array', mem='S._jpvt._data')
    F.arg(c, 5, 'reflector array', mem='S._tau._data')
    F.arg(c, 6, 'workspace', mem='S._work._data')
    t = [i for i in F.touches('S._jpvt') if F.f.idominates(i, c.ins) and not re.match(r'[sdcz]geqp3', i.get('callee') or '')]
    loops = [i for i in F.touches('S._jpvt') if i.op == 'store']
    if not t and not loops:
        raise Bad('the pivot array is not set before the factorization: columns would be fixed by old content', c.ins.loc)
    return 'geqp3(mat, jpvt zeroed, tau)'


def fac_lu(F):
    c = one_call(F, 'getrf')
    full_rank(F)
    m = sym('m')
    F.arg(c, 0, 'row count', lin=m)
    F.arg(c, 1, 'column count', lin=m)
    F.arg(c, 2, 'matrix', mem='S._mat._data._data')
    F.arg(c, 3, 'leading dimension', lin=m)
    F.arg(c, 4, 'pivot array', mem='S._ipiv._data')
    return 'getrf(mat, ipiv)'


def fac_sy(F):
    c = one_call(F, 'syev|heev')
    full_rank(F)
    m = sym('m')
    F.arg(c, 0, 'job', ch='V')
    F.arg(c, 1, 'triangle', ch='LU')
    F.arg(c, 2, 'size', lin=m)
    F.arg(c, 3, 'matrix', mem='S._mat._data._data')
    F.arg(c, 4, 'leading dimension', lin=m)
    F.arg(c, 5, 'eigenvalue array', mem='S._w._data')
    F.arg(c, 6, 'workspace', mem='S._work._data')
    return 'eigenvectors and ascending eigenvalues'


def comparator(prog, callee, els):
    """'desc' / 'asc' order by magnitude of the eigenvalue"""
    m = re.search(r'(hif::SYEIG<.*?>)::factorize', callee)
    if not m:
        raise Undecided('comparator')
    for g in prog.functions:
        if g.dem.startswith('bool __gnu_cxx::__ops::_Iter_comp_iter<' + m.group(1)) and "lambda'(int, int)" in g.dem:
            rets = [i for ii in g.blocks.values() for i in ii if i.op == 'ret']
            if len(rets) != 1:
                raise Undecided('comparator')
            c = g.ins.get(rets[0].ops[0])
            if c is None or c.op != 'fcmp':
                raise Undecided('comparator')
            side = []
            for o in c.ops:
                s = g.ins.get(o)
                ab = False
                if s is not None and s.op == 'call' and 'fabs' in (s.get('callee') or ''):
                    ab = True
                    s = g.ins.get(s.ops[0])
                if s is None or s.op != 'load':
                    raise Undecided('comparator operand')
                root, off = g.addr(s.ops[0])
                w = [a for a in off.t if a[0] == 'ld' and a[1] in (('arg', 1), ('arg', 2))]
                if len(w) != 1:
                    raise Undecided('comparator operand')
                side.append((w[0][1][1], ab))
            if {x for x, _ in side} != {1, 2}:
                raise Bad('the comparator compares an eigenvalue with itself', c.loc)
            p = c.get('pred')
            if p[-2:] not in ('gt', 'lt', 'ge', 'le'):
                raise Undecided('comparator')
            first_greater = (p[-2] == 'g') == (side[0][0] == 1)
            return 'desc' if first_greater else 'asc', all(ab for _, ab in side)
    raise Undecided('comparator not found')


def trunc_order(F, spd, prog):
    """order in which eigenvalues are retained: the retained ones come first"""
    cs = [c for c in F.calls if re.match(r'void std::(sort|reverse)<', c.name) and
          any(a.kind == 'mem' and a.name == 'S._trunc_order._data' for a in c.args[:1])]
    st = [i for i in F.touches('S._trunc_order') if i.op == 'store']
    if st:
        raise Undecided('the order is written element by element')
    order = 'asc'          # as delivered by ?syev / ?heev
    key = 'signed'
    pos = {b: j for j, b in enumerate(F.f.rpo())}
    for c in sorted(cs, key=lambda c: (pos[c.ins.blk], c.ins.pos)):
        if not F.uncond(c):
            raise Undecided('conditional ordering')
        if not F.whole(c, 'S._trunc_order._data'):
            raise Undecided('partial ordering')
        if '::reverse<' in c.name:
            order = {'asc': 'desc', 'desc': 'asc'}[order]
        else:
            order, mag = comparator(prog, c.name, None)
            key = 'magnitude' if mag else 'signed'
    want = {1: ('desc', ('signed', 'magnitude')), -1: ('asc', ('signed',)), 0: ('desc', ('magnitude',))}[spd]
    if spd == -1 and (order, key) == ('desc', 'magnitude'):
        return 'retained: largest magnitude'
    if order != want[0] or key not in want[1]:
        raise Bad('the eigenvalues retained first are in %sending order (%s): the truncated ones are not those of least magnitude'
                  % (order, key), cs[0].ins.loc if cs else F.loc)
    return 'retained first: %s %s' % (order, key)


def settle_copy(f, es, dst, src):
    """dst := src over the whole array, unconditionally"""
    for b in f.rpo():
        for i in f.blocks[b]:
            if i.op == 'call' and (i.get('callee') or '').startswith(('llvm.memmove', 'llvm.memcpy')):
                try:
                    (rd, od), (rs, os_) = f.addr(i.ops[0]), f.addr(i.ops[1])
                    n = f.lin(i.ops[2]).divexact(es)
                except Undecided:
                    continue
                if f.rootname(rd) == dst + '._data._data' and f.rootname(rs) == src + '._data._data' and od == os_ == Lin(0):
                    if n is None:
                        raise Bad('the copy of %s is not over whole elements' % src, i.loc)
                    nm = {f.aname(a) for a in n.t}
                    if n.c != 0 or not (nm and nm <= {src + '._data._size', dst + '._data._size'} or len(n.t) == 1 and list(n.t)[0][0] == 'mul'):
                        raise Bad('only %s entries of %s are copied' % (f.show(n), src), i.loc)
                    return i
    return None


def sparse(f, prog, es, crs):
    """M[r,c] := value of every stored entry, zero elsewhere"""
    k = Kernel(f, lambda mem: es, lambda mem: 1, lambda mem: es == 8 and 'complex' in f.dem)
    ss = [s for s in k.collect(lambda r: r[0] == 'ld' and r[1] == ('arg', 0)) if s.mem.endswith('M._data._data')]
    zero = [s for s in ss if not s.z]
    fills = [c for c in calls(SFunc(f), prog.globals, lambda n: n.startswith('void std::fill'))
             if c.args[0].kind == 'mem' and c.args[0].name == 'M._data._data' and c.args[0].off == Lin(0)]
    setv = [s for s in ss if s.z]
    if len(setv) != 1:
        raise Undecided('%d assignments of entries' % len(setv))
    s = setv[0]
    if not zero and not fills:
        raise Bad('entries that are not stored are not zeroed', s.ins.loc)
    if s.kind != 'assign' or len(s.loops) != 2:
        raise Undecided('shape of the assignment')
    (mono, co), = s.z.items() if len(s.z) == 1 else ((None, None),)
    if mono is None or len(mono) != 1 or co != (Fr(1), Fr(0)):
        raise Bad('the entry stored is not the matrix value', s.ins.loc)
    leaf = mono[0][1] if mono[0][0] == 'real' else mono[0]
    if leaf[0] != 'el' or not leaf[1].endswith('_vals._data'):
        raise Undecided('value')
    (l0, n0), (l1, n1) = s.loops
    i0 = ('it', l0)
    if not (len(n0.t) == 1 and n0.c == 0 and k.f.field_of(('arg', 1), untup(list(n0.t)[0][2]).c or 0) in ('A._psize',) or False):
        nm = None
        a = n0.single() if n0.c == 0 else None
        nm = f.field_of(a[1], untup(a[2]).c) if a and a[0] == 'ld' and a[1][0] == 'arg' else None
        if nm is None:
            raise Undecided('line count')
        if nm not in ('A._psize', 'M._nrows' if crs else 'M._ncols'):
            raise Bad('lines 0..%s are copied' % nm, s.ins.loc)
    off = s.row + s.col
    ind, mul, plain = None, None, Lin(off.c)
    for a, kk in off.t.items():
        if a[0] == 'mul':
            mul = a
        else:
            plain = plain + Lin.atom(a, kk)
    if mul is None:
        raise Undecided('address')
    fac = [untup(x) for x in mul[1:]]
    ld = [x for x in fac if x.single() and x.single()[0] == 'ld' and x.single()[1] == ('arg', 0)
          or x.single() and x.single()[0] == 'ld' and x.single()[1] == ('arg', 1) and untup(x.single()[2]).is_const()]
    if len(ld) != 1:
        raise Undecided('leading dimension')
    other = fac[0] if fac[1] is ld[0] else fac[1]
    nm = f.field_of(ld[0].single()[1], untup(ld[0].single()[2]).c)
    okld = ('M._nrows', 'A._psize') if crs else ('M._nrows', 'A._nrows')
    if nm not in okld:
        raise Bad('columns are %s apart instead of the row count' % nm, s.ins.loc)
    row, col = plain, other
    line, inner = (row, col) if crs else (col, row)
    if line.single() != i0 or line.c:
        raise Bad('the %s addressed is %s instead of the line visited' % ('row' if crs else 'column', f.show(line) if hasattr(f, 'show') else line), s.ins.loc)
    a = inner.single()
    if inner.c or not a or a[0] != 'ld':
        raise Undecided('index')
    return 'M[%s] := stored value' % ('line,ind' if crs else 'ind,line')


def check_factor(rep, rule, prog):
    n = 0
    for f in prog.find(r'^Dense<'):
        m = re.match(r'Dense<(.*)>::(fac|refac|set|sparse)_(\w+)\(', f.dem)
        if not m:
            continue
        n += 1
        cx = 'complex' in m.group(1)
        kind, which = m.group(2), m.group(3)
        T = {'qr': 'QRCP', 'sy': 'SYEIG', 'lu': 'LUP', 'crs': 'DenseMatrix::copy_sparse CRS', 'ccs': 'DenseMatrix::copy_sparse CCS'}[which]
        nm = '%s<%s>' % (T, 'complex' if cx else 'real')

        def go(what, fn):
            try:
                rep.ok(rule, what, fn())
            except Bad as e:
                rep.bad(rule, what, e.msg, e.loc)
            except Undecided as e:
                rep.und(rule, what, e)
        if kind == 'fac':
            go(nm + '::factorize', lambda: {'qr': fac_qr, 'lu': fac_lu, 'sy': fac_sy}[which](Fac(f, prog, {}, 8)))
            if which == 'sy':
                for spd in (1, -1, 0):
                    go('%s::factorize truncation order, spd %d' % (nm, spd),
                       lambda: trunc_order(Fac(f, prog, {'o.spd': spd}, 8), spd, prog))
        elif kind == 'refac':
            def refac():
                i = settle_copy(SFunc(f), 8, 'S._mat', 'S._mat_backup')
                if i is None:
                    raise Undecided('copy of the backup')
                F = Fac(f, prog, {}, 8)
                c = one_call(F, 'geqp3|getrf|syev|heev')
                if not F.f.reaches(i, c.ins) or F.f.reaches(c.ins, i):
                    raise Bad('the backup is not copied before factorizing', c.ins.loc)
                return 'backup copied, then factorized'
            go(nm + '::refactorize', refac)
        elif kind == 'set':
            def setm():
                i = settle_copy(SFunc(f), 8, 'S._mat_backup', 'S._mat')
                if i is None:
                    raise Undecided('copy into the backup')
                return 'backup copied over all entries'
            go(nm + '::set_matrix', setm)
        else:
            go(nm, lambda: sparse(f, prog, 8, which == 'crs'))
    return n
