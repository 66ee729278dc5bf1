"""Specification of the sparse kernels, compared with loop-nest summaries."""
import re
from fractions import Fraction as Fr
from ir import Lin, Undecided, untup, astr
import poly
from kernel import Kernel, nested_its, deep_subst

SIZES = {'double': 8, 'float': 4, 'std::complex<double>': 16, 'std::complex<float>': 8}


class Bad(Exception):
    def __init__(self, msg, loc):
        Exception.__init__(self, msg)
        self.msg, self.loc = msg, loc


def parse(f):
    m = re.match(r'(?:void )?Kern(Range)?<hif::(CRS|CCS)<(std::complex<\w+>|\w+), (\w+), (\w+)>, (std::complex<\w+>|\w+)>::(\w+)', f.dem)
    if not m:
        raise Undecided('cannot read ' + f.dem[:80])
    rng, storage, v, it, ipt, x, fn = m.groups()
    return dict(storage=storage, v=v, x=x, itype=it, fn=fn, cols=3 if 'mrhs' in fn else 1, rng=bool(rng))


class KernCheck:
    def __init__(self, f):
        self.f = f
        p = self.p = parse(f)
        self.cx = 'complex' in p['x']
        self.N = p['cols']
        self.crs = p['storage'] == 'CRS'
        xs, vs = SIZES[p['x']], SIZES[p['v']]
        isz = {'int': 4, 'long': 8}[p['itype']]
        self.isz = isz

        def kind(mem):
            if mem.startswith('%'):
                return 'tmp'
            if mem.startswith('A.'):
                return 'vals' if 'val' in mem else 'other'
            return 'vec'
        self.kind = kind
        # scratch arrays hold the wider of the two types
        sc = max(xs, vs)
        self.k = Kernel(f, lambda m: {'vals': vs, 'vec': xs, 'tmp': sc, 'other': 8}[kind(m)],
                        lambda m: {'vals': 1, 'vec': self.N, 'tmp': 1, 'other': 1}[kind(m)],
                        lambda m: self.cx)

    # header fields of the matrix
    def field_atom(self, a):
        """name of a loaded header field: A._psize, A._ncols, y._size ..."""
        if isinstance(a, tuple) and a[0] == 'ld' and a[1][0] == 'arg':
            off = untup(a[2])
            if off.is_const():
                return self.f.field_of(a[1], off.c)
        return None

    def dim(self, l):
        """canonical name of a size: ('line',c): c + number of lines, ('other',c), or None"""
        l = self.k.reduce(l)
        if len(l.t) != 1:
            return None
        (a, k), = l.t.items()
        if k != 1:
            return None
        n = self.field_atom(a)
        if n is None:
            if a[0] == 'op' and a[1] == 'div':
                return None
            return None
        if n == 'A._psize' or n.endswith('._psize'):
            return ('line', l.c)
        if n in ('A._ncols', 'A._nrows'):
            return ('other', l.c)
        return None

    def isline(self, l, c=0, square=False):
        d = self.dim(l)
        if d is None:
            # reduce() may have renamed psize to another equal quantity
            for nm in ('_psize',) + (('_ncols', '_nrows') if square else ()):
                for a in self.sizes(nm):
                    if self.k.reduce(Lin.atom(a)) + c == self.k.reduce(l):
                        return True
            return False
        if square and d[0] == 'other':
            return d[1] == c
        return d == ('line', c)

    def isother(self, l, c=0):
        d = self.dim(l)
        if d is not None:
            return d == ('other', c)
        for nm in ('_ncols', '_nrows'):
            for a in self.sizes(nm):
                if self.k.reduce(Lin.atom(a)) + c == self.k.reduce(l):
                    return True
        return False

    def sizes(self, nm):
        r = []
        for i in self.f.ins.values():
            if i.op == 'load' and i.get('ty') == 'i64':
                try:
                    a = self.f.load_atom(i)
                except Undecided:
                    continue
                if self.field_atom(a) and self.field_atom(a).endswith(nm):
                    r.append(a)
        return r

    def root_is(self, root, word):
        """data pointer loaded from a matrix field whose name contains word"""
        if root[0] == 'ld' and root[1] == ('arg', 0):
            off = untup(root[2])
            if off.is_const():
                n = self.f.field_of(root[1], off.c) or ''
                return word in n
        return False

    def start_of(self, l):
        """ind_start[r] load -> r (Lin)"""
        a = l.single()
        if a and a[0] == 'ld' and self.root_is(a[1], 'start'):
            q = untup(a[2]).divexact(8)
            return q
        return None

    def index_of(self, l):
        """indices[e] load -> e (Lin)"""
        a = l.single()
        if a and a[0] == 'ld' and self.root_is(a[1], 'ind') and not self.root_is(a[1], 'start'):
            return untup(a[2]).divexact(self.isz)
        return None

    # ---- matching helpers
    def range_of(self, l, loops):
        """(iteration atom, lo, hi, direction) of an index that runs over one loop of the statement"""
        its = [(a, k) for a, k in l.t.items() if a[0] == 'it']
        if len(its) != 1 or abs(its[0][1]) != 1:
            raise Undecided('index %r' % l)
        a, k = its[0]
        d = dict(loops)
        if a[1] not in d:
            raise Undecided('index %r outside its loop' % l)
        cnt = d[a[1]]
        base = l - Lin.atom(a, k)
        if k == 1:
            return a, base, base + cnt, 1
        return a, base - cnt + 1, base + 1, -1

    def cols_ok(self, col, loops, ins):
        if self.N == 1:
            if col != Lin(0):
                raise Undecided('column %r' % col)
            return None
        a, lo, hi, d = self.range_of(col, loops)
        if not (lo.is_const() and hi.is_const()):
            raise Undecided('column range')
        if (lo.c, hi.c) != (0, self.N):
            raise Bad('processes right-hand sides [%d,%d) of %d' % (lo.c, hi.c, self.N), ins.loc)
        return a

    def entry_sum(self, leaf, line, loc):
        """('sum', loop, cnt, mono): the entries of line `line`, each once; returns (V leaf info, X leaf info)"""
        _, lid, cnt, mono = leaf
        return self.entry(mono, lid, untup(cnt), line, loc)

    def split_mono(self, mono):
        V, X = [], []
        for l in mono:
            cj = 0
            if l[0] == 'real':
                l = l[1]
            if l[0] == '~':
                cj, l = 1, l[1]
            if l[0] != 'el':
                raise Undecided('factor %s' % str(l)[:80])
            k = self.kind(l[1])
            (V if k == 'vals' else X).append((l[1], untup(l[2]), untup(l[3]), cj))
        return V, X

    def entry(self, mono, lid, cnt, line, loc):
        V, X = self.split_mono(mono)
        if len(V) != 1 or len(X) != 1:
            raise Bad('a term multiplies %d matrix entries and %d vector entries' % (len(V), len(X)), loc)
        v, x = V[0], X[0]
        e = v[1]
        a, lo, hi, d = self.range_of(e, [(lid, cnt)])
        # sum range over the entries of the line
        self.entry_range(lo, hi, line, loc)
        return v, x, e

    def entry_range(self, lo, hi, line, loc):
        s, t = self.linpos(lo), self.linpos(hi)
        if s is None or t is None:
            raise Undecided('entry range [%r,%r)' % (lo, hi))
        (rs, cs), (rt, ct) = s, t
        if rs == line and rt == line + 1 and cs == 0 and ct == 0:
            return
        raise Bad('visits the entries [%r,%r) instead of all entries of line %r' % (lo, hi, line), loc)

    def linpos(self, l):
        """start[r] + c -> (r, c)"""
        for a, k in l.t.items():
            if k == 1 and len(l.t) == 1:
                r = self.start_of(Lin.atom(a))
                if r is not None:
                    return r, l.c
        return None

    # ---- the kernels
    def ystmts(self, name):
        f = self.f
        ss = self.k.collect(lambda r: r[0] != 'alloca')
        for s in ss:
            if s.mem != name:
                raise Bad('writes into %s' % s.mem, s.ins.loc)
        if not ss:
            raise Undecided('no statement')
        return ss

    def outname(self):
        """vector written: the non-const vector argument"""
        r = []
        for i, a in enumerate(self.f.args):
            if i and a['ty'] == 'ptr':
                r.append(a.get('var') or a['name'])
        nm = r[-1]
        a = [x for x in self.f.args if (x.get('var') or x['name']) == nm][0]
        t = self.f.types.pointee(a['dty'])
        return nm if t['tag'] == 'DW_TAG_base_type' or t['name'].startswith('complex') else nm + '._data', (r[0] if len(r) > 1 else None)

    def vecmem(self, nm):
        a = [x for x in self.f.args if (x.get('var') or x['name']) == nm][0]
        t = self.f.types.pointee(a['dty'])
        return nm if t['tag'] == 'DW_TAG_base_type' or t['name'].startswith('complex') else nm + '._data'

    def check(self):
        fn = self.p['fn']
        if fn.startswith('multiply'):
            tr = fn.endswith('_true') or bool(re.search(r'_t(_low)?$', fn))
            if self.crs != tr:
                self.carried()
            return self.multiply(fn.endswith('_true') or bool(re.search(r'_t(_low)?$', fn)))
        low = 'lower' in fn
        return self.trisolve(low, 'tran' in fn)

    def carried(self):
        """a dot-product kernel: the sum of one row must not start from a value of the previous row"""
        f = self.f
        for l, L in f.loops.items():
            if L['parent'] != -1 or not any(M['parent'] == l for M in f.loops.values()):
                continue
            for i in f.blocks[L['header']]:
                if i.op == 'phi' and i.get('ty') in ('double', 'float', 'x86_fp80'):
                    raise Bad('the value of one row is carried into the next row', i.loc)

    def guards_ok(self, s, counts, what):
        """every condition the statement depends on may only skip it when there is nothing to do"""
        f = self.f
        chain = set(f.loop_chain(s.ins.blk))
        for (b, t) in self.k.guards(s.ins.blk):
            # loop exit tests
            l = f.bloop[b]
            if l in chain and b in f.loops[l]['exiting']:
                continue
            other_exit = False
            br = f.blocks[b][-1]
            if l != -1 and l not in chain:
                raise Undecided('depends on a loop at %s' % br.loc)
            if br.op != 'br' or not br.ops:
                raise Undecided('guard at %s' % br.loc)
            val = f.succ[b][0] == t
            self.guard(br.ops[0], val, counts, br, what)

    def guard(self, v, val, counts, br, what):
        """condition v==val is needed; OK when v!=val implies that one of the counts is <= 0"""
        i = self.f.ins.get(v)
        if i is None:
            raise Undecided('guard at %s' % br.loc)
        if i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
            return self.guard(i.ops[0], not val, counts, br, what)
        if i.op == 'call' and (i.get('callee') or '').startswith('llvm.expect'):
            return self.guard(i.ops[0], val, counts, br, what)
        if i.op == 'and' and val or i.op == 'or' and not val:
            for o in i.ops:
                self.guard(o, val, counts, br, what)
            return
        if i.op == 'select' and val and i.ops[2] == 'c:0':
            self.guard(i.ops[0], val, counts, br, what)
            return self.guard(i.ops[1], val, counts, br, what)
        if i.op == 'select' and not val and i.ops[1] in ('c:1', 'c:-1'):
            self.guard(i.ops[0], val, counts, br, what)
            return self.guard(i.ops[2], val, counts, br, what)
        if i.op != 'icmp':
            raise Undecided('guard %s at %s' % (i.op, br.loc))
        p = i.get('pred')
        try:
            d = self.k.reduce(self.f.lin(i.ops[0]) - self.f.lin(i.ops[1]))
        except Undecided:
            raise Undecided('guard at %s' % br.loc)
        if i.ops[1] == 'null':
            raise Undecided('pointer guard at %s' % br.loc)
        # condition under which the statement is skipped
        neg = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'slt': 'uge', 'ule': 'ugt', 'sle': 'ugt', 'ugt': 'ule', 'sgt': 'ule', 'uge': 'ult', 'sge': 'ult'}
        p = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}.get(p, p)
        skip = neg[p] if val else p
        if d.is_const():
            return
        cs = [self.k.reduce(c) for c in counts if isinstance(c, Lin)]
        for c in cs:
            if skip in ('eq', 'ule') and not c.c and not d.c and set(c.t) == set(d.t) and len(c.t) == 1 and all(v > 0 for v in c.t.values()) and (skip == 'eq' or all(v > 0 for v in d.t.values())):
                return
            if skip == 'eq' and (c == d or c == d.scale(-1) or (not (c - d).t and (c - d).c <= 0) or (not (c + d).t and (c + d).c <= 0)):
                return
            if skip in ('ult', 'ule') and not (c - d).t and (c - d).c <= (1 if skip == 'ult' else 0):
                return      # d <= 0 (or < 0) implies c <= 0
            if skip in ('ugt', 'uge') and not (c + d).t and (c + d).c <= (1 if skip == 'ugt' else 0):
                return
        if what == 'the accumulation' and skip == 'eq' and (self.isline(d) or self.isother(d)):
            return      # a matrix without rows or without columns has no entries
        if any(nested_its(d)):
            raise Undecided('data dependent guard at %s' % br.loc)
        raise Bad('%s is skipped when %r %s 0' % (what, d, {'eq': '=='}.get(skip, skip)), br.loc)

    def line_range(self, l, s):
        a, lo, hi, d = self.range_of(l, s.loops)
        return a, lo, hi, d

    def check_full_lines(self, lo, hi, loc, square=False):
        if self.p['rng']:
            st = [Lin.atom(('arg', i)) for i, a in enumerate(self.f.args) if (a.get('var') or '') in ('istart',)]
            ln = [Lin.atom(('arg', i)) for i, a in enumerate(self.f.args) if (a.get('var') or '') in ('len',)]
            if st and ln and lo == st[0] and hi == st[0] + ln[0]:
                return
            raise Bad('covers rows [%r,%r) instead of [istart,istart+len)' % (lo, hi), loc)
        if lo == Lin(0) and self.isline(hi, 0, square):
            return
        if self.known(lo) and self.known(hi):
            raise Bad('covers lines [%s,%s) instead of all lines of the matrix' % (self.nice(lo), self.nice(hi)), loc)
        raise Undecided('line range [%r,%r)' % (lo, hi))

    def known(self, l):
        l = self.k.reduce(l)
        return l.is_const() or (len(l.t) == 1 and all(self.field_atom(a) for a in l.t))

    def nice(self, l):
        s = []
        for a, k in l.t.items():
            s.append(('%d*' % k if k != 1 else '') + (self.field_atom(a) or astr(a)))
        if l.c or not s:
            s.append(str(l.c))
        return '+'.join(s)

    def multiply(self, tran):
        out, inp = self.outname()
        inp = self.vecmem(inp)
        ss = self.ystmts(out)
        gather = self.crs != tran
        want_cj = 1 if tran and self.cx else 0
        if gather:
            z = None
            main = [s for s in ss if s.kind == 'assign']
            upd = [s for s in ss if s.kind == 'update']
            if not main:
                raise Bad('the output is accumulated into without being initialised', ss[0].ins.loc)
            # assignments must each cover lines; fold in-place accumulation
            if len(main) == 1 and not upd:
                s = main[0]
                colit = self.cols_ok(s.col, s.loops, s.ins)
                a, lo, hi, d = self.line_range(s.row, s)
                self.check_full_lines(lo, hi, s.ins.loc)
                self.guards_ok(s, [c for _, c in s.loops], 'the output')
                self.gather_value(s.z, s.row, s.col, inp, want_cj, 1, s.ins.loc)
                return 1
            if len(main) == 1 and len(upd) == 1 and not main[0].z:
                return self.accumulate(main[0], upd[0], inp, want_cj)
            raise Undecided('several output statements')
        # scatter: fill then update
        fills = [s for s in ss if s.kind == 'assign']
        upd = [s for s in ss if s.kind == 'update']
        if len(upd) != 1:
            raise Undecided('%d update statements' % len(upd))
        if not fills:
            raise Bad('the output is accumulated into without being initialised', upd[0].ins.loc)
        if len(fills) != 1:
            raise Undecided('several fills')
        fl, u = fills[0], upd[0]
        if fl.z:
            raise Bad('the output is initialised with %s instead of zero' % poly.pstr(fl.z), fl.ins.loc)
        if fl.order > u.order:
            raise Bad('the output is reset after the accumulation', fl.ins.loc)
        n = self.flat_range(fl)
        fc = n
        if not self.isother(fc):
            if self.known(fc):
                raise Bad('initialises %s output rows instead of all' % self.nice(fc), fl.ins.loc)
            raise Undecided('fill range %r' % fc)
        self.guards_ok(fl, [c for _, c in fl.loops], 'resetting the output')
        self.scatter(u, inp, want_cj, 1)
        return 1

    def flat_range(self, fl):
        """number of rows covered by a fill starting at row 0"""
        idx = fl.row.scale(self.N) + fl.col
        its = [(a, k) for a, k in idx.t.items() if a[0] == 'it']
        d = dict(fl.loops)
        if len(its) == 1 and its[0][1] in (1, -1):
            a, lo, hi, dr = self.range_of(idx, fl.loops)
            if lo != Lin(0):
                raise Bad('the initialisation starts at element %r' % lo, fl.ins.loc)
            n = hi.divexact(self.N)
            if n is None:
                raise Bad('the initialisation covers %r elements of %d per row' % (hi, self.N), fl.ins.loc)
            return n
        a, lo, hi, dr = self.range_of(fl.row, fl.loops)
        self.cols_ok(fl.col, fl.loops, fl.ins)
        if lo != Lin(0):
            raise Bad('the initialisation starts at row %r' % lo, fl.ins.loc)
        return hi

    def accumulate(self, ini, u, inp, want_cj):
        # y[i]=0 ... y[i] += V*x within the same line loop, or whole-vector reset before the loops
        a, lo, hi, d = self.line_range(u.row, u)
        self.check_full_lines(lo, hi, u.ins.loc)
        self.cols_ok(u.col, u.loops, u.ins)
        if ini.order > u.order:
            raise Bad('the output is reset after the accumulation', ini.ins.loc)
        if a not in [('it', l) for l, _ in ini.loops]:
            n = self.flat_range(ini)
            if not self.isline(n):
                if self.known(n):
                    raise Bad('initialises %s output rows instead of all' % self.nice(n), ini.ins.loc)
                raise Undecided('fill range %r' % n)
        else:
            self.cols_ok(ini.col, ini.loops, ini.ins)
            if ini.row != u.row:
                raise Undecided('reset row %r vs %r' % (ini.row, u.row))
        self.guards_ok(ini, [c for _, c in ini.loops], 'resetting the output')
        self.guards_ok(u, [c for _, c in u.loops], 'the accumulation')
        ent = self.entry_loop(u, a)
        for mono, c in u.z.items():
            v, x, e = self.entry(mono, ent[0], ent[1], u.row, u.ins.loc)
            self.factor(v, x, e, c, u.col, inp, want_cj, 1, None, u.ins.loc)
        if len(u.z) != 1:
            raise Undecided('%d terms' % len(u.z))
        return 1

    def entry_loop(self, u, lineit):
        colits = {a for a in u.col.t if a[0] == 'it'}
        r = [(l, c) for l, c in u.loops if ('it', l) != lineit and ('it', l) not in colits]
        if len(r) != 1:
            raise Undecided('loops %s' % (r,))
        return r[0]

    def factor(self, v, x, e, c, col, inp, want_cj, sign, xrow, loc):
        """one term sign*V*x[xrow or index(e)]"""
        if c != (Fr(sign), Fr(0)):
            raise Bad('the term has coefficient %s instead of %d' % (c[0] if not c[1] else c, sign), loc)
        if self.cx and v[3] != want_cj:
            raise Bad('matrix entries are %sconjugated' % ('' if v[3] else 'not '), loc)
        if x[3]:
            raise Bad('the vector is conjugated', loc)
        if x[0] != inp:
            raise Bad('reads %s instead of %s' % (x[0], inp), loc)
        if x[2] != col:
            raise Bad('right-hand side %r is computed from right-hand side %r' % (col, x[2]), loc)
        if xrow is None:
            ix = self.index_of(x[1])
            if ix is None:
                raise Undecided('vector index %r at %s' % (x[1], loc))
            if ix != e:
                raise Bad('entry %r is multiplied with the vector element of entry %r' % (e, ix), loc)
        elif x[1] != xrow:
            raise Bad('the vector element %r is used on line %r' % (x[1], xrow), loc)

    def gather_value(self, z, row, col, inp, want_cj, sign, loc):
        if not z:
            raise Bad('the output is only zero', loc)
        for mono, c in z.items():
            ls = [self.k.unreal(l) for l in mono]
            if len(ls) == 1 and ls[0][0] == 'sum':
                v, x, e = self.entry_sum(ls[0], row, loc)
                self.factor(v, x, e, c, col, inp, want_cj, sign, None, loc)
            else:
                raise Bad('the output has the term %s outside the sum over the entries' % poly.pstr({mono: c})[:200], loc)
        if len(z) != 1:
            raise Undecided('%d sums' % len(z))

    def scatter(self, u, inp, want_cj, sign):
        colit = self.cols_ok(u.col, u.loops, u.ins)
        e = self.index_of(u.row)
        if e is None:
            raise Undecided('target row %r at %s' % (u.row, u.ins.loc))
        if len(u.z) != 1:
            raise Undecided('%d terms' % len(u.z))
        (mono, c), = u.z.items()
        V, X = self.split_mono(mono)
        if len(V) != 1 or len(X) != 1:
            raise Bad('a term multiplies %d matrix entries and %d vector entries' % (len(V), len(X)), u.ins.loc)
        line = X[0][1]
        if self.index_of(line) is not None:
            raise Bad('both vector elements are addressed by the entry index', u.ins.loc)
        a, lo, hi, d = self.line_range(line, u)
        ent = self.entry_loop(u, a)
        v, x, e2 = self.entry(mono, ent[0], ent[1], line, u.ins.loc)
        if e2 != e:
            raise Bad('entry %r is added to the row of entry %r' % (e2, e), u.ins.loc)
        self.factor(v, x, e2, c, u.col, inp, want_cj, sign, line, u.ins.loc)
        if sign == 1:
            self.check_full_lines(lo, hi, u.ins.loc)
        self.guards_ok(u, [c2 for _, c2 in u.loops], 'the accumulation')
        return lo, hi, d

    def trisolve(self, low, tran):
        out, _ = self.outname()
        ss = self.ystmts(out)
        if len(ss) != 1 or ss[0].kind != 'update':
            asg = [s for s in ss if s.kind == 'assign']
            raise Undecided('%d statements (%d overwriting)' % (len(ss), len(asg)))
        s = ss[0]
        gather = self.crs != tran
        want_cj = 1 if tran and self.cx else 0
        if gather:
            self.cols_ok(s.col, s.loops, s.ins)
            if self.index_of(s.row) is not None:
                raise Undecided('scatter form where a gather was expected')
            a, lo, hi, d = self.line_range(s.row, s)
            its = [l for l, _ in s.loops if ('it', l) != a and not (self.N > 1 and ('it', l) in s.col.t)]
            if its:
                # accumulated directly in memory
                ent = self.entry_loop(s, a)
                for mono, c in s.z.items():
                    v, x, e = self.entry(mono, ent[0], ent[1], s.row, s.ins.loc)
                    self.factor(v, x, e, c, s.col, out, want_cj, -1, None, s.ins.loc)
            else:
                self.gather_value(s.z, s.row, s.col, out, want_cj, -1, s.ins.loc)
            self.guards_ok(s, [c2 for _, c2 in s.loops], 'the update')
        else:
            lo, hi, d = self.scatter(s, out, want_cj, -1)
        want_dir = 1 if low != tran else -1
        if d != want_dir:
            raise Bad('lines are processed in %s order, substitution needs %s' % (('ascending' if d == 1 else 'descending'), ('ascending' if want_dir == 1 else 'descending')), s.ins.loc)
        # lines that may hold entries of a strict triangle
        first_empty = low == self.crs       # line 0 is empty for CRS lower and CCS upper
        okl = lo == Lin(0) or (first_empty and lo == Lin(1))
        okh = self.isline(hi, 0, True) or (not first_empty and self.isline(hi, -1, True))
        if okl and okh:
            return 1
        if self.known(lo) and self.known(hi):
            raise Bad('processes lines [%s,%s) only' % (self.nice(lo), self.nice(hi)), s.ins.loc)
        raise Undecided('line range [%r,%r)' % (lo, hi))


def run(rep, rule, prog, select=None):
    n = 0
    for f in prog.functions:
        try:
            p = parse(f)
        except Undecided:
            continue
        if select and not select(p):
            continue
        what = '%s<%s>::%s%s [%s]' % (p['storage'], p['v'], p['fn'], ' (range)' if p['rng'] else '', p['x'])
        n += 1
        try:
            kc = KernCheck(f)
            kc.check()
            rep.ok(rule, what)
        except Bad as e:
            rep.bad(rule, what, e.msg, e.loc)
        except Undecided as e:
            rep.und(rule, what, e)
        except RecursionError:
            rep.und(rule, what, 'recursion limit')
        except Exception as e:
            import traceback
            if __import__('os').environ.get('VT_DEBUG'):
                traceback.print_exc()
            rep.und(rule, what, 'internal: %s %s' % (type(e).__name__, e))
    return n
