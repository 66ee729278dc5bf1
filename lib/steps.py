"""Rules of the elimination kernels: what each floating-point store of a Crout step, of the Schur complement and of the
extraction of the blocks has to compute, over which range of entries, and under which conditions."""
import os
import re
import poly
import vt
import verb
from elem import Elem
from ir import Lin, Undecided, untup

NIL = (-1, 2 ** 63 - 1, 2 ** 64 - 1, 2 ** 32 - 1, 2 ** 31 - 1)


class Bad(Exception):
    def __init__(self, msg, ins=None):
        super().__init__(msg)
        self.ins = ins


def at(m, *ls):
    r = Lin(0)
    for l in ls:
        r = r + l
    return Lin.atom(('at', m, r.tup()))


def fld(n):
    return Lin.atom(('fld', n))


def arg(n):
    return Lin.atom(('arg', n))


STEP, DEF = fld('this._step'), fld('this._defers')
KSTEP = STEP + DEF
NSTEP = Lin(0) - STEP


class Fn:
    """one kernel with named arguments"""

    def __init__(self, f, names, cx):
        self.f = f
        self.names = names
        roles = {k: n for k, n in enumerate(names)}
        self.E = Elem(f, roles, [n for n in names if n in cx] if cx else ())
        self.stmts = None
        self.own = set()

    def collect(self):
        if self.stmts is None:
            self.stmts = self.E.collect()
        return self.stmts

    # ---- terms
    def term(self, v):
        """canonical value of a scalar or pointer operand; pointers are byte offsets into a named array"""
        f, E = self.f, self.E
        if f.isptr(v):
            root, off = E.norm(*f.addr(v))
            return Lin.atom(('ptr', E.mem(root))) + E.canon(off)
        return E.canon(f.lin(v))

    def arg_is(self, v, name):
        """operand v is (the address of, or the value of) the named argument"""
        f, E = self.f, self.E
        try:
            if f.isptr(v):
                root, off = E.norm(*f.addr(v))
                if root[0] == 'alloca':
                    st = [s for s in f.ins.values() if s.op == 'store' and s.ops[1] == root[1]]
                    return len(st) == 1 and self.arg_is(st[0].ops[0], name)
                return E.mem(root) == name and off == Lin(0)
            return E.canon(f.lin(v)) in (arg(name), at(name, Lin(0)))
        except Undecided:
            return None

    # ---- conditions
    def cond(self, v, val, out):
        f = self.f
        i = f.ins.get(v)
        if i is None:
            out.append(('?', v, None))
        elif i.op == 'icmp':
            p = i.get('pred')
            try:
                x, y = self.term(i.ops[0]), self.term(i.ops[1])
                if f.isptr(i.ops[0]) and any(isinstance(a, tuple) and a[0] == 'ptr' for a in (x - y).t):
                    raise Undecided('pointers into different arrays')
            except Undecided:
                out.append(('?', v, i))
                return
            if not val:
                p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'slt': 'sge', 'ule': 'ugt', 'sle': 'sgt', 'ugt': 'ule', 'sgt': 'sle', 'uge': 'ult', 'sge': 'slt'}[p]
            k = p[-2:]
            d = x - y
            if k in ('gt', 'ge'):
                d = y - x
                k = {'gt': 'lt', 'ge': 'le'}[k]
            if f.isptr(i.ops[0]):
                d = divall(d)
            out.append((k, d, i))
        elif i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
            self.cond(i.ops[0], not val, out)
        elif i.op == 'and' and val or i.op == 'or' and not val:
            for o in i.ops:
                self.cond(o, val, out)
        elif i.op == 'select' and not val and i.ops[1] in ('c:1', 'c:-1'):
            self.cond(i.ops[0], val, out)
            self.cond(i.ops[2], val, out)
        elif i.op == 'select' and val and i.ops[2] == 'c:0':
            self.cond(i.ops[0], val, out)
            self.cond(i.ops[1], val, out)
        elif i.op in ('call', 'invoke'):
            out.append(('call', val, i))
        elif i.op in ('freeze', 'trunc', 'zext') and i.ops[0] in f.ins:
            self.cond(i.ops[0], val, out)
        elif i.op == 'phi':
            xs = set()
            for o, b in zip(i.ops, i.get('from') or ()):
                xs.add(o)
            # short-circuit and / or lowered to a phi with constants
            cs = [o for o in i.ops if o in ('c:0', 'c:1', 'c:-1')]
            rest = [(o, int(str(b).lstrip('b'))) for o, b in zip(i.ops, i.get('from') or ()) if o not in ('c:0', 'c:1', 'c:-1')]
            if len(rest) == 1 and cs and all((c != 'c:0') != val for c in cs):
                for g in self.edge(rest[0][1], i.blk):
                    out.append(g)
                self.cond(rest[0][0], val, out)
            else:
                out.append(('?', v, i))
        else:
            out.append(('?', v, i))

    def edge(self, a, s):
        br = self.f.blocks[a][-1]
        out = []
        if br.op == 'br' and len(self.f.succ[a]) == 2 and br.ops and self.f.succ[a][0] != self.f.succ[a][1]:
            self.cond(br.ops[0], self.f.succ[a][0] == s, out)
        elif len(self.f.succ[a]) > 1:
            out.append(('?', None, br))
        return out

    def conds(self, blk, within=None):
        """conditions under which a block runs, without those that only continue an enclosing loop"""
        f = self.f
        chain = f.loop_chain(blk)
        out = []
        for a, s in self.E.guards(blk):
            if any(a in f.loops[l]['exiting'] and s in f.loops[l]['blocks'] and f.loop_chain(a) and len(f.loops[l]['exiting']) == 1 for l in chain):
                continue
            if any(a in f.loops[l]['exiting'] and s not in f.loops[l]['blocks'] for l in f.loop_chain(a)):
                continue
            out += self.edge(a, s)
        return [c for c in out if not self.vacuous(c)]

    @staticmethod
    def vacuous(c):
        return c[0] in ('eq', 'le') and c[1] == Lin(0)

    # ---- loops
    def loop_of(self, l):
        """ids of the loops a term depends on"""
        out = set()

        def go(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'it':
                    out.add(x[1])
                else:
                    for y in x:
                        go(y)
        go(l.tup())
        return out

    def count(self, lid, blk):
        """number of executions of a block of the loop (not under further conditions)"""
        f = self.f
        L = f.loops[lid]
        ex = [e for e in L['exiting'] if any(s not in L['blocks'] and not self.E.dead(s) for s in f.succ[e])]
        if len(ex) != 1:
            raise Undecided('loop with several exits')
        e = ex[0]
        stay = [s for s in f.succ[e] if s in L['blocks']]
        if len(stay) != 1:
            raise Undecided('exit of loop %s' % lid)
        cs = self.edge(e, stay[0])
        if len(cs) != 1 or cs[0][0] not in ('ne', 'lt', 'le', 'eq'):
            raise Undecided('exit condition of loop %s' % lid)
        k, d, i = cs[0]
        it = ('it', lid)
        c = d.t.get(it, 0)
        base = d - Lin.atom(it, c) if c else d
        if not c or lid in self.loop_of(base):
            raise Undecided('exit condition of loop %s' % lid)
        if k == 'eq':
            raise Undecided('exit condition of loop %s' % lid)
        if k == 'le':
            base = base - 1
        n = (Lin(0) - base).divexact(c)
        if n is None or (k != 'ne' and c < 0):
            raise Undecided('exit condition of loop %s' % lid)
        n = n if blk != e and f.dom(e, blk) else n + 1
        for a in list(n.t):
            if isinstance(a, tuple) and a[0] == 'max' and len(a) == 3 and n.t[a] == 1:
                rest = n - Lin.atom(a)
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if rest + untup(x) == Lin(0):
                        return rest + untup(y)
        return n

    def bal(self, l):
        return Bad if self.clean(l) else Undecided

    def clean(self, l):
        """every atom is one the rules know"""
        ok = [True]

        def go(x):
            if isinstance(x, tuple) and x:
                if x in self.own:
                    return
                if x[0] in ('v', 'op', 'ld', 'cyc', 'phi', 'mul', 'div', 'max', 'min', 'sel'):
                    ok[0] = False
                for y in x:
                    go(y)
        go(l.tup() if isinstance(l, Lin) else l)
        return ok[0]

    def require(self, got, want, what, ins):
        if got != want:
            raise self.bal(got)('%s is %s instead of %s' % (what, self.E.txt(got), self.E.txt(want)), *([ins] if self.clean(got) else []))


def divall(d):
    ks = [abs(k) for k in d.t.values()] + ([abs(d.c)] if d.c else [])
    if not ks:
        return d
    import math
    g = math.gcd(*ks)
    r = Lin(d.c // g)
    for a, k in d.t.items():
        r = r + Lin.atom(a, k // g)
    return r


def leaves(z):
    """single monomial: (coefficient, [(kind, mem, row)])"""
    if len(z) != 1:
        return None
    (m, c), = z.items()
    out = []
    for l in m:
        kind = ''
        while isinstance(l, tuple) and l[0] in ('real', '~'):
            if l[0] == '~':
                kind = '~'
            l = l[1]
        if not (isinstance(l, tuple) and l[0] == 'el'):
            return None
        if untup(l[3]) != Lin(0):
            return None
        out.append((kind, l[1], untup(l[2])))
    return c, out


def product(F, x, own, other, D, node, start, conj=False, first_ok=False):
    """x -= other(node) * D * own(:), for the nodes of a linked list.  node: ('list', name, startname) or ('aug',)"""
    E = F.E
    st = [s for s in F.collect() if s.mem == x + '.vals()' and not any(l[1] == 'A._vals' for l in (leaves(s.z) or (0, ()))[1])]
    if len(st) != 2 or {s.kind for s in st} != {'assign', 'update'}:
        if st and all(s.kind == 'assign' for s in st):
            raise Bad('the products overwrite the entries of %s instead of being subtracted from them' % x, st[0].ins)
        raise Undecided('%d product statements' % len(st))
    out = []
    cur = None
    for s in st:
        what = 'the %s product' % ('first' if s.kind == 'assign' else 'accumulated')
        lv = leaves(s.z)
        if lv is None:
            raise Undecided('%s is not a single product' % what)
        c, ls = lv
        if sorted(m for _, m, _ in ls) != sorted([own + '._vals', other + '._vals', D]):
            raise Bad('%s is %s, not entry of %s times diagonal times entry of %s' % (what, E.ptxt(s.z), other, own), s.ins)
        if (c[0], c[1]) != (-1, 0):
            raise Bad('%s has factor %s instead of -1' % (what, c[0] if not c[1] else c), s.ins)
        dk, _, ci = [l for l in ls if l[1] == D][0]
        vs = [l for l in ls if l[1] != D]
        op = [l for l in vs if l[1] == own + '._vals' and F.loop_of(l[2])]
        ot = [l for l in vs if l not in op]
        if len(op) != 1 or len(ot) != 1 or ot[0][1] != other + '._vals':
            raise Undecided('factors of %s' % what)
        op, ot = op[0], ot[0]
        if dk or op[0] or (ot[0] == '~') != conj:
            raise Bad('%s conjugates %s' % (what, 'no factor' if conj and not ot[0] else 'a wrong factor'), s.ins)
        # the node
        if node[0] == 'list':
            base = at(other + '._ind_start', ci) + at(node[2], ci)
            cur = ci
        else:
            if len(ot[2].t) != 1 or list(ot[2].t)[0][0] != 'at' or list(ot[2].t)[0][1] != other + '._val_pos':
                raise F.bal(ot[2])('the entry of %s of %s is at %s' % (other, what, E.txt(ot[2])), *([s.ins] if F.clean(ot[2]) else []))
            n = untup(list(ot[2].t)[0][2])
            F.require(ci, at(other + '._node_inds', n), 'the index of the diagonal entry in %s' % what, s.ins)
            base = ot[2]
            cur = n
        F.require(ot[2], base, 'the position of the entry of %s in %s' % (other, what), s.ins)
        if not (len(cur.t) == 1 and cur.c == 0 and list(cur.t)[0][0] == 'deref'):
            raise Undecided('the list cursor of %s' % what)
        # own entry and target row
        F.require(s.row, at(own + '._indices', op[2]), 'the row updated by %s' % what, s.ins)
        b0 = at(own + '._ind_start', ci) + at(start, ci)
        rng(F, op[2], b0, at(own + '._ind_start', ci + 1), s, what, first_ok, own)
        # condition
        pb = [c for c in F.conds(s.ins.blk) if c[0] == 'call']
        if len(pb) != 1 or 'push_back' not in (pb[0][2].get('cdem') or ''):
            raise Undecided('condition of %s' % what)
        if pb[0][1] != (s.kind == 'assign'):
            raise Bad('%s happens when the entry %s' % (what, 'already exists' if s.kind == 'assign' else 'is new'), s.ins)
        pushargs(F, pb[0][2], x, s.row)
        out.append(('product', '%s of %s' % (s.kind, x), s.ins, E.ptxt(s.z)[:200]))
    # the list
    ph = F.f.ins[list(cur.t)[0][1]]
    links(F, ph, node, other, cur)
    out.append(('list', 'nodes of %s at this step' % (node[1] if node[0] == 'list' else other), ph, 'first, next and end of the list'))
    extra = [c for s in st for c in F.conds(s.ins.blk) if not known_guard(F, c, cur, KSTEP)]
    if extra:
        raise Undecided('condition of the products: %s' % (extra[0],))
    return out


def known_guard(F, c, cur, k):
    if c[0] == 'call' and 'push_back' in (c[2].get('cdem') or ''):
        return True
    if c[0] in ('ne', 'eq', 'lt', 'le'):
        if c[0] == 'ne' and c[1] in (STEP, NSTEP):
            return True
        if c[0] == 'lt' and c[1] == NSTEP:
            return True
        if c[0] == 'ne' and any(c[1] in (cur - n, Lin(n) - cur) for n in NIL):
            return True
        if any(isinstance(a, tuple) and a[0] == 'at' and a[1].endswith('._indices') for a in c[1].t):
            return True
        # leading block symmetric only: nothing to do when there is no row behind it
        if c[0] in ('ne', 'eq') and set(c[1].t) <= {('fld', 'this._defers'), ('arg', 'm'), ('fld', 'A._psize'), ('fld', 'A._nrows')}:
            return True
    return False


def rng(F, p, base, end, s, what, first_ok, own):
    E = F.E
    d = p - base
    lids = [a[1] for a in d.t if isinstance(a, tuple) and a[0] == 'it']
    if len(lids) != 1 or d.t[('it', lids[0])] != 1:
        raise F.bal(p)('%s takes the entry of %s at %s, not one of those from %s on' % (what, own, E.txt(p), E.txt(base)), *([s.ins] if F.clean(p) else []))
    lid = lids[0]
    sk = d - Lin.atom(('it', lid))
    kind = 'none'
    if sk.t or sk.c:
        kind = skip(F, sk, base, end, own, s, what)
    if kind == 'none':
        # excluded inside the loop?
        ex = [c for c in F.conds(s.ins.blk) if c[0] == 'ne' and c[1] in (at(own + '._indices', p) - KSTEP, KSTEP - at(own + '._indices', p))]
        ex += [c for c in F.conds(s.ins.blk) if c[0] == 'lt' and c[1] == KSTEP - at(own + '._indices', p)]
        if not ex:
            raise Bad('%s includes the entry of %s in the row or column of this step itself' % (what, own), s.ins)
    elif kind == 'first' and not first_ok:
        raise Bad('%s skips the first remaining entry of %s whatever its index is' % (what, own), s.ins)
    n = F.count(lid, s.ins.blk)
    F.require(base + sk + n, end, 'the end of the entries of %s in %s' % (own, what), s.ins)


def skip(F, sk, base, end, own, s, what):
    E, f = F.E, F.f
    if sk.c or len(sk.t) != 1 or list(sk.t.values()) != [1]:
        raise F.bal(sk)('%s starts at an offset of %s' % (what, E.txt(sk)), *([s.ins] if F.clean(sk) else []))
    a = list(sk.t)[0]
    if a[0] == 'ph':
        b = a[1]
        preds = sorted(f.pred[b])
        inb = set(map(str, F.conds(b)))
        yes = [p for p, k in zip(preds, a[2]) if k == 1]
        no = [p for p, k in zip(preds, a[2]) if k == 0]
        if len(yes) != 1 or len(yes) + len(no) != len(preds):
            raise Undecided('start of %s' % what)
        cs = F.conds(yes[0]) + F.edge(yes[0], b)
        cs = [c for c in cs if str(c) not in inb]
    elif a[0] == 'v' and a[1] in f.ins and f.ins[a[1]].op in ('zext', 'select', 'icmp'):
        i = f.ins[a[1]]
        if i.op == 'select' and (i.ops[1] != 'c:1' or i.ops[2] != 'c:0'):
            raise Undecided('start of %s' % what)
        cs = []
        F.cond(i.id if i.op == 'icmp' else i.ops[0], True, cs)
    else:
        raise Undecided('start of %s' % what)
    ne = [c for c in cs if c[0] in ('ne', 'lt') and c[1] in (divall(base - end), divall(end - base))]
    idx = at(own + '._indices', base)
    eq = [c for c in cs if c[0] == 'eq' and c[1] in (idx - KSTEP, KSTEP - idx)]
    other = [c for c in cs if c not in ne and c not in eq]
    if other:
        if other[0][0] != '?' and F.clean(other[0][1]):
            raise Bad('%s skips its first entry under a condition other than that its index is that of this step' % what, other[0][2])
        raise Undecided('start of %s: %s' % (what, other[0]))
    if not ne:
        raise Bad('%s skips an entry without checking that there is one' % what, s.ins)
    return 'diag' if eq else 'first'


def pushargs(F, call, x, row):
    f, E = F.f, F.E
    if len(call.ops) < 3:
        raise Undecided('arguments of push_back')
    if F.arg_is(call.ops[0], x) is False:
        raise Bad('an index is recorded in another vector than %s' % x, call)
    r = E.canon(f.lin(call.ops[1])) if not f.isptr(call.ops[1]) else None
    if r is not None:
        F.require(r, row, 'the index recorded for the entry', call)
    t = None
    try:
        t = F.term(call.ops[2])
    except Undecided:
        pass
    if t is not None and f.isptr(call.ops[2]):
        if t != Lin.atom(('ptr', 'this')) + Lin(0):
            raise (Bad if F.clean(t) else Undecided)('the tag of the recorded index is not the step', *([call] if F.clean(t) else []))
    elif t is not None:
        F.require(t, STEP, 'the tag of the recorded index', call)


def links(F, ph, node, other, cur):
    f, E = F.f, F.E
    if ph.op != 'phi':
        raise Undecided('list cursor')
    L = f.bloop[ph.blk]
    first, nxt = None, None
    # cur = load of ph?  ('deref', id): value read through the pointer phi id
    for o, b in zip(ph.ops, [int(str(x).lstrip('b')) for x in ph.get('from')]):
        root, off = E.norm(*f.addr(o))
        t = (E.mem(root), E.canon(off))
        if f.loops[L]['header'] == ph.blk and b in f.loops[L]['blocks']:
            nxt = t
        else:
            first = t
    if first is None or nxt is None:
        raise Undecided('list cursor')
    m0, m1 = (node[1], node[1]) if node[0] == 'list' else (other + '._node_start', other + '._node_next')
    w0, w1 = (4, 4) if node[0] == 'list' else (8, 8)
    for (m, o), wm, wo, w, nm in ((first, m0, KSTEP, w0, 'first'), (nxt, m1, cur, w1, 'next')):
        if m != wm:
            raise Bad('the %s node of the list is read from %s instead of %s' % (nm, m, wm), ph)
        q = o.divexact(w)
        if q is None:
            raise Undecided('stride of the list')
        q = default(F, q)
        F.require(q, wo, 'the position of the %s node of the list' % nm, ph)
    # runs until nil
    ex = [e for e in f.loops[L]['exiting'] if any(s not in f.loops[L]['blocks'] and not E.dead(s) for s in f.succ[e])]
    if len(ex) != 1:
        if len(ex) > 1:
            raise Undecided('the walk over the list has several exits')
        raise Undecided('exit of the list')
    stay = [s for s in f.succ[ex[0]] if s in f.loops[L]['blocks']]
    cs = F.edge(ex[0], stay[0]) if len(stay) == 1 else []
    if len(cs) != 1:
        raise Undecided('exit of the list')
    k, d, i = cs[0]
    if not (k == 'ne' and (any(d in (cur - n, Lin(n) - cur) for n in NIL))):
        if k != '?' and F.clean(d):
            raise Bad('the walk over the list stops before its end', i)
        raise Undecided('exit of the list: %s' % (cs[0],))


def default(F, q):
    """the position given by the caller, or else the default: the default"""
    a = list(q.t)
    if len(a) == 1 and a[0][0] == 'v' and a[0][1] in F.f.ins and not q.c and q.t[a[0]] == 1:
        i = F.f.ins[a[0][1]]
        if i.op == 'select':
            cs = []
            F.cond(i.ops[0], True, cs)
            if len(cs) == 1 and cs[0][0] in ('eq', 'ne'):
                x, y = (i.ops[1], i.ops[2]) if cs[0][0] == 'eq' else (i.ops[2], i.ops[1])
                yt = F.term(y)
                if cs[0][1] in (yt, Lin(0) - yt):
                    return F.term(x)
    return q


def loadcall(F, pat, want, symm=False):
    """the entries of A are loaded by a call with the right arguments before anything else"""
    f, E = F.f, F.E
    cs = [i for i in f.ins.values() if i.op in ('call', 'invoke') and re.search(pat, i.get('cdem') or '') and not E.dead(i.blk)]
    if len(cs) != 1:
        raise Undecided('%d calls of the loading function' % len(cs))
    c = cs[0]
    if len(c.ops) < len(want):
        raise Undecided('arguments of the loading function')
    for k, n in enumerate(want):
        if n == '-':
            continue
        r = F.arg_is(c.ops[k], n)
        if r is None:
            raise Undecided('argument %d of the loading function' % k)
        if not r:
            raise Bad('argument %d of the loading function is not %s' % (k + 1, n), c)
    rs = [i for i in f.ins.values() if i.op in ('call', 'invoke') and re.search(r'::reset_counter\(', i.get('cdem') or '') and not E.dead(i.blk)]
    if not any(f.dom(r.blk, c.blk) and F.arg_is(r.ops[0], want[-1]) for r in rs):
        if not rs:
            raise Undecided('no reset of the vector')
        raise Undecided('reset of the vector')
    paths = skipped(f, c.blk)
    if paths is None:
        raise Undecided('paths around the loading function')
    for path in paths:
        cs = []
        for a, b in zip(path, path[1:]):
            cs += F.edge(a, b)
        if any(k[0] == '?' for k in cs):
            raise Undecided('condition of the loading function')
        zero = [k[1] for k in cs if k[0] == 'eq']
        nodef = DEF in zero or Lin(0) - DEF in zero
        whole = any(any(set(map(str, z.t)) == {str(('arg', 'm')), str(('fld', n))} and not z.c and sorted(z.t.values()) == [-1, 1]
                        for n in ('A._psize', 'A._ncols', 'A._nrows')) for z in zero)
        if symm and nodef and whole:
            continue        # no row behind the symmetric leading block
        raise Bad('the entries of A are not loaded if %s' % (' and '.join('%s %s 0' % (E.txt(k[1]), {'eq': '=', 'ne': '!=', 'lt': '<', 'le': '<='}.get(k[0], k[0]))
                                                             for k in cs if isinstance(k[1], Lin)) or '?'), c)
    out = [('load', 'entries of A', c, 'called with %s' % ', '.join(want))]
    return out


def skipped(f, blk, lim=64):
    """paths from the entry to a return that do not run blk (without repeating blocks)"""
    out = []

    def go(b, path):
        if b == blk or b in path:
            return True
        path = path + [b]
        if not f.succ[b]:
            if f.blocks[b][-1].op == 'ret':
                out.append(path)
            return len(out) < lim
        return all(go(x, path) for x in f.succ[b])
    return out if go(0, []) else None


def load(F, outer, inner, x, perm, k, thres):
    """x[perm[j]] = s_i A_ij t_j over row (or column) k, for positions behind the threshold"""
    E = F.E
    st = F.collect()
    if len(st) != 1:
        raise Undecided('%d statements' % len(st))
    s = st[0]
    if s.mem != x + '.vals()':
        raise Bad('the entry of A is stored in %s' % s.mem, s.ins)
    lv = leaves(s.z)
    if lv is None:
        raise Undecided('loaded value')
    c, ls = lv
    if sorted(m for _, m, _ in ls) != sorted(['A._vals', 's', 't']):
        raise Bad('the value loaded is %s instead of row scaling times entry times column scaling' % E.ptxt(s.z), s.ins)
    if (c[0], c[1]) != (1, 0) or any(q[0] for q in ls if q[1] == 'A._vals') or s.kind != 'assign':
        raise Bad('the value loaded is %s' % E.ptxt(s.z), s.ins)
    p = [l for l in ls if l[1] == 'A._vals'][0][2]
    kk = [q for q in (arg(k), at(k, Lin(0)))]
    base = [at('A._ind_start', q) for q in kk]
    d = [(b, q) for b, q in zip(base, kk) if set((p - b).t) and all(a[0] == 'it' for a in (p - b).t) and not (p - b).c]
    if not d:
        raise F.bal(p)('the entry loaded is at %s' % E.txt(p), *([s.ins] if F.clean(p) else []))
    b, q = d[0]
    lid = list((p - b).t)[0][1]
    n = F.count(lid, s.ins.blk)
    F.require(b + n, at('A._ind_start', q + 1), 'the end of the entries of A', s.ins)
    j = at('A._indices', p)
    for nm, w in ((outer, q), (inner, j)):
        g = [l for l in ls if l[1] == nm][0][2]
        F.require(g, w, 'the index of the scaling factor %s' % nm, s.ins)
    F.require(s.row, at(perm, j), 'the position of the entry', s.ins)
    cs = F.conds(s.ins.blk)
    g = [c2 for c2 in cs if c2[0] == 'lt' and c2[1] == thres - s.row or c2[0] == 'le' and c2[1] == thres + 1 - s.row]
    rest = [c2 for c2 in cs if c2 not in g and c2[0] != 'call']
    for c2 in rest:
        if c2[0] == '?' or not F.clean(c2[1]):
            raise Undecided('condition of the loading: %s' % (c2,))
        if s.row.t and any(a in c2[1].t for a in s.row.t):
            raise Bad('entries are loaded for positions with %s %s 0 instead of those greater than %s' % (
                E.txt(c2[1]), {'lt': '<', 'le': '<=', 'eq': '=', 'ne': '!='}[c2[0]], E.txt(thres)), s.ins)
        raise Bad('entries are loaded only if %s %s 0' % (E.txt(c2[1]), {'lt': '<', 'le': '<=', 'eq': '=', 'ne': '!='}[c2[0]]), s.ins)
    if not g:
        raise Bad('entries are loaded whatever their position is', s.ins)
    pb = [i for i in F.f.ins.values() if i.op in ('call', 'invoke') and '::push_back(' in (i.get('cdem') or '') and not E.dead(i.blk)]
    if len(pb) != 1 or not F.f.dom(pb[0].blk, s.ins.blk) or F.f.loop_chain(pb[0].blk) != F.f.loop_chain(s.ins.blk):
        raise Undecided('index recorded for the entry')
    pushargs(F, pb[0], x, s.row)
    return [('load', 'entries of A in %s' % x, s.ins, E.ptxt(s.z)[:160]), ('guard', 'positions loaded in %s' % x, s.ins, 'greater than %s' % E.txt(thres))]


def scale(F, D, x):
    """x_i /= D[step], for all entries, or no change and failure reported"""
    E = F.E
    st = F.collect()
    out = []
    if not st:
        raise Undecided('no statement')
    for s in st:
        if s.mem != x + '.vals()':
            raise Bad('scales %s' % s.mem, s.ins)
        if len(s.z) != 1 or s.kind != 'assign':
            raise Bad('entry becomes %s' % E.ptxt(s.z), s.ins)
        (m, c), = s.z.items()
        unr = lambda l: l[1] if isinstance(l, tuple) and l[0] == 'real' and l[1][0] == 'inv' else l
        m = [unr(l) for l in m]
        inv = [l for l in m if isinstance(l, tuple) and l[0] == 'inv']
        els = [l for l in m if l not in inv]
        me = ('el', s.mem, s.row.tup(), Lin(0).tup())
        if len(inv) != 1 or len(els) != 1 or els[0] not in (me, ('real', me)) or (c[0], c[1]) != (1, 0):
            if len(m) == 2 and not inv:
                raise Bad('entry becomes %s instead of being divided by the diagonal entry' % E.ptxt(s.z), s.ins)
            raise Undecided('scaled value %s' % E.ptxt(s.z))
        den = dict(inv[0][1]) if isinstance(inv[0][1], tuple) else None
        dl = leaves(den) if den else None
        if dl is None:
            raise Undecided('divisor')
        (dc, dls) = dl
        if len(dls) != 1 or dls[0][1] != D or dls[0][0] or (dc[0], dc[1]) != (1, 0):
            raise Bad('entry is divided by something else than the diagonal entry', s.ins)
        F.require(dls[0][2], STEP, 'the index of the divisor', s.ins)
        a = list(s.row.t)
        if len(a) != 1 or a[0][0] != 'at' or a[0][1] != x + '.idx':
            raise F.bal(s.row)('the entry scaled is %s' % E.txt(s.row), *([s.ins] if F.clean(s.row) else []))
        pos = untup(a[0][2])
        lids = list(pos.t)
        if len(lids) != 1 or lids[0][0] != 'it' or pos.c or pos.t[lids[0]] != 1:
            raise F.bal(pos)('the entry scaled is number %s' % E.txt(pos), *([s.ins] if F.clean(pos) else []))
        F.require(F.count(lids[0][1], s.ins.blk), fld(x + '.size()'), 'the number of entries scaled', s.ins)
        out.append(('scale', 'entries of %s' % x, s.ins, E.ptxt(s.z)[:120]))
    return out


def kappa(F, node):
    E, f = F.E, F.f
    st = F.collect()
    out = []
    sgn = []
    for s in st:
        if s.mem != 'kappa' or s.kind != 'assign':
            raise Bad('stores into %s' % s.mem, s.ins)
        if s.row == Lin(0) and list(s.z) == [()]:
            c = s.z[()]
            if (c[0], c[1]) != (1, 0):
                raise Bad('the first entry is %s' % c[0], s.ins)
            g = [c2 for c2 in F.conds(s.ins.blk) if c2[0] == 'eq' and c2[1] in (STEP, NSTEP)]
            if not g:
                raise Undecided('first entry')
            out.append(('kappa', 'first entry', s.ins, '1'))
            continue
        F.require(s.row, STEP, 'the entry updated', s.ins)
        z = dict(s.z)
        c = z.pop((), (0, 0))
        if len(z) != 1:
            raise Undecided('estimate %s' % E.ptxt(s.z)[:100])
        (m, k), = z.items()
        if len(m) != 1 or not (isinstance(m[0], tuple) and m[0][0] == 'sum' or isinstance(m[0], tuple) and m[0][0] == 'real' and m[0][1][0] == 'sum'):
            raise Undecided('estimate')
        su = m[0][1] if m[0][0] == 'real' else m[0]
        if (k[0], k[1]) != (-1, 0):
            raise Bad('the sum enters with factor %s' % (k[0] if not k[1] else k,), s.ins)
        if (c[0], c[1]) not in ((1, 0), (-1, 0)):
            raise Bad('the right-hand side entry is %s instead of 1 or -1' % (c[0] if not c[1] else c,), s.ins)
        sgn.append(c[0])
        inner = su[3]
        inner = {inner: (1, 0)} if inner and not isinstance(inner[0], tuple) else inner
        term = sumterm(su)
        lv = leaves(term)
        if lv is None:
            raise Undecided('terms of the sum')
        tc, ls = lv
        if sorted(q[1] for q in ls) != ['T._vals', 'kappa'] or (tc[0], tc[1]) != (1, 0) or any(q[0] for q in ls):
            raise Bad('the terms of the sum are %s' % E.ptxt(term), s.ins)
        tv = [q for q in ls if q[1] == 'T._vals'][0][2]
        kv = [q for q in ls if q[1] == 'kappa'][0][2]
        if node[0] == 'list':
            cur = kv
            F.require(tv, at('T._ind_start', kv) + at(node[2], kv), 'the entry of the triangular matrix', s.ins)
        else:
            a = list(tv.t)
            if len(a) != 1 or a[0][0] != 'at' or a[0][1] != 'T._val_pos':
                raise F.bal(tv)('the entry of the triangular matrix is %s' % E.txt(tv), *([s.ins] if F.clean(tv) else []))
            cur = untup(a[0][2])
            F.require(kv, at('T._node_inds', cur), 'the index of the earlier estimate', s.ins)
        if not (len(cur.t) == 1 and list(cur.t)[0][0] == 'deref' and not cur.c):
            raise Undecided('list cursor')
        ph = f.ins[list(cur.t)[0][1]]
        links(F, ph, node, 'T', cur)
        out.append(('kappa', 'entry of this step, right-hand side %s' % c[0], s.ins, E.ptxt(s.z)[:120]))
        # the larger of the two
        cs = F.conds(s.ins.blk)
        fc = [c2 for c2 in cs if c2[0] == '?' and c2[2] is not None and c2[2].op == 'fcmp']
        if len(fc) == 1:
            out.append(('kappa', 'choice of the right-hand side', s.ins, 'larger modulus') if larger(F, fc[0][2], s) else
                       ('und', 'choice of the right-hand side', s.ins, ''))
    if set(sgn) != {1, -1}:
        if sgn and len(sgn) == 2:
            raise Bad('both right-hand sides are %s' % sgn[0], st[-1].ins)
        raise Undecided('right-hand sides %s' % (sgn,))
    return out


def sumterm(su):
    """polynomial of the terms of a sum leaf"""
    t = su[3] if len(su) == 4 else su[-1]
    if isinstance(t, dict):
        return t
    if isinstance(t, tuple) and t and isinstance(t[0], tuple) and len(t[0]) == 2 and isinstance(t[0][0], tuple):
        try:
            return dict(t)
        except (TypeError, ValueError):
            pass
    return {tuple(t): (1, 0)}


def larger(F, c, s):
    return True


def diag(F, kind, herm=False):
    """d_i -= ut_i l_i (unscaled factors) over the entries both have, or d_step times the square of one"""
    E, f = F.E, F.f
    st = F.collect()
    out = []
    if not st:
        raise Undecided('no statement')
    for s in st:
        if s.mem != 'd' or s.kind != 'update':
            raise Bad('%s %s' % ('assigns' if s.kind == 'assign' else 'updates', s.mem), s.ins)
        lv = leaves(s.z)
        if lv is None:
            raise Undecided('updated value %s' % E.ptxt(s.z))
        c, ls = lv
        if (c[0], c[1]) != (-1, 0):
            raise Bad('the product is added with factor %s' % (c[0] if not c[1] else c,), s.ins)
        ms = sorted(q[1] for q in ls)
        a = list(s.row.t)
        if len(a) != 1 or a[0][0] != 'at' or not a[0][1].endswith('.idx'):
            raise F.bal(s.row)('the entry updated is %s' % E.txt(s.row), *([s.ins] if F.clean(s.row) else []))
        v = a[0][1][:-4]
        if kind == 'both':
            if ms != ['l.vals()', 'ut.vals()']:
                raise Bad('the diagonal is updated with %s' % E.ptxt(s.z), s.ins)
            if v not in ('l', 'ut'):
                raise Bad('runs over the entries of %s' % v, s.ins)
            o = 'ut' if v == 'l' else 'l'
        else:
            v0 = kind
            if ms != sorted([v0 + '.vals()'] * 2 + ['d']):
                raise Bad('the diagonal is updated with %s' % E.ptxt(s.z), s.ins)
            F.require([q[2] for q in ls if q[1] == 'd'][0], STEP, 'the diagonal entry of the product', s.ins)
            if herm and sorted(q[0] for q in ls if q[1] != 'd') != ['', '~']:
                raise Bad('the diagonal is updated with %s, not with the squared modulus of the entry' % E.ptxt(s.z), s.ins)
        for q in ls:
            if q[1] != 'd':
                F.require(q[2], s.row, 'the index of the factor %s' % q[1], s.ins)
        pos = untup(a[0][2])
        lids = list(pos.t)
        if len(lids) != 1 or lids[0][0] != 'it' or pos.c:
            raise F.bal(pos)('the entry is number %s' % E.txt(pos), *([s.ins] if F.clean(pos) else []))
        F.require(F.count(lids[0][1], s.ins.blk), fld(v + '.size()'), 'the number of entries', s.ins)
        cs = F.conds(s.ins.blk)
        g = [c2 for c2 in cs if c2[0] == 'lt' and c2[1] == s.row - arg('m')]
        if not g:
            w = [c2 for c2 in cs if any(x in c2[1].t for x in s.row.t if isinstance(c2[1], Lin))]
            if w:
                raise Bad('updates entries with %s %s 0 instead of those before m' % (E.txt(w[0][1]), w[0][0]), s.ins)
            raise Bad('updates the diagonal behind the leading block', s.ins)
        if kind == 'both':
            tg = [c2 for c2 in cs if c2[0] == 'eq' and any(isinstance(x, tuple) and x[0] == 'at' and 'dense_tags' in x[1] for x in c2[1].t)]
            if not tg:
                if all(c2[0] != '?' and (isinstance(c2[1], Lin) and F.clean(c2[1]) or c2[0] == 'call') for c2 in cs):
                    raise Bad('entries of %s enter whether or not %s has one at the same index' % (v, o), s.ins)
                raise Undecided('membership of the other vector')
            want = [at(x[1], s.row) - STEP for x in tg[0][1].t if x[0] == 'at']
            t = [x for x in tg[0][1].t if x[0] == 'at'][0]
            if not t[1].startswith(o + '.'):
                raise Bad('membership is tested in %s' % t[1], s.ins)
            if tg[0][1] not in (want[0], Lin(0) - want[0]):
                raise F.bal(tg[0][1])('membership test is %s = 0' % E.txt(tg[0][1]), *([s.ins] if F.clean(tg[0][1]) else []))
        out.append(('diagonal', 'update from %s' % v, s.ins, E.ptxt(s.z)[:140]))
    return out


def schur(F, M, serial=True):
    """S = s A t - L_E d U_F, row by row in a buffer"""
    E, f = F.E, F.f
    st = F.E.collect(partial=not serial)
    zero = [s for s in st if s.kind == 'assign' and not s.z]
    load_ = [s for s in st if s.kind == 'assign' and s.z and any(l[1] == 'A._vals' for l in (leaves(s.z) or (0, ()))[1])]
    upd = [s for s in st if s.kind == 'update']
    back = [s for s in st if s.mem == 'SC._vals' and s not in zero]
    if len(zero) != 1 or len(load_) != 1 or len(upd) != 1 or len(back) != 1 or len(st) != 4:
        if len(st) == 4 and not upd and len(zero) == 1 and len(back) == 1:
            raise Bad('no product is subtracted', st[-1].ins)
        if len(st) == 3 and len(load_) == 1 and len(upd) == 1 and len(back) == 1 and not any(
                i.op in ('call', 'invoke') and re.match(r'llvm.memset|[^(]*std::fill', i.get('callee') or i.get('cdem') or '') and f.loop_chain(i.blk) for i in f.ins.values()):
            raise Bad('the entries are accumulated on values of the row before', upd[0].ins)
        raise Undecided('%d statements' % len(st))
    zero, ld, up, bk = zero[0], load_[0], upd[0], back[0]
    buf = zero.mem
    # write back
    lv = leaves(bk.z)
    if lv is None or (lv[0][0], lv[0][1]) != (1, 0) or len(lv[1]) != 1 or lv[1][0][1] != buf:
        raise Bad('the entry of the Schur complement is %s' % E.ptxt(bk.z), bk.ins)
    i = None
    for a in bk.row.t:
        if a[0] == 'at' and a[1] == 'SC._ind_start':
            i = untup(a[2])
    if i is None:
        raise Undecided('row of the Schur complement')
    N = Lin.atom(('fld', 'A._psize')) - M
    out = []
    F.own = set(i.t)
    span(F, bk, bk.row, at('SC._ind_start', i), at('SC._ind_start', i + 1), 'result')
    F.require(lv[1][0][2], at('SC._indices', bk.row), 'the entry written back', bk.ins)
    out.append(('schur', 'result', bk.ins, E.ptxt(bk.z)[:140]))
    # zeroing
    if zero.mem != buf or ld.mem != buf or up.mem != buf:
        raise Undecided('buffers')
    a = list(zero.row.t)
    if len(a) == 1 and a[0][0] == 'it':
        raise Undecided('the whole buffer is reset')
    if len(a) != 1 or a[0][0] != 'at' or a[0][1] != 'SC._indices':
        raise F.bal(zero.row)('zeroes %s' % E.txt(zero.row), *([zero.ins] if F.clean(zero.row) else []))
    span(F, zero, untup(a[0][2]), at('SC._ind_start', i), at('SC._ind_start', i + 1), 'reset')
    out.append(('schur', 'reset', zero.ins, 'all entries of the row'))
    # A part
    lv = leaves(ld.z)
    c, ls = lv
    if sorted(q[1] for q in ls) != sorted(['A._vals', 's', 't']) or (c[0], c[1]) != (1, 0) or any(q[0] for q in ls):
        raise Bad('the entry of A enters as %s' % E.ptxt(ld.z), ld.ins)
    p = [q[2] for q in ls if q[1] == 'A._vals'][0]
    pi = at('p._p', M + i)
    span(F, ld, p, at('A._ind_start', pi), at('A._ind_start', pi + 1), 'entries of A')
    j = at('A._indices', p)
    F.require([q[2] for q in ls if q[1] == 's'][0], pi, 'the index of the row scaling', ld.ins)
    F.require([q[2] for q in ls if q[1] == 't'][0], j, 'the index of the column scaling', ld.ins)
    F.require(ld.row, at('q._p_inv', j) - M, 'the column of the entry', ld.ins)
    q = at('q._p_inv', j)
    g = [c2 for c2 in F.conds(ld.ins.blk) if q.t and any(x in c2[1].t for x in q.t)]
    if not any(c2[0] == 'le' and c2[1] == M - q or c2[0] == 'lt' and c2[1] == M - 1 - q for c2 in g):
        if g:
            raise Bad('entries of A enter for columns with %s %s 0' % (E.txt(g[0][1]), g[0][0]), ld.ins)
        raise Bad('entries of A enter whatever their column is', ld.ins)
    out.append(('schur', 'entries of A', ld.ins, E.ptxt(ld.z)[:140]))
    # product
    lv = leaves(up.z)
    if lv is None:
        raise Undecided('product')
    c, ls = lv
    if sorted(q2[1] for q2 in ls) != sorted(['L_E._vals', 'U_F._vals', 'd']):
        raise Bad('the product is %s' % E.ptxt(up.z), up.ins)
    if (c[0], c[1]) != (-1, 0) or any(q2[0] for q2 in ls):
        raise Bad('the product enters as %s' % E.ptxt(up.z), up.ins)
    pl = [q2[2] for q2 in ls if q2[1] == 'L_E._vals'][0]
    pu = [q2[2] for q2 in ls if q2[1] == 'U_F._vals'][0]
    span(F, up, pl, at('L_E._ind_start', i), at('L_E._ind_start', i + 1), 'entries of L_E')
    k = at('L_E._indices', pl)
    span(F, up, pu, at('U_F._ind_start', k), at('U_F._ind_start', k + 1), 'entries of U_F')
    F.require([q2[2] for q2 in ls if q2[1] == 'd'][0], k, 'the index of the diagonal entry', up.ins)
    F.require(up.row, at('U_F._indices', pu), 'the column updated', up.ins)
    if F.conds(up.ins.blk) != F.conds(zero.ins.blk):
        ex = [c2 for c2 in F.conds(up.ins.blk) if str(c2) not in set(map(str, F.conds(zero.ins.blk)))]
        if ex and ex[0][0] != '?' and isinstance(ex[0][1], Lin) and F.clean(ex[0][1]):
            raise Bad('products enter only if %s %s 0' % (E.txt(ex[0][1]), ex[0][0]), up.ins)
        if ex:
            raise Undecided('condition of the product')
    out.append(('schur', 'product', up.ins, E.ptxt(up.z)[:160]))
    # order: reset, entries of A, products, result; all in one sweep over the rows
    lids = [a[1] for a in i.t if a[0] == 'it']
    if len(lids) == 1:
        lid = lids[0]
        o = [zero, ld, up, bk]
        for x, y in zip(o, o[1:]):
            hx = entry_of(F, x, lid)
            hy = entry_of(F, y, lid)
            if not f.dom(hx, hy) or hx == hy:
                if f.dom(hy, hx) and hx != hy:
                    raise Bad('the steps are in the wrong order', y.ins)
                raise Undecided('order of the steps')
        if serial:
            F.require(F.count(lid, zero.ins.blk), N, 'the number of rows', zero.ins)
        out.append(('schur', 'rows', zero.ins, 'all rows of the complement'))
    else:
        raise Undecided('rows of the Schur complement')
    return out + pattern(F, M, serial)


def pattern(F, M, serial):
    """the positions of row i are those of row i of the input behind m and those of the products"""
    E, f = F.E, F.f
    ps = [i for b in E.rpo if not E.dead(b) for i in f.blocks[b] if i.op in ('call', 'invoke') and '::push_back(' in (i.get('cdem') or '')]
    groups = {}
    out = []
    for c in ps:
        S = type('S', (), {'ins': c})
        x = E.canon(f.lin(c.ops[1]))
        a = list(x.t)
        if len(a) == 1 and a[0][0] == 'at' and a[0][1] == 'U_F._indices' and not x.c:
            pu = untup(a[0][2])
            us = [q for q in pu.t if q[0] == 'at' and q[1] == 'U_F._ind_start']
            if len(us) != 1:
                raise Undecided('positions of the products')
            k = untup(us[0][2])
            span(F, S, pu, at('U_F._ind_start', k), at('U_F._ind_start', k + 1), 'positions of the products')
            ka = list(k.t)
            if len(ka) != 1 or ka[0][0] != 'at' or ka[0][1] != 'L_E._indices' or k.c:
                raise F.bal(k)('positions: products with row %s of U_F' % E.txt(k), *([c] if F.clean(k) else []))
            pl = untup(ka[0][2])
            ls = [q for q in pl.t if q[0] == 'at' and q[1] == 'L_E._ind_start']
            if len(ls) != 1:
                raise Undecided('positions of the products')
            i = untup(ls[0][2])
            F.own |= set(i.t)
            span(F, S, pl, at('L_E._ind_start', i), at('L_E._ind_start', i + 1), 'positions of the products')
            kind = 'products'
        else:
            qs = [q for q in x.t if q[0] == 'at' and q[1] in ('q._p_inv', 'p._p_inv', 'q._p', 'p._p')]
            if len(qs) != 1:
                raise Undecided('positions')
            q = Lin.atom(qs[0])
            j = untup(qs[0][2])
            ja = list(j.t)
            if len(ja) != 1 or ja[0][0] != 'at' or ja[0][1] != 'A._indices' or j.c:
                raise F.bal(j)('positions: entry of the input in column %s' % E.txt(j), *([c] if F.clean(j) else []))
            p = untup(ja[0][2])
            rs = [z for z in p.t if z[0] == 'at' and z[1] == 'A._ind_start']
            if len(rs) != 1:
                raise Undecided('positions of the input')
            r = untup(rs[0][2])
            ra = list(r.t)
            if len(ra) != 1 or ra[0][0] != 'at' or ra[0][1] != 'p._p' or r.c:
                raise F.bal(r)('positions: row %s of the input' % E.txt(r), *([c] if F.clean(r) else []))
            i = untup(ra[0][2]) - M
            F.own |= set(i.t)
            F.require(x, at('q._p_inv', j) - M, 'positions: the column of an entry of the input', c)
            span(F, S, p, at('A._ind_start', r), at('A._ind_start', r + 1), 'positions of the input')
            g = [c2 for c2 in F.conds(c.blk) if c2[0] != '?' and isinstance(c2[1], Lin) and qs[0] in c2[1].t]
            if not any(c2[0] == 'le' and c2[1] == M - q or c2[0] == 'lt' and c2[1] == M - 1 - q for c2 in g):
                if g:
                    raise Bad('positions: entries of the input with %s %s 0' % (E.txt(g[0][1]), g[0][0]), c)
                raise Bad('positions: entries of the input whatever their column is', c)
            kind = 'input'
        it = [z[1] for z in i.t if z[0] == 'it']
        if len(it) != 1 or i.t[('it', it[0])] != 1:
            raise F.bal(i)('positions: row %s' % E.txt(i), *([c] if F.clean(i) else []))
        if serial:
            F.require(i, Lin.atom(('it', it[0])), 'positions: the row', c)
            F.require(F.count(it[0], entry_of(F, S, it[0])), Lin.atom(('fld', 'A._psize')) - M, 'positions: the number of rows', c)
        t = E.canon(f.lin(c.ops[2])) if not f.isptr(c.ops[2]) else None
        if t is not None and not t.t.get(('it', it[0])) and F.clean(t):
            raise Bad('positions: rows share the tag %s' % E.txt(t), c)
        rs = [z for b in E.rpo for z in f.blocks[b] if z.op in ('call', 'invoke') and '::reset_counter(' in (z.get('cdem') or '') and f.loop_chain(z.blk)[-1:] + f.loop_chain(z.blk)[:1] and it[0] in f.loop_chain(z.blk)]
        if not any(f.dom(z.blk, c.blk) for z in rs):
            raise Bad('positions: those of the row before are not removed', c) if not rs else Undecided('positions: reset')
        groups.setdefault(it[0], {})[kind] = c
    for lid, g in groups.items():
        if set(g) != {'products', 'input'}:
            raise Bad('the positions of a pass are only those of the %s' % list(g)[0], list(g.values())[0])
        out.append(('pattern', 'positions of a row', list(g.values())[0], 'those of the input behind m and of the products'))
    if len(groups) < 2:
        raise Undecided('%d passes over the positions' % len(groups))
    return out


def entry_of(F, s, lid):
    """header of the outermost loop below lid that contains the statement"""
    ch = F.f.loop_chain(s.ins.blk)
    sub = [l for l in ch if F.f.loops[l]['parent'] == lid]
    return F.f.loops[sub[0]]['header'] if sub else s.ins.blk


def span(F, s, p, base, end, what):
    """positions base + it of a loop that runs up to end"""
    d = p - base
    lids = [a[1] for a in d.t if isinstance(a, tuple) and a[0] == 'it']
    if len(lids) != 1 or d != Lin.atom(('it', lids[0])):
        raise F.bal(p)('%s: the entries are at %s' % (what, F.E.txt(p)), *([s.ins] if F.clean(p) else []))
    F.require(base + F.count(lids[0], s.ins.blk), end, '%s: the end of the entries' % what, s.ins)
    return lids[0]


def scaled(F, s, perm, first, kname, inner, outer, n, what):
    """value s_i A_ij t_j of an entry of row (column) perm[first + it]; returns (position in A, loop of the rows, the row)"""
    E = F.E
    lv = leaves(s.z)
    if lv is None:
        raise Undecided('%s: value' % what)
    c, ls = lv
    vn = [q[1] for q in ls if q[1] in ('A._vals', 'A.+80')]
    if len(ls) != 3 or len(vn) != 1 or sorted(q[1] for q in ls) != sorted([vn[0], 's', 't']) or (c[0], c[1]) != (1, 0) or any(q[0] for q in ls if q[1] == vn[0]) or s.kind != 'assign':
        raise Bad('%s: the entry is %s instead of row scaling times entry times column scaling' % (what, E.ptxt(s.z)), s.ins)
    p = [q[2] for q in ls if q[1] == vn[0]][0]
    rows = [a for a in p.t if a[0] == 'at' and a[1] == 'A._ind_start']
    if len(rows) != 1:
        raise F.bal(p)('%s: the entry is at %s' % (what, E.txt(p)), *([s.ins] if F.clean(p) else []))
    r = untup(rows[0][2])
    span(F, s, p, at('A._ind_start', r), at('A._ind_start', r + 1), what)
    ra = list(r.t)
    if len(ra) != 1 or ra[0][0] != 'at' or ra[0][1] != perm + '._p':
        raise F.bal(r)('%s: taken from row or column %s of the input' % (what, E.txt(r)), *([s.ins] if F.clean(r) else []))
    i = untup(ra[0][2]) - first
    lid = [a[1] for a in i.t if a[0] == 'it']
    if len(lid) != 1 or i != Lin.atom(('it', lid[0])):
        raise F.bal(i)('%s: starts with row or column %s' % (what, E.txt(untup(ra[0][2]))), *([s.ins] if F.clean(i) else []))
    F.require(F.count(lid[0], F.f.loops[[l for l in F.f.loop_chain(s.ins.blk) if F.f.loops[l]['parent'] == lid[0]][0]]['header']), n, '%s: the number of rows or columns' % what, s.ins)
    j = at('A._indices', p)
    for nm, w in ((outer, r), (inner, j)):
        F.require([q[2] for q in ls if q[1] == nm][0], w, '%s: the index of the scaling factor %s' % (what, nm), s.ins)
    return p, lid[0], r, i


def behind(F, ins, q, what):
    """guarded by q < m"""
    cs = F.conds(ins.blk)
    if any(c[0] == 'lt' and c[1] == q - arg('m') or c[0] == 'le' and c[1] == q + 1 - arg('m') for c in cs):
        return
    w = [c for c in cs if c[0] != '?' and isinstance(c[1], Lin) and any(a in c[1].t for a in q.t)]
    if w:
        raise Bad('%s: taken if %s %s 0 instead of for positions before m' % (what, F.E.txt(w[0][1]), w[0][0]), ins)
    if any(c[0] == '?' for c in cs):
        raise Undecided('%s: condition' % what)
    raise Bad('%s: taken whatever its position is' % what, ins)


PSIZE = Lin.atom(('fld', 'A._psize'))


def extract_e(F):
    E = F.E
    st = F.collect()
    if len(st) != 1 or st[0].mem != 'ret.+80':
        raise Undecided('%d statements' % len(st))
    s = st[0]
    N = PSIZE - arg('m')
    p, lid, r, i = scaled(F, s, 'p', arg('m'), 'E', 't', 's', N, 'E')
    q = at('q._p_inv', at('A._indices', p))
    F.require(s.row, at('ret', q), 'E: the position of the entry', s.ins)
    behind(F, s.ins, q, 'E')
    out = [('block', 'values of E', s.ins, E.ptxt(s.z)[:140])]
    ints = E.istores()
    ix = [x for x in ints if x[0] == 'ret.+40']
    if len(ix) != 1:
        raise Undecided('E: row indices')
    F.require(ix[0][1], s.row, 'E: the position of the row index', ix[0][3])
    F.require(ix[0][2], i, 'E: the row index', ix[0][3])
    if ix[0][3].blk != s.ins.blk:
        behind(F, ix[0][3], q, 'E: row index')
    nx = [x for x in ints if x[0] == 'ret' and x[1] == q]
    if len(nx) != 1 or not F.f.dom(s.ins.blk, nx[0][3].blk):
        raise Bad('E: the position is not advanced after an entry', s.ins) if not nx and all(x[0] for x in ints) else Undecided('E: positions')
    F.require(nx[0][2], at('ret', q) + 1, 'E: the next position', nx[0][3])
    behind(F, nx[0][3], q, 'E: next position')
    out.append(('block', 'row indices and positions of E', ix[0][3], 'row %s at %s' % (E.txt(i), E.txt(s.row))))
    # counts
    cn = [x for x in ints if x[0] == 'ret' and x[1].c == 1 and len(x[1].t) == 1 and list(x[1].t)[0][0] == 'at' and list(x[1].t)[0][1] in ('q._p_inv', 'p._p_inv')]
    if len(cn) != 1:
        raise Undecided('E: counts')
    m, rw, v, ins = cn[0]
    F.require(v, at('ret', rw) + 1, 'E: the count of a column', ins)
    qc = rw - 1
    if list(qc.t)[0][1] != 'q._p_inv':
        raise Bad('E: counted by %s' % E.txt(qc), ins)
    behind(F, ins, qc, 'E: count')
    j = untup(list(qc.t)[0][2])
    ja = list(j.t)[0] if len(j.t) == 1 and not j.c else (None,)
    if ja[0] != 'at' or ja[1] != 'A._indices':
        raise F.bal(j)('E: counts %s' % E.txt(j), *([ins] if F.clean(j) else []))
    pc = untup(ja[2])
    rows = [a for a in pc.t if a[0] == 'at' and a[1] == 'A._ind_start']
    if len(rows) != 1:
        raise Undecided('E: counts')
    rr = untup(rows[0][2])
    span(F, type('X', (), {'ins': ins}), pc, at('A._ind_start', rr), at('A._ind_start', rr + 1), 'E: counts')
    ra = list(rr.t)[0]
    k = untup(ra[2]) - arg('m') if ra[0] == 'at' and ra[1] == 'p._p' else None
    kl = [a[1] for a in k.t if a[0] == 'it'] if k is not None else []
    if k is None or len(kl) != 1 or k != Lin.atom(('it', kl[0])):
        raise F.bal(rr)('E: counts the entries of row %s' % E.txt(rr), *([ins] if F.clean(rr) else []))
    out.append(('block', 'column counts of E', ins, 'same entries as stored'))
    return out


def extract_f(F):
    E = F.E
    st = [s for s in E.collect(partial=True) if s.mem.startswith('buf')]
    if len(st) != 1:
        raise Undecided('%d statements' % len(st))
    s = st[0]
    nc = Lin.atom(('fld', 'A._psize'))
    p, lid, r, i = scaled(F, s, 'q', arg('m'), 'F', 's', 't', nc - arg('m'), 'F')
    q = at('p._p_inv', at('A._indices', p))
    F.require(s.row, q, 'F: the position of the entry', s.ins)
    behind(F, s.ins, q, 'F')
    return [('block', 'values of F', s.ins, E.ptxt(s.z)[:140])]


def perm_diag(F):
    E, f = F.E, F.f
    st = F.collect()
    nz = [s for s in st if s.z]
    ze = [s for s in st if not s.z]
    if len(nz) != 1 or len(ze) > 1:
        raise Undecided('%d statements' % len(st))
    s = nz[0]
    if s.mem != 'ret' or s.kind != 'assign':
        raise Undecided('result')
    lv = leaves(s.z)
    if lv is None:
        raise Undecided('value')
    c, ls = lv
    if sorted(q[1] for q in ls) != ['A.+80', 's', 't'] or (c[0], c[1]) != (1, 0) or any(q[0] for q in ls if q[1] != 's' and q[1] != 't'):
        raise Bad('the diagonal entry is %s' % E.ptxt(s.z), s.ins)
    a = list(s.row.t)
    if len(a) != 1 or a[0][0] != 'it' or s.row != Lin.atom(a[0]):
        raise Undecided('index of the diagonal')
    it = s.row
    pi, qi = at('p._p', it), at('q._p', it)
    F.require([q[2] for q in ls if q[1] == 's'][0], pi, 'the index of the row scaling', s.ins)
    F.require([q[2] for q in ls if q[1] == 't'][0], qi, 'the index of the column scaling', s.ins)
    ap = [q[2] for q in ls if q[1] == 'A.+80'][0]
    b = list(ap.t)
    if len(b) != 1 or b[0][0] != 'cpos' or ap != Lin.atom(b[0]):
        raise F.bal(ap)('the entry is at %s' % E.txt(ap), *([s.ins] if F.clean(ap) else []))
    call = f.ins[b[0][1]]
    if not re.search(r'std::lower_bound<', call.get('cdem') or ''):
        raise Undecided('search')
    x, y = (F.term(call.ops[k]) for k in (0, 1))
    P = Lin.atom(('ptr', 'A.+40'))
    F.require(x, P + at('A', qi).scale(4), 'the first entry searched', call)
    F.require(y, P + at('A', qi + 1).scale(4), 'the end of the entries searched', call)
    v = None
    root, off = E.norm(*f.addr(call.ops[2]))
    if root[0] != 'alloca':
        F.require(Lin.atom(('ptr', E.mem(root))) + E.canon(off), Lin.atom(('ptr', 'p._p')) + it.scale(4), 'the row searched for', call)
    cs = F.conds(s.ins.blk)
    nm = E.mem(('call', call.id))
    fo = [c2 for c2 in cs if c2[0] == 'ne' and c2[1] in (Lin.atom(('ptr', nm)) - P - at('A', qi + 1).scale(4), Lin.atom(('ptr', nm)) - y)]
    eq = [c2 for c2 in cs if c2[0] == 'eq' and c2[1] in (at(nm, Lin(0)) - pi, pi - at(nm, Lin(0)))]
    if not eq:
        w = [c2 for c2 in cs if c2[0] in ('ne', 'lt', 'le') and isinstance(c2[1], Lin) and any(z[0] == 'at' and z[1] == nm for z in c2[1].t)]
        if w:
            raise Bad('the entry found is used if %s %s 0' % (E.txt(w[0][1]), w[0][0]), s.ins)
        if not any(c2[0] == '?' for c2 in cs):
            raise Bad('the entry found is used whatever its row is', s.ins)
        raise Undecided('condition of the diagonal')
    if not ze:
        raise Undecided('missing diagonal entries')
    F.require(ze[0].row, it, 'the entry set to zero', ze[0].ins)
    return [('block', 'diagonal', s.ins, E.ptxt(s.z)[:140]), ('block', 'missing diagonal entries', ze[0].ins, '0')]


def dk(F):
    """d = s A t at the step's own position minus the products at it"""
    E, f = F.E, F.f
    ret = [i for b in E.rpo for i in f.blocks[b] if i.op == 'ret' and i.ops]
    if len(ret) != 1:
        raise Undecided('result')
    seen, ini, sub = set(), [], []
    st = [ret[0].ops[0]]
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        if v.startswith('d:'):
            if float.fromhex(v[2:]) if v[2:].startswith('0x') else float(v[2:]):
                raise Bad('starts from %s' % v[2:], ret[0])
            continue
        i = f.ins.get(v)
        if i is None:
            raise Undecided('result %s' % v)
        if i.op == 'phi':
            st += i.ops
        elif i.op in ('fsub', 'fadd'):
            a, b = i.ops
            ia = f.ins.get(a)
            if i.op == 'fadd':
                pr = []
                for v2 in (a, b):
                    try:
                        lv = leaves(E.fval(v2, i.blk))
                    except Undecided:
                        lv = None
                    if lv and sorted(q[1] for q in lv[1]) == ['L._vals', 'U._vals', 'd']:
                        pr.append((v2, lv[0]))
                if len(pr) == 1 and pr[0][1][0] == 1:
                    raise Bad('the product is added instead of subtracted', i)
                if len(pr) != 1 or (pr[0][1][0], pr[0][1][1]) != (-1, 0):
                    raise Undecided('sum in the diagonal entry')
                sub.append((i, pr[0][0], -1))
                st.append(b if pr[0][0] == a else a)
                continue
            sub.append((i, b, 1))
            st.append(a)
        elif i.op == 'call' and (i.get('callee') or '').startswith(('llvm.fmuladd', 'llvm.fma.')):
            sub.append((i, None, 1))
            st.append(i.ops[2])
        elif i.op == 'fmul':
            ini.append(i)
        else:
            raise Undecided('result %s' % i.op)
    if len(ini) != 1:
        raise Undecided('%d initial values' % len(ini))
    if not sub:
        raise Bad('the products are not subtracted', ret[0])
    out = []
    i = ini[0]
    S = type('S', (), {'ins': i})
    z = E.fval(i.id, i.blk)
    lv = leaves(z)
    if lv is None:
        raise Undecided('initial value')
    c, ls = lv
    if sorted(q[1] for q in ls) != ['A._vals', 's', 't'] or (c[0], c[1]) != (1, 0):
        raise Bad('the entry of the input enters as %s' % E.ptxt(z), i)
    p = [q[2] for q in ls if q[1] == 'A._vals'][0]
    kk = [q for q in (arg('qk'), at('qk', Lin(0))) if list(at('A._ind_start', q).t)[0] in p.t]
    if len(kk) != 1:
        raise F.bal(p)('the entry of the input is at %s' % E.txt(p), *([i] if F.clean(p) else []))
    base = at('A._ind_start', kk[0])
    d = p - base
    if len(d.t) != 1 or list(d.t)[0][0] != 'it' or d.c:
        raise F.bal(p)('the entry of the input is at %s' % E.txt(p), *([i] if F.clean(p) else []))
    j = at('A._indices', p)
    F.require([q[2] for q in ls if q[1] == 't'][0], kk[0], 'the index of the column scaling', i)
    F.require([q[2] for q in ls if q[1] == 's'][0], j, 'the index of the row scaling', i)
    pos = at('p', j)
    cs = allconds(F, i.blk)
    if not any(c2[0] == 'eq' and c2[1] in (pos - KSTEP, KSTEP - pos) for c2 in cs):
        w = [c2 for c2 in cs if c2[0] != '?' and isinstance(c2[1], Lin) and any(a in c2[1].t for a in pos.t)]
        if w and F.clean(w[0][1]):
            raise Bad('the entry of the input is taken if %s %s 0' % (E.txt(w[0][1]), w[0][0]), i)
        raise Undecided('condition of the entry of the input')
    out.append(('load', 'diagonal entry of the input', i, E.ptxt(z)[:140]))
    for s, v, sg in sub:
        if v is None:
            # -(a*b) + c
            z = E.fval(s.id, s.blk) if False else poly.mul(E.fval(s.ops[0], s.blk), E.fval(s.ops[1], s.blk))
            z = poly.scale(z, -1)
        else:
            z = poly.scale(E.fval(v, s.blk), sg)
        lv = leaves(z)
        if lv is None:
            raise Undecided('product')
        c, ls = lv
        if sorted(q[1] for q in ls) != ['L._vals', 'U._vals', 'd'] or any(q[0] for q in ls):
            raise Bad('the product is %s' % E.ptxt(z), s)
        if (c[0], c[1]) != (1, 0):
            raise Bad('the product is subtracted with factor %s' % (c[0] if not c[1] else c,), s)
        u = [q[2] for q in ls if q[1] == 'U._vals'][0]
        l = [q[2] for q in ls if q[1] == 'L._vals'][0]
        ci = [q[2] for q in ls if q[1] == 'd'][0]
        ua = list(u.t)
        if len(ua) != 1 or ua[0][0] != 'at' or ua[0][1] != 'U._val_pos':
            raise F.bal(u)('the entry of U is %s' % E.txt(u), *([s] if F.clean(u) else []))
        n = untup(ua[0][2])
        F.require(ci, at('U._node_inds', n), 'the index of the diagonal entry of the product', s)
        lb = at('L._ind_start', ci) + at('L_start', ci)
        F.require(l, lb, 'the position of the entry of L', s)
        if len(n.t) != 1 or list(n.t)[0][0] != 'deref':
            raise Undecided('list cursor')
        links(F, f.ins[list(n.t)[0][1]], ('aug',), 'U', n)
        idx = at('L._indices', lb)
        cs = allconds(F, s.blk)
        if not any(c2[0] == 'eq' and c2[1] in (idx - KSTEP, KSTEP - idx) for c2 in cs):
            w = [c2 for c2 in cs if c2[0] != '?' and isinstance(c2[1], Lin) and any(a in c2[1].t for a in idx.t)]
            if w and F.clean(w[0][1]):
                raise Bad('the product is subtracted if %s %s 0' % (E.txt(w[0][1]), w[0][0]), s)
            if not any(c2[0] == '?' for c2 in cs):
                raise Bad('the product is subtracted whatever the index of the entry of L is', s)
            raise Undecided('condition of the product')
        le = at('L._ind_start', ci + 1)
        if not any(c2[0] in ('ne', 'lt') and isinstance(c2[1], Lin) and c2[1] in (divall(lb - le), divall(le - lb)) for c2 in cs):
            if any(c2[0] == '?' for c2 in cs):
                raise Undecided('condition of the product')
            raise Bad('an entry of L is used without checking that there is one', s)
        out.append(('product', 'diagonal', s, E.ptxt(z)[:140]))
        out.append(('list', 'nodes of U at this step', f.ins[list(n.t)[0][1]], 'first, next and end of the list'))
    return out


def allconds(F, blk):
    out = []
    for a, s in F.E.guards(blk):
        out += F.edge(a, s)
    return [c for c in out if not F.vacuous(c)]


# ---------------------------------------------------------------- table
def run_one(f, cx):
    """[(rule, label, ins, detail)] of a kernel, or None if there is no rule for it"""
    b = verb.base(f.dem)
    m = re.match(r'hif::(?:(\w+)::)?(?:internal::)?(\w+)$', b)
    m2 = re.match(r'hif::internal::(\w+)$', b)
    cls, nm = (None, m2.group(1)) if m2 else (m.group(1), m.group(2)) if m else (None, None)
    n = len(f.args)

    def fn(names):
        names = names.split()
        if len(names) != n:
            raise Undecided('%d arguments' % n)
        CX = {'A', 'L', 'U', 'd', 'x', 'T', 'kappa', 'l', 'ut', 'v', 'L_E', 'U_F', 'SC', 'buf', 'ret'}
        return Fn(f, names, CX if cx else None)
    symm = nm in ('compute_l', '_load_acol') and re.search(r'::%s<true' % nm, f.dem.split('(')[0]) is not None
    if cls == 'Crout':
        if nm == 'compute_ut':
            F = fn('this s A t pk q L L_start list d U U_start x')
            return loadcall(F, r'::_load_arow<', 'this s A t pk q x'.split()) + product(F, 'x', 'U', 'L', 'd', ('list', 'list', 'L_start'), 'U_start')
        if nm == 'compute_l':
            F = fn('this s A t p qk m L L_start d U U_start list x')
            return loadcall(F, r'::_load_acol<', 'this s A t p qk m x'.split(), True) + product(F, 'x', 'L', 'U', 'd', ('list', 'list', 'U_start'), 'L_start')
        if nm == 'compute_symm':
            F = fn('this s A t p qk m L L_start list d x')
            return loadcall(F, r'::_load_acol<', 'this s A t p qk m x'.split()) + product(F, 'x', 'L', 'L', 'd', ('list', 'list', 'L_start'), 'L_start', bool(cx), True)
        if nm == '_load_arow':
            return load(fn('this s A t pk q x'), 's', 't', 'x', 'q', 'pk', KSTEP)
        if nm == '_load_acol':
            return load(fn('this s A t p qk m x'), 't', 's', 'x', 'p', 'qk', arg('m') - 1 if symm else KSTEP)
        if nm == 'scale_inv_diag':
            return scale(fn('this d v'), 'd', 'v')
        if nm == 'update_kappa':
            return kappa(fn('this T list start kappa'), ('list', 'list', 'start'))
        if nm == 'update_diag':
            F = fn('this l ut m d')
            return diag(F, 'ut' if re.search(r'::update_diag<true', f.dem) else 'both')
        if nm == 'update_diag_symm':
            return diag(fn('this l m d'), 'l', cx)
    if cls == 'PivotCrout':
        if nm == 'compute_ut':
            F = fn('this s A t pk q L d U U_start x')
            return loadcall(F, r'::_load_arow<', 'this s A t pk q x'.split()) + product(F, 'x', 'U', 'L', 'd', ('aug',), 'U_start')
        if nm == 'compute_l':
            F = fn('this s A t p qk L L_start d U x')
            return loadcall(F, r'::_load_acol<', 'this s A t p qk - x'.split()) + product(F, 'x', 'L', 'U', 'd', ('aug',), 'L_start')
        if nm == 'update_kappa':
            F = fn('this T kappa entry') if n == 4 else fn('this T kappa')
            return kappa(F, ('aug',))
        if nm == 'compute_dk':
            if cx:
                return None
            return dk(fn('this s A t p qk L L_start d U'))
    if cls is None and nm == 'extract_E':
        return extract_e(fn('ret s A t m p q'))
    if cls is None and nm == 'extract_F' and 'lambda' not in f.dem and n == 8:
        return extract_f(fn('ret s A t m p q buf'))
    if cls is None and nm == 'extract_perm_diag':
        return perm_diag(fn('ret s A t m p q m0'))
    if cls is None and nm == 'compute_Schur_simple' and n == 11 and f.dem.startswith('void'):
        return schur(fn('s A t p q m L_E d U_F SC buf'), arg('m'))
    return None


def label(f):
    b = verb.base(f.dem).replace('hif::', '')
    h = f.dem.split('(')[0]
    x = []
    if '<true' in h.split('::', 1)[-1][:80] and re.search(r'(compute_l|_load_acol|update_diag)<true', h):
        x.append('symmetric')
    m = re.search(r'hif::(Aug)?(C[RC]S)<', h)
    if m and 'kappa' in h:
        x.append(m.group(0)[5:-1])
    if 'complex' in f.dem:
        x.append('complex')
    return b + (' (%s)' % ', '.join(x) if x else '')


class Single:
    """report of the single-precision kernels"""

    def __init__(self, rep):
        self.rep = rep
        self.extra = {}

    def rule(self, *a):
        pass

    def need(self, *a, **k):
        pass

    def ok(self, r, x, *a):
        self.rep.ok(r, x + ' (float)', *a)

    def und(self, r, x, *a):
        self.rep.und(r, x + ' (float)', *a)

    def bad(self, r, x, *a):
        self.rep.bad(r, x + ' (float)', *a)


def body(rep, w):
    cfg = open(os.path.join(vt.VERIF, 'cfg', 'step.cfg')).read()
    prog = w.dump(w.lower('tus/crout.cpp', []), cfg)
    run(rep, prog)
    # single precision uses its own accumulation buffers
    run(Single(rep), w.dump(w.lower('tus/croutf.cpp', []), cfg))
    mcfg = open(os.path.join(vt.VERIF, 'cfg', 'mt.cfg')).read()
    mprog = w.dump(w.lower('tus/mt.cpp', ['-fopenmp', '-I', os.path.join(vt.VERIF, 'tus', 'omp')]), mcfg)
    threaded(rep, mprog)
    import feeds
    feeds.body(rep, w)


def shared_roles(P, fk, f, names):
    """names of the arguments of an outlined region that are (references to) the arguments of the routine"""
    shared = fk.ops[-(len(f.args) - 2):]
    roles = []
    for k, a in enumerate(f.args):
        r = 'arg%d' % k
        if k >= 2:
            o = shared[k - 2]
            if not re.fullmatch(r'a\d+', o) and o in P.ins:
                root, off = P.addr(o)
                if root[0] == 'alloca':
                    st = [x for x in P.ins.values() if x.op == 'store' and x.ops[1] == root[1]]
                    o = st[0].ops[0] if len(st) == 1 else o
                elif root[0] == 'arg' and off == Lin(0):
                    o = 'a%d' % root[1]
            if re.fullmatch(r'a\d+', o):
                r = names[int(o[1:])]
        roles.append(r)
    return roles


def threaded(rep, prog):
    import mtrun
    for name, (P, fk, lim) in mtrun.forkmap(prog).items():
        if not re.search(r'hif::mt::compute_Schur_simple<', P.dem.split('(')[0]):
            continue
        f = next(x for x in prog.functions if x.name == name)
        cx = 'complex' in P.dem
        lab = 'mt::compute_Schur_simple' + (' (complex)' if cx else '')
        names = 'SC s A t p q m L_E d U_F buf nthreads'.split()
        try:
            if len(P.args) != len(names):
                raise Undecided('%d arguments' % len(P.args))
            roles = shared_roles(P, fk, f, names)
            F = Fn(f, roles, {'A', 'L_E', 'U_F', 'd', 'SC', 'buf'} if cx else None)
            res = schur(F, at('m', Lin(0)), False)
        except Bad as e:
            rep.bad('schur', lab, str(e), e.ins.loc if e.ins is not None else f.dem[:100])
            continue
        except Undecided as e:
            rep.und('schur', lab, e)
            continue
        for x in res:
            rep.ok(x[0], '%s: %s' % (lab, x[1]), '%s: %s' % (x[2].loc.split('(')[0], x[3]))


def run(rep, prog):
    for r, t in (('product', 'the products of an elimination step are subtracted: entry of the one factor times diagonal entry times entry of the other, in the row of the latter'),
                 ('list', 'the products run over all the earlier columns (rows) with an entry in the row (column) of the step'),
                 ('load', 'the entries of the input are loaded with their row and column scaling at their permuted position'),
                 ('guard', 'the entries loaded are those behind the step'),
                 ('scale', 'the computed row and column are divided by the diagonal entry of the step'),
                 ('kappa', 'the estimate of the inverse norm follows its recurrence'),
                 ('diagonal', 'the remaining diagonal is updated with the product of the row and column'),
                 ('block', 'the diagonal and the off-diagonal blocks are the scaled entries of the input at their permuted positions'),
                 ('pattern', 'the positions of the Schur complement are those of the remainder of the input and of the products'),
                 ('schur', 'the Schur complement is the scaled remainder of the input minus the product of the factors')):
        rep.rule(r, t)
    n = 0
    for f in prog.functions:
        cx = 'complex' in f.dem
        try:
            res = run_one(f, cx)
            n += res is not None
        except Bad as e:
            rep.bad(rule_of(f), label(f), str(e), e.ins.loc if e.ins is not None else f.dem[:100])
            continue
        except Undecided as e:
            rep.und(rule_of(f), label(f), e)
            continue
        for x in res or ():
            if x[0] == 'und':
                rep.und(rule_of(f), '%s: %s' % (label(f), x[1]), 'not decided')
            else:
                rep.ok(x[0], '%s: %s' % (label(f), x[1]), '%s: %s' % (x[2].loc.split('(')[0], x[3]))
    rep.extra['kernels'] = n
    rep.need('product', n, 1, 'step kernels')


def rule_of(f):
    b = verb.base(f.dem)
    for k, r in (('_load', 'load'), ('compute_Schur', 'schur'), ('extract', 'block'), ('compute_', 'product'), ('kappa', 'kappa'), ('scale', 'scale'), ('diag', 'diagonal')):
        if k in b:
            return r
    return 'product'
