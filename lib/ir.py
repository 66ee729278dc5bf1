"""Resolved-program model: wraps the JSON written by vtdump.

Integers are put in linear normal form (Lin): const + sum coef*atom, where an
atom is a hashable tuple.  Loop induction phis become start + step*('it',loop).
"""
import json, re
from fractions import Fraction


class Undecided(Exception):
    pass


class Lin:
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = dict(t) if t else {}

    @staticmethod
    def atom(a, k=1):
        return Lin(0, {a: k})

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        r = Lin(self.c + o.c, self.t)
        for a, k in o.t.items():
            v = r.t.get(a, 0) + k
            if v:
                r.t[a] = v
            else:
                r.t.pop(a, None)
        return r

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {a: v * k for a, v in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def key(self):
        return (self.c, tuple(sorted(((repr(a), a, k) for a, k in self.t.items()), key=lambda x: x[0])))

    def tup(self):
        return ('lin', self.c, tuple((a, k) for _, a, k in sorted(((repr(a), a, k) for a, k in self.t.items()), key=lambda x: x[0])))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, frozenset(self.t.items())))

    def is_const(self):
        return not self.t

    def subst(self, m):
        r = Lin(self.c)
        for a, k in self.t.items():
            if a in m:
                x = m[a]
                r = r + (x if isinstance(x, Lin) else Lin(x)).scale(k)
            else:
                r = r + Lin.atom(a, k)
        return r

    def divexact(self, k):
        if self.c % k or any(v % k for v in self.t.values()):
            return None
        return Lin(self.c // k, {a: v // k for a, v in self.t.items()})

    def single(self):
        """the atom if this is exactly 1*atom"""
        if self.c == 0 and len(self.t) == 1:
            (a, k), = self.t.items()
            if k == 1:
                return a
        return None

    def __repr__(self):
        s = []
        for a, k in self.t.items():
            s.append((('' if k == 1 else '%d*' % k) + astr(a)))
        if self.c or not s:
            s.append(str(self.c))
        return '+'.join(s)


def astr(a):
    if isinstance(a, tuple):
        if a[0] == 'lin':
            return repr(untup(a))
        return a[0] + '(' + ','.join(astr(x) for x in a[1:]) + ')'
    return str(a)


def untup(t):
    return Lin(t[1], dict(t[2]))


class Types:
    def __init__(self, lst):
        self.l = {t['id']: t for t in lst}

    def strip(self, tid):
        """strip cv, typedef; return type dict"""
        while tid is not None and tid >= 0:
            t = self.l[tid]
            if t['tag'] in ('DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_typedef', 'DW_TAG_restrict_type'):
                tid = t['base']
                continue
            return t
        return None

    def pointee(self, tid):
        t = self.strip(tid)
        if t and t['tag'] in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return self.strip(t['base'])
        return None

    def field(self, t, off):
        """dotted member path at byte offset off of composite t (bases are transparent)"""
        path = []
        while t and t['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type', 'DW_TAG_union_type'):
            best = None
            for e in t.get('el', []):
                m = self.l[e]
                if m.get('static'):
                    continue
                mt = self.strip(m['base'])
                sz = m['size'] or (mt['size'] if mt else 0)
                if m['off'] <= off < m['off'] + max(sz, 1):
                    if best is None or sz > best[2]:
                        best = (m, mt, sz)
            if best is None:
                return None
            m, mt, sz = best
            off -= m['off']
            if m['tag'] == 'DW_TAG_member':
                path.append(m['name'])
            t = mt
        if t and t['tag'] == 'DW_TAG_array_type':
            el = self.strip(t['base'])
            if el and el['size']:
                path.append('[%d]' % (off // el['size']))
                off = off % el['size']
        elif off:
            path.append('+%d' % off)
        return '.'.join(path)


class Instr:
    __slots__ = ('d', 'id', 'op', 'blk', 'pos', 'ops')

    def __init__(self, d, blk, pos):
        self.d = d
        self.id = d['id']
        self.op = d['op']
        self.ops = d.get('ops', [])
        self.blk = blk
        self.pos = pos

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def loc(self):
        d = self.d
        if 'ln' not in d:
            return '?'
        return '%s:%d(%s)' % (shortfile(d.get('fl', '?')), d['ln'], d.get('sc', '?'))

    def locs(self):
        """inline chain, innermost first, 'file:line:func'"""
        d = self.d
        r = []
        if 'ln' in d:
            r.append('%s:%d:%s' % (shortfile(d.get('fl', '?')), d['ln'], d.get('sc', '?')))
        for s in d.get('ia', []):
            p = s.split(':')
            r.append(shortfile(p[0]) + ':' + ':'.join(p[1:]))
        return r


def _deep(a):
    r = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'it':
                r.add(x)
            for y in x:
                go(y)
    go(a)
    return r


def shortfile(f):
    for p in ('/src/hif/', '/libhifir/'):
        i = f.rfind(p)
        if i >= 0:
            return f[i + 1:]
    return f.rsplit('/', 1)[-1]


class Function:
    def __init__(self, d, types):
        self.d = d
        self.name = d['name']
        self.dem = d['dem']
        self.types = types
        self.args = d['args']
        self.blocks = {}
        self.ins = {}
        for b in d['blocks']:
            lst = []
            for k, x in enumerate(b['in']):
                i = Instr(x, b['id'], k)
                lst.append(i)
                self.ins[i.id] = i
            self.blocks[b['id']] = lst
        self.succ = {b['id']: b['succ'] for b in d['blocks']}
        self.idom = {b['id']: b['idom'] for b in d['blocks']}
        self.ipdom = {b['id']: b['ipdom'] for b in d['blocks']}
        self.bloop = {b['id']: b['loop'] for b in d['blocks']}
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in dict.fromkeys(ss):
                self.pred[s].append(b)
        self.loops = {l['id']: l for l in d['loops']}
        self.entry = d['blocks'][0]['id'] if d['blocks'] else None
        self._lin = {}
        self._addr = {}

    # ---- order / dominance
    def rpo(self):
        """reverse postorder with loop bodies before what follows the loop"""
        seen, out = set(), []

        def nxt(b):
            ss = self.succ[b]
            if len(ss) < 2 or self.bloop.get(b, -1) == -1:
                return iter(ss)
            ch = self.loop_chain(b)
            return iter(sorted(ss, key=lambda s: sum(1 for l in ch if s in self.loops[l]['blocks'])))
        st = [(self.entry, nxt(self.entry))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, nxt(s)))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def dom(self, a, b):
        while b != -1:
            if a == b:
                return True
            b = self.idom[b]
        return False

    def idominates(self, i, j):
        if i.blk == j.blk:
            return i.pos < j.pos
        return self.dom(i.blk, j.blk)

    def in_loop(self, blk, lid):
        l = self.bloop[blk]
        while l != -1:
            if l == lid:
                return True
            l = self.loops[l]['parent']
        return False

    def loop_chain(self, blk):
        """outermost first"""
        r = []
        l = self.bloop[blk]
        while l != -1:
            r.append(l)
            l = self.loops[l]['parent']
        return r[::-1]

    def users(self):
        u = {}
        for i in self.ins.values():
            for o in i.ops:
                u.setdefault(o, []).append(i)
            if i.op == 'getelementptr':
                u.setdefault(i.get('base'), []).append(i)
                for v, _ in i.get('var', []):
                    if i not in u.setdefault(v, []):
                        u[v].append(i)
        return u

    # ---- integers
    def lin(self, v):
        r = self._lin.get(v)
        if r is None:
            self._lin[v] = Lin.atom(('cyc', v))
            r = self._compute_lin(v)
            self._lin[v] = r
        return r

    def _compute_lin(self, v):
        if v.startswith('c:'):
            return Lin(int(v[2:]))
        if v == 'null':
            return Lin(0)
        if v[0] == 'a':
            return Lin.atom(('arg', int(v[1:])))
        if v[0] != '%':
            return Lin.atom(('k', v))
        i = self.ins[v]
        op = i.op
        if op == 'add' or op == 'or' and self._disjoint(i):
            return self.lin(i.ops[0]) + self.lin(i.ops[1])
        if op == 'sub':
            return self.lin(i.ops[0]) - self.lin(i.ops[1])
        if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
            if op == 'trunc' and i.get('ty') in ('i1', 'i8'):
                return Lin.atom(('op', op, i.get('ty'), self.lin(i.ops[0]).tup()))
            if op in ('zext', 'sext') and i.get('from_ty') == 'i1':
                return Lin.atom(('bool', v))
            return self.lin(i.ops[0])
        if op == 'ptrtoint':
            try:
                root, off = self.addr(i.ops[0])
                return Lin.atom(('ptr', root)) + off
            except Undecided:
                return Lin.atom(('v', v))
        if op == 'mul':
            a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
            if b.is_const():
                return a.scale(b.c)
            if a.is_const():
                return b.scale(a.c)
            x, y = sorted([a.tup(), b.tup()], key=repr)
            return Lin.atom(('mul', x, y))
        if op == 'shl':
            b = self.lin(i.ops[1])
            if b.is_const() and 0 <= b.c < 62:
                return self.lin(i.ops[0]).scale(1 << b.c)
        if op in ('ashr', 'lshr', 'sdiv', 'udiv'):
            a, b = self.lin(i.ops[0]), self.lin(i.ops[1])
            if b.is_const():
                k = (1 << b.c) if op in ('ashr', 'lshr') else b.c
                if k:
                    q = a.divexact(k)
                    if q is not None:
                        return q
            return Lin.atom(('op', 'div', a.tup(), b.tup() if not b.is_const() else (1 << b.c if op in ('ashr', 'lshr') else b.c)))
        if op == 'phi':
            s = i.get('scev')
            if s:
                try:
                    return self.scev_lin(s)
                except Undecided:
                    pass
            vals = [o for o in i.ops]
            if len(set(vals)) == 1:
                return self.lin(vals[0])
            return Lin.atom(('phi', v))
        if op == 'load':
            return Lin.atom(self.load_atom(i))
        if op == 'call':
            nm = i.get('callee', '') or ''
            if nm.startswith('llvm.umax') or nm.startswith('llvm.smax'):
                a, b = self.lin(i.ops[0]).tup(), self.lin(i.ops[1]).tup()
                return Lin.atom(('max',) + tuple(sorted([a, b], key=repr)))
            if nm.startswith('llvm.umin') or nm.startswith('llvm.smin'):
                a, b = self.lin(i.ops[0]).tup(), self.lin(i.ops[1]).tup()
                return Lin.atom(('min',) + tuple(sorted([a, b], key=repr)))
            if nm.startswith('llvm.expect'):
                return self.lin(i.ops[0])
        return Lin.atom(('v', v))

    def _disjoint(self, i):
        # instcombine turns disjoint adds into or; accept only (x<<k)|const
        a, b = i.ops
        if b.startswith('c:') and a[0] == '%' and self.ins[a].op == 'shl':
            return True
        return False

    def load_atom(self, i):
        try:
            root, off = self.addr(i.ops[0])
        except Undecided:
            return ('v', i.id)
        return ('ld', root, off.tup(), i.get('ty'), i.id if root[0] == 'alloca' else None)

    def scev_lin(self, s):
        k = s[0]
        if k == 'c':
            return Lin(int(s[1]))
        if k == 'u':
            return self.lin(s[1])
        if k in ('trunc', 'zext', 'sext'):
            return self.scev_lin(s[1])
        if k == 'add':
            r = Lin(0)
            for x in s[1:]:
                r = r + self.scev_lin(x)
            return r
        if k == 'mul':
            r = Lin(1)
            for x in s[1:]:
                y = self.scev_lin(x)
                if y.is_const():
                    r = r.scale(y.c)
                elif r.is_const():
                    r = y.scale(r.c)
                else:
                    p, q = sorted([r.tup(), y.tup()], key=repr)
                    r = Lin.atom(('mul', p, q))
            return r
        if k == 'rec' and len(s) == 4:
            step = self.scev_lin(s[3])
            it = ('it', s[1])
            st = self.scev_lin(s[2])
            if step.is_const():
                return st + Lin.atom(it, step.c)
            p, q = sorted([step.tup(), Lin.atom(it).tup()], key=repr)
            return st + Lin.atom(('mul', p, q))
        if k in ('umax', 'smax', 'umin', 'smin'):
            ops = tuple(sorted((self.scev_lin(x).tup() for x in s[1:]), key=repr))
            return Lin.atom(('max' if 'max' in k else 'min',) + ops)
        if k == 'udiv':
            a, b = self.scev_lin(s[1]), self.scev_lin(s[2])
            if b.is_const() and b.c:
                q = a.divexact(b.c)
                if q is not None:
                    return q
            return Lin.atom(('op', 'div', a.tup(), b.tup()))
        if k == 'p2i':
            root, off = self.scev_addr(s[1])
            return Lin.atom(('ptr', root)) + off
        raise Undecided('scev ' + k)

    # ---- addresses: (root, Lin byte offset)
    def addr(self, v):
        r = self._addr.get(v)
        if r is None:
            self._addr[v] = ((('cyc', v)), Lin(0))
            r = self._compute_addr(v)
            self._addr[v] = r
        return r

    def _compute_addr(self, v):
        if v[0] == 'a' and v[1:].isdigit():
            return (('arg', int(v[1:])), Lin(0))
        if v.startswith('g:'):
            return (('global', v[2:]), Lin(0))
        if v.startswith('go:'):
            _, n, o = v.rsplit(':', 2) if v.count(':') > 2 else v.split(':')
            return (('global', n), Lin(int(o)))
        if v == 'null':
            return (('null',), Lin(0))
        if v[0] != '%':
            return (('k', v), Lin(0))
        i = self.ins[v]
        if i.op == 'getelementptr':
            if 'off' not in i.d:
                raise Undecided('gep')
            root, off = self.addr(i.get('base'))
            off = off + i.get('off')
            for x, k in i.get('var', []):
                off = off + self.lin(x).scale(k)
            return (root, off)
        if i.op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.addr(i.ops[0])
        if i.op == 'alloca':
            return (('alloca', v), Lin(0))
        if i.op == 'load':
            a = self.load_atom(i)
            if a[0] == 'ld' and a[4] is not None:
                w = self.alloca_value(i)
                if w is not None:
                    return self.addr(w)
            return (a, Lin(0))
        if i.op == 'phi':
            s = i.get('scev')
            if s:
                try:
                    return self.scev_addr(s)
                except Undecided:
                    pass
            if len(set(i.ops)) == 1:
                return self.addr(i.ops[0])
            # phi(null, p): whatever is accessed through it lies in p
            nn = {o for o in i.ops if o != 'null'}
            if len(nn) == 1:
                return self.addr(nn.pop())
            return (('phi', v), Lin(0))
        if i.op == 'select' and 'null' in i.ops[1:]:
            nn = [o for o in i.ops[1:] if o != 'null']
            if nn:
                return self.addr(nn[0])
        if i.op in ('call', 'invoke'):
            return (('call', v), Lin(0))
        if i.op == 'inttoptr':
            l = self.lin(i.ops[0])
            for a in list(l.t):
                if isinstance(a, tuple) and a[0] == 'ptr' and l.t[a] == 1:
                    return (a[1], l - Lin.atom(a))
        return (('v', v), Lin(0))

    def scev_addr(self, s):
        k = s[0]
        if k == 'u':
            return self.addr(s[1])
        if k == 'add':
            root, off = None, Lin(0)
            rest = []
            for x in s[1:]:
                if self.scev_isptr(x):
                    if root is not None:
                        raise Undecided('two ptrs')
                    root, o = self.scev_addr(x)
                    off = off + o
                else:
                    off = off + self.scev_lin(x)
            if root is None:
                raise Undecided('noptr')
            return root, off
        if k == 'rec' and len(s) == 4:
            root, off = self.scev_addr(s[2])
            step = self.scev_lin(s[3])
            if not step.is_const():
                raise Undecided('step')
            return root, off + Lin.atom(('it', s[1]), step.c)
        raise Undecided('scevaddr ' + k)

    def scev_isptr(self, s):
        k = s[0]
        if k == 'u':
            v = s[1]
            if v[0] == '%':
                return self.ins[v].get('ty') == 'ptr'
            if v[0] == 'a':
                return self.args[int(v[1:])]['ty'] == 'ptr'
            return v.startswith('g') or v == 'null'
        if k == 'rec':
            return self.scev_isptr(s[2])
        if k == 'add':
            return any(self.scev_isptr(x) for x in s[1:])
        return False

    def alloca_value(self, ld):
        """value of a load from an alloca slot if exactly one store to that slot dominates it and no
        other store to it exists"""
        root, off = self.addr(ld.ops[0])
        st = [s[0] for s in self.alloca_stores(root) if s[1] == off]
        best = None
        for s in st:
            if self.idominates(s, ld) and (best is None or self.idominates(best, s)):
                best = s
        if best is None:
            return None
        for s in st:
            if s is best or self.idominates(s, best):
                continue
            if self.reaches(s, ld):
                return None
        return best.ops[0]

    def reaches(self, a, b):
        if a.blk == b.blk and a.pos < b.pos:
            return True
        return b.blk in self.reach(a.blk)

    def reach(self, blk):
        if not hasattr(self, '_rc'):
            self._rc = {}
        r = self._rc.get(blk)
        if r is None:
            r = set()
            st = list(self.succ[blk])
            while st:
                x = st.pop()
                if x not in r:
                    r.add(x)
                    st.extend(self.succ[x])
            self._rc[blk] = r
        return r

    def alloca_stores(self, root):
        if not hasattr(self, '_as'):
            self._as = {}
            for i in self.ins.values():
                if i.op == 'store':
                    try:
                        r, o = self.addr(i.ops[1])
                    except Undecided:
                        continue
                    if r[0] == 'alloca':
                        self._as.setdefault(r, []).append((i, o))
        return self._as.get(root, [])

    # ---- trip counts
    def trips(self, lid):
        s = self.loops[lid]['btc']
        if s[0] in ('none', 'deep'):
            t = self.iv_trips(lid)
            if t is None:
                raise Undecided('trip count of loop %d unknown' % lid)
            return t
        return self.scev_lin(s) + 1

    def iv_trips(self, lid):
        """count of a loop whose bound is re-read from an object header on every iteration (headers are
        assumed not to alias element data)"""
        L = self.loops[lid]
        if len(L['exiting']) != 1:
            return None
        e = L['exiting'][0]
        br = self.blocks[e][-1]
        ss = self.succ[e]
        if br.op != 'br' or len(ss) != 2:
            return None
        c = self.ins.get(br.ops[0])
        if c is None or c.op != 'icmp':
            return None
        stay = ss[0] in L['blocks']
        p = c.get('pred')
        neg = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'slt': 'sge', 'ule': 'ugt', 'sle': 'sgt', 'ugt': 'ule', 'sgt': 'sle', 'uge': 'ult', 'sge': 'slt'}
        if not stay:
            p = neg[p]
        try:
            if self.isptr(c.ops[0]):
                (ra, oa), (rb, ob) = self.addr(c.ops[0]), self.addr(c.ops[1])
                if ra != rb:
                    return None
                d = oa - ob
            else:
                d = self.lin(c.ops[0]) - self.lin(c.ops[1])
        except Undecided:
            return None
        it = ('it', lid)
        k = d.t.get(it, 0)
        base = d - Lin.atom(it, k) if k else d
        if not k or any(it in _deep(a) for a in base.t):
            return None
        # stay while (base + k*it) p 0
        if p in ('ult', 'slt') and k > 0 or p in ('ugt', 'sgt') and k < 0 or p == 'ne':
            n = base.scale(-1 if k > 0 else 1)
            if abs(k) != 1:
                n = n.divexact(abs(k))
                if n is None:
                    return None
            return n + 1
        if (p in ('ule', 'sle') and k == 1) or (p in ('uge', 'sge') and k == -1):
            return base.scale(-1 if k > 0 else 1) + 2
        return None

    def isptr(self, v):
        if v[0] == '%':
            return self.ins[v].get('ty') == 'ptr'
        if v[0] == 'a' and v[1:].isdigit():
            return self.args[int(v[1:])]['ty'] == 'ptr'
        return v.startswith('g') or v == 'null'

    def field_of(self, root, off):
        """debug-info name of header slot (root must be an arg) -> 'argname.path' """
        if root[0] == 'arg':
            a = self.args[root[1]]
            nm = a.get('var') or a.get('name') or 'arg%d' % root[1]
            t = self.types.pointee(a['dty']) if 'dty' in a else None
            if t is None:
                return None
            if t['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type'):
                f = self.types.field(t, off)
                return nm + '.' + f if f else None
            if off == 0:
                return nm
        return None


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = Types(d['types'])
        self.functions = [Function(f, self.types) for f in d['functions']]
        self.globals = {g['name']: g for g in d['globals']}

    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.functions if r.search(f.dem)]
