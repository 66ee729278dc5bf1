"""Ownership analysis of the reference-counted arrays.

A path-sensitive typestate analysis over the lowered methods of hif::Array: the abstract heap holds the array headers a
method sees, the reference counters and the element buffers; integers are linear forms with lower bounds; every branch that
the abstract state does not decide is taken both ways, every throwing allocation may throw and every nothrow one may fail.
States are merged per (block, state); values that change around a loop become unknown.  At each exit, normal or
exceptional, the ownership rules are evaluated on the abstract heap.
"""
from ir import Lin, Undecided
import re
from math import gcd

TOP = ('top',)
POISON = ('poison',)
NULL = ('p', None, Lin(0))
LIMIT = 20000


def I(n):
    return ('i', n if isinstance(n, Lin) else Lin(n))


def P(o, off=0):
    return ('p', o, off if isinstance(off, Lin) or off is None else Lin(off))


def sym(n):
    return I(Lin.atom(n))


class Bad(Exception):
    def __init__(self, why, ins=None):
        Exception.__init__(self, why)
        self.ins = ins


class State:
    """mem: (object, offset) -> value; objs: object -> dict(kind, live, size, fresh, owner); facts: forms >= 0"""

    def __init__(self):
        self.mem = {}
        self.objs = {}
        self.facts = []
        self.n = 0
        self.log = []
        self.events = frozenset()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.facts = list(self.facts)
        s.n = self.n
        s.log = list(self.log)
        s.events = self.events
        return s

    def key(self):
        return (tuple(sorted((repr(k), repr(v)) for k, v in self.mem.items())),
                tuple(sorted((str(k), repr(sorted(v.items(), key=str))) for k, v in self.objs.items())),
                tuple(sorted(map(repr, self.facts))), repr(self.log), self.events)

    def new(self, kind, size, **k):
        self.n += 1
        o = '%s#%d' % (kind, self.n)
        self.objs[o] = dict(k, kind=kind, live=True, size=size, fresh=True)
        return o

    def geq0(self, l, depth=3):
        """is the form provably >= 0 from the facts (sum of at most depth of them)"""
        if l.is_const():
            return l.c >= 0
        if depth == 0:
            return False
        g = 0
        for k in l.t.values():
            g = gcd(g, k)
        if g > 1:
            l = Lin(l.c // g, {a: k // g for a, k in l.t.items()})
        for f in self.facts:
            for a, k in f.t.items():
                m = l.t.get(a, 0)
                if m * k > 0 and m % k == 0:
                    if self.geq0(l - f.scale(m // k), depth - 1):
                        return True
        return False

    def cmp(self, pred, a, b):
        """truth of a pred b, or None"""
        d = a - b
        if pred in ('eq', 'ne'):
            r = None
            if d.is_const():
                r = d.c == 0
            elif self.geq0(d - 1) or self.geq0(d.scale(-1) - 1):
                r = False
            elif self.geq0(d) and self.geq0(d.scale(-1)):
                r = True
            return r if r is None or pred == 'eq' else not r
        g = {'ugt': (d - 1, False), 'sgt': (d - 1, False), 'uge': (d, False), 'sge': (d, False),
             'ult': (d, True), 'slt': (d, True), 'ule': (d - 1, True), 'sle': (d - 1, True)}[pred]
        form, neg = g
        if self.geq0(form):
            return not neg
        if self.geq0(form.scale(-1) - 1):
            return neg
        return None

    def assume(self, pred, a, b, truth):
        d = a - b
        if pred == 'ne':
            pred, truth = 'eq', not truth
        if pred == 'eq':
            if truth:
                self.facts += [d, d.scale(-1)]
            elif self.geq0(d):
                self.facts.append(d - 1)
            elif self.geq0(d.scale(-1)):
                self.facts.append(d.scale(-1) - 1)
            return
        if pred in ('ult', 'slt', 'ule', 'sle'):
            pred, truth = {'ult': 'uge', 'slt': 'sge', 'ule': 'ugt', 'sle': 'sgt'}[pred], not truth
        form = d if pred in ('uge', 'sge') else d - 1
        self.facts.append(form if truth else form.scale(-1) - 1)


class Interp:
    def __init__(self, prog):
        self.fn = {f.name: f for f in prog.functions}
        self.steps = 0
        self.dtors = [n for n in self.fn if re.search(r'D[12]Ev$', n)]
        self.seen_fns = set()

    def resolve(self, name):
        if name in self.fn:
            return self.fn[name]
        m = re.match(r'(.*)([CD])1(E.*)$', name)
        if m and m.group(1) + m.group(2) + '2' + m.group(3) in self.fn:
            return self.fn[m.group(1) + m.group(2) + '2' + m.group(3)]
        return None

    # ---- values
    def val(self, st, env, v):
        if v.startswith('c:'):
            return I(int(v[2:]))
        if v == 'null':
            return NULL
        if v.startswith('g:') or v.startswith('go:'):
            return P('@' + v.split(':')[1], 0)
        if v in ('undef', 'poison'):
            return POISON
        return env.get(v, TOP)

    def chk(self, st, p, ins, what):
        """object designated by an access through p"""
        if p == TOP or p[0] != 'p':
            if p == POISON:
                raise Bad('%s through an indeterminate pointer' % what, ins)
            raise Undecided('%s through an unknown pointer' % what)
        o = p[1]
        if o is None:
            raise Bad('%s through null' % what, ins)
        ob = st.objs.get(o)
        if ob is not None and not ob['live']:
            raise Bad('%s of freed %s' % (what, ob['kind']), ins)
        return o

    def load(self, st, p, ins):
        o = self.chk(st, p, ins, 'read')
        ob = st.objs.get(o)
        if ob is None or ob['kind'] in ('buffer', 'ext'):
            self.inside(st, ob, p[2], ins, 'reads')
            if ob and p[2] is not None and p[2].is_const():
                return ('el', o, p[2])
            return TOP
        if p[2] is None or not p[2].is_const():
            raise Undecided('read of a header at an unknown offset')
        return st.mem.get((o, p[2].c), TOP)

    def inside(self, st, ob, off, ins, what):
        if ob is None or off is None or ob.get('size') is None:
            return
        ty = ins.get('ty') if ins.op == 'load' else None
        if st.geq0(off.scale(-1) - 1):
            raise Bad('%s before the start of the %s' % (what, ob['kind']), ins)
        if st.geq0(off - ob['size']):
            raise Bad('%s past the end of the %s' % (what, ob['kind']), ins)

    def store(self, st, v, p, ins):
        o = self.chk(st, p, ins, 'write')
        ob = st.objs.get(o)
        if ob is None:
            return
        if ob['kind'] == 'ext' and ob.get('const'):
            raise Bad('write into external data', ins)
        if ob['kind'] in ('buffer', 'ext'):
            self.inside(st, ob, p[2], ins, 'writes')
            if p[2] is None or not p[2].is_const():
                if (o, 'loop') not in st.log:
                    st.log.append((o, 'loop'))
            if v[0] == 'el' and p[2] is not None and p[2].is_const():
                st.log.append((o, repr(p[2]), v[1], repr(v[2]), Lin({'double': 8, 'ptr': 8, 'i64': 8, 'float': 4, 'i32': 4}.get(ins.get('sty'), 1))))
            return
        if p[2] is None or not p[2].is_const():
            raise Undecided('write of a header at an unknown offset')
        st.mem[(o, p[2].c)] = v

    # ---- one function: list of (kind, state, value) with kind 'ret' | 'throw'
    def run(self, f, st, args, depth=0):
        if depth > 6:
            raise Undecided('call depth')
        self.seen_fns.add(f.dem)
        out, seen, memo = [], set(), set()
        env = {'a%d' % k: a for k, a in enumerate(args)}
        work = [(f.entry, None, st, env)]
        uses = {}
        while work:
            b, pb, st, env = work.pop()
            self.steps += 1
            if self.steps > LIMIT:
                raise Undecided('too many states')
            env = dict(env)
            hdr = next((l for l in f.loops.values() if l['header'] == b), None)
            back = hdr is not None and pb in hdr['blocks']
            new = {}
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                inc = dict(zip(i.get('from'), i.ops))
                v = self.val(st, env, inc[pb]) if pb in inc else TOP
                old = env.get(i.id)
                if back and old is not None and old != v:
                    v = P(v[1], None) if v[0] == 'p' and old[0] == 'p' and v[1] == old[1] else TOP
                new[i.id] = v
            env.update(new)
            if hdr is not None:
                k = (b, repr(sorted(env.items())) if not back else repr(sorted((a, env[a]) for a in new)), st.key())
                if k in seen:
                    continue
                seen.add(k)
            self.block(f, b, 0, st, env, work, out, depth)
        return out

    def block(self, f, b, start, st, env, work, out, depth):
        lst = f.blocks[b]
        k = start
        while k < len(lst):
            i = lst[k]
            k += 1
            op = i.op
            if op in ('phi', 'landingpad', 'fence'):
                continue
            g = lambda n: self.val(st, env, i.ops[n])
            if op == 'alloca':
                o = 'alloca:%s:%d' % (i.id, depth)
                st.objs[o] = dict(kind='local', live=True, size=self.local_size(i), fresh=False)
                env[i.id] = P(o, 0)
            elif op == 'getelementptr':
                p = self.val(st, env, i.get('base'))
                if p[0] == 'p':
                    off = p[2]
                    if off is not None:
                        off = off + i.get('off', 0)
                        for x, s in i.get('var', []):
                            v = self.val(st, env, x)
                            off = off + v[1].scale(s) if v[0] == 'i' and off is not None else None
                    p = P(p[1], off) if p[1] is not None or off is None or not (off.is_const() and off.c == 0) else p
                env[i.id] = p
            elif op == 'load':
                env[i.id] = self.load(st, g(0), i)
            elif op == 'store':
                self.store(st, g(0), g(1), i)
            elif op in ('add', 'sub'):
                a, c = g(0), g(1)
                env[i.id] = I(a[1] + c[1] if op == 'add' else a[1] - c[1]) if a[0] == c[0] == 'i' else TOP
            elif op == 'or' and i.get('ty') in ('i32', 'i64') and g(1)[0] == 'i' and g(1)[1].is_const() and g(1)[1].c > 0:
                # adding a constant to a multiple of a power of two above it is written this way
                a, n = g(0), g(1)[1].c
                env[i.id] = I(a[1] + n) if a[0] == 'i' and a[1].divexact(1 << n.bit_length()) is not None else self.mixed(a, g(1))
            elif op in ('and', 'or', 'xor') and i.get('ty') != 'i1':
                env[i.id] = self.mixed(g(0), g(1))
            elif op in ('mul', 'shl'):
                a, c = g(0), g(1)
                if a[0] == c[0] == 'i' and c[1].is_const() and (op == 'mul' or 0 <= c[1].c < 60):
                    env[i.id] = I(a[1].scale(c[1].c if op == 'mul' else 1 << c[1].c))
                else:
                    env[i.id] = TOP
            elif op in ('sdiv', 'udiv', 'ashr', 'lshr'):
                a, c = g(0), g(1)
                r = None
                if a[0] == c[0] == 'i' and c[1].is_const() and c[1].c > 0:
                    r = a[1].divexact(c[1].c if op.endswith('div') else 1 << c[1].c)
                env[i.id] = I(r) if r is not None else TOP
            elif op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
                a = g(0)
                if op == 'ptrtoint' and a[0] == 'p':
                    a = I(a[2] + Lin.atom(('base', a[1]))) if a[1] is not None and a[2] is not None else TOP if a[1] else I(0)
                env[i.id] = a
            elif op == 'uitofp' or op == 'sitofp':
                a = g(0)
                env[i.id] = ('f', a[1], 1.0) if a[0] == 'i' else TOP
            elif op == 'fmul':
                a, c = g(0), i.ops[1]
                if a[0] == 'f' and c.startswith('d:'):
                    env[i.id] = ('f', a[1], a[2] * float(c[2:]))
                else:
                    env[i.id] = TOP
            elif op in ('fptoui', 'fptosi'):
                a = g(0)
                if a[0] == 'f':
                    if a[2] == 1.0:
                        env[i.id] = I(a[1])
                    else:
                        v = Lin.atom('scaled(%s,%g)' % (a[1], a[2]))
                        st.facts.append(v)
                        st.facts.append(v - a[1] if a[2] >= 1 else a[1] - v)
                        env[i.id] = I(v)
                else:
                    env[i.id] = TOP
            elif op == 'icmp':
                env[i.id] = ('cmp', i.get('pred'), g(0), g(1))
                x, y = g(0), g(1)
                if x[0] in ('cmp', 'not') and y[0] == 'i' and y[1].is_const() and i.get('pred') in ('eq', 'ne') and y[1].c in (0, 1):
                    env[i.id] = x if (y[1].c == 1) == (i.get('pred') == 'eq') else ('not', x)
                t = self.truth(st, env[i.id])
                if t is not None:
                    env[i.id] = I(int(t))
            elif op == 'select':
                t = self.truth(st, g(0))
                if t is None:
                    for s2, e2, t2 in self.split(st, env, g(0)):
                        e2[i.id] = self.val(s2, e2, i.ops[1 if t2 else 2])
                        self.block(f, b, k, s2, e2, work, out, depth)
                    return
                env[i.id] = g(1 if t else 2)
            elif op in ('and', 'or', 'xor') and i.get('ty') == 'i1':
                a, c = self.truth(st, g(0)), self.truth(st, g(1))
                if op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
                    if a is None:
                        env[i.id] = ('not', g(0))
                    else:
                        env[i.id] = I(int(not a))
                elif a is not None and c is not None:
                    env[i.id] = I(int((a and c) if op == 'and' else (a or c) if op == 'or' else a != c))
                elif op == 'and' and (a is False or c is False):
                    env[i.id] = I(0)
                elif op == 'or' and (a or c):
                    env[i.id] = I(1)
                elif op != 'xor' and (a is not None or c is not None):
                    env[i.id] = g(1) if a is not None else g(0)
                elif g(0)[0] in ('cmp', 'not', 'streq') and g(1) != TOP:
                    for s2, e2, t in self.split(st, env, g(0)):
                        w = self.val(s2, e2, i.ops[1])
                        e2[i.id] = (('not', w) if t else w) if op == 'xor' else w if t == (op == 'and') else I(int(t))
                        self.block(f, b, k, s2, e2, work, out, depth)
                    return
                else:
                    env[i.id] = TOP
            elif op == 'extractvalue':
                a = g(0)
                ix = i.get('ix')
                env[i.id] = a[1 + ix[0]] if a[0] == 'pair' and ix else TOP
            elif op in ('call', 'invoke'):
                r = self.call(f, b, k, i, st, env, work, out, depth)
                if r is None:
                    return          # continued elsewhere
            elif op == 'ret':
                out.append(('ret', st, g(0) if i.ops else TOP, i))
                return
            elif op == 'resume':
                out.append(('throw', st, TOP, i))
                return
            elif op == 'unreachable':
                return
            elif op == 'br':
                ss = f.succ[b]
                if len(ss) == 1:
                    work.append((ss[0], b, st, env))
                    return
                tgt = [int(x[1:]) for x in i.ops[1:]] if len(i.ops) == 3 else None
                # ops: condition, false target, true target (the order of succ is true, false)
                for s2, e2, t in self.split(st, env, g(0)):
                    work.append((ss[0] if t else ss[1], b, s2, e2))
                return
            elif op == 'switch':
                v, cs = g(0), i.get('cases') or []
                if v[0] == 'i' and v[1].is_const() and cs:
                    work.append((next((t for c, t in cs if c == v[1].c), i.get('def')), b, st, env))
                    return
                for s in dict.fromkeys(f.succ[b]):
                    s2, val = st.copy(), [c for c, t in cs if t == s]
                    if v[0] == 'i' and s != i.get('def') and len(val) == 1:
                        s2.assume('eq', v[1], Lin(val[0]), True)
                    work.append((s, b, s2, env))
                return
            else:
                env[i.id] = self.other(st, i, g)

    def other(self, st, i, g):
        return TOP

    def mixed(self, a, b):
        return TOP

    def local_size(self, i):
        return None

    def truth(self, st, v):
        if v[0] == 'i' and v[1].is_const():
            return bool(v[1].c & 1)
        if v[0] == 'not':
            t = self.truth(st, v[1])
            return None if t is None else not t
        if v[0] == 'cmp':
            _, p, a, b = v
            if a[0] == 'i' and b[0] == 'i':
                return st.cmp(p, a[1], b[1])
            if a[0] == 'p' and b[0] == 'p' and p in ('eq', 'ne'):
                if a[1] == b[1]:
                    if a[1] is None:
                        return p == 'eq'
                    if a[2] is not None and b[2] is not None:
                        return st.cmp(p, a[2], b[2])
                    return None
                return p == 'ne'
        if v[0] == 'i' or v == TOP or v[0] == 'cmp':
            return None
        if v == POISON:
            raise Bad('decides on an indeterminate value')
        return None

    def split(self, st, env, v):
        t = self.truth(st, v)
        if t is not None:
            return [(st, env, t)]
        r = []
        for t in (True, False):
            s2, e2 = st.copy(), dict(env)
            w, tt = v, t
            while w[0] == 'not':
                w, tt = w[1], not tt
            if w[0] == 'cmp' and w[2][0] == 'i' and w[3][0] == 'i':
                s2.assume(w[1], w[2][1], w[3][1], tt)
            elif w[0] == 'i':
                s2.assume('eq', w[1], Lin(1 if tt else 0), True)
            r.append((s2, e2, t))
        return r

    # ---- calls; returns True to go on in this block, None when continuations were queued
    def call(self, f, b, k, i, st, env, work, out, depth):
        name = i.get('callee') or ''
        ic = i.get('icallee') or ''
        if not name and ic.startswith('g:'):
            name = ic[2:]
        dem = i.get('cdem') or ''
        a = [self.val(st, env, o) for o in i.ops]
        inv = i.op == 'invoke'

        def go(s, e, v):
            if v is not None:
                e[i.id] = v
            if inv:
                work.append((i.get('normal'), b, s, e))
            else:
                self.block(f, b, k, s, e, work, out, depth)

        def thrown(s, e):
            if inv:
                work.append((i.get('unwind'), b, s, dict(e)))
            else:
                out.append(('throw', s, TOP, i))
        if name.startswith('llvm.'):
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                n = a[2]
                if n[0] == 'i' and st.cmp('eq', n[1], Lin(0)):
                    return True
                self.chk(st, a[1], i, 'read')
                self.chk(st, a[0], i, 'write')
                self.copied(st, a[0], a[1], n, i)
            elif name.startswith('llvm.memset'):
                self.chk(st, a[0], i, 'write')
                ob = st.objs.get(a[0][1])
                if ob and ob['kind'] not in ('buffer', 'ext', 'local'):
                    if a[2][0] == 'i' and a[2][1].is_const() and a[0][2] is not None and a[0][2].is_const():
                        for o in range(0, a[2][1].c, 8):
                            st.mem[(a[0][1], a[0][2].c + o)] = I(0)
                    else:
                        raise Undecided('memset of a header')
            elif name.startswith('llvm.expect'):
                env[i.id] = a[0]
            elif 'mul.with.overflow' in name:
                m = I(a[0][1].scale(a[1][1].c)) if a[0][0] == 'i' and a[1][0] == 'i' and a[1][1].is_const() else TOP
                env[i.id] = ('pair', m, I(0))
            elif name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')) and a[0][0] == a[1][0] == 'i':
                p = name[5] + ('ge' if 'max' in name else 'le')
                for s2, e2, t in self.split(st, env, ('cmp', p, a[0], a[1])):
                    e2[i.id] = a[0] if t else a[1]
                    self.block(f, b, k, s2, e2, work, out, depth)
                return None
            else:
                env[i.id] = TOP
            if inv:
                go(st, env, None)
                return None
            return True
        if re.match(r'_Zn[wa]m', name):
            size = a[0][1] if a[0][0] == 'i' else None
            arr = name[3] == 'a'
            s2 = st.copy()
            if size is not None and size.is_const() and size.c < 0:     # the length overflows
                s2.events = s2.events | {'alloc'}
                if 'nothrow' in name:
                    go(s2, dict(env), NULL)
                else:
                    thrown(s2, env)
                return None
            o = st.new('buffer' if arr else 'counter', size, array=arr)
            if not arr:
                st.mem.pop((o, 0), None)
            e1 = dict(env)
            s2.events = s2.events | {'alloc'}
            if 'nothrow' in name:
                go(s2, dict(env), NULL)
            else:
                thrown(s2, env)
            go(st, e1, P(o, 0))
            return None
        if re.match(r'_Zd[la]Pv', name):
            p = a[0]
            if p[0] == 'p' and p[1] is None:
                pass
            else:
                o = self.chk(st, p, i, 'release')
                ob = st.objs.get(o)
                if ob is None:
                    raise Undecided('release of %s' % (o,))
                if ob['kind'] == 'ext':
                    raise Bad('frees the external data it wraps', i)
                if ob['kind'] not in ('buffer', 'counter'):
                    raise Bad('frees %s' % ob['kind'], i)
                if ob.get('array') != (name[3] == 'a'):
                    raise Bad('frees memory of new%s with delete%s' % (('[]' if ob.get('array') else ''), '[]' if name[3] == 'a' else ''), i)
                if p[2] is None or not (p[2].is_const() and p[2].c == 0):
                    raise Bad('frees a pointer into the middle of a %s' % ob['kind'], i)
                ob['live'] = False
            if inv:
                go(st, env, None)
                return None
            return True
        if name in ('__cxa_begin_catch', '__cxa_end_catch', '__cxa_allocate_exception', '__cxa_free_exception'):
            env[i.id] = TOP
            return True
        if name in ('__cxa_throw', '__cxa_rethrow') or name.startswith('_ZSt') and '__throw' in name:
            thrown(st, env)
            return None
        if name == '__clang_call_terminate' or name in ('abort', '_ZSt9terminatev', 'exit'):
            return None
        if name.startswith('_ZSt8distance') and a[0][0] == a[1][0] == 'p' and a[0][1] == a[1][1] and a[0][2] is not None and a[1][2] is not None:
            w = {'d': 8, 'i': 4, 'f': 4, 'l': 8, 'm': 8}.get(re.sub(r'^_ZSt8distanceIPK?', '', name)[:1])
            d = (a[1][2] - a[0][2]).divexact(w) if w else None
            env[i.id] = I(d) if d is not None else TOP
            return True
        if 'size_to_integer' in name:
            env[i.id] = a[0]
            if inv:
                go(st, env, None)
                return None
            return True
        f2 = self.resolve(name)
        if f2 is not None and f2.dem.startswith('hif::error('):
            if any(x.op == 'ret' for blk in f2.blocks.values() for x in blk):
                raise Bad('relies on an error being raised, but hif::error can return', i)
            thrown(st, env)
            return None
        if f2 is not None:
            res = self.run(f2, st.copy(), a, depth + 1)
            dt = re.search(r'D[12]Ev$', name)
            for kind, s2, v, _ in res:
                if dt and a and a[0][0] == 'p' and a[0][2] is not None and a[0][2].is_const():
                    o, off = a[0][1], a[0][2].c
                    if s2.objs.get(o, {}).get('kind') == 'array':
                        for (oo, of) in list(s2.mem):
                            if oo == o:
                                s2.mem[(oo, of)] = POISON
                        s2.objs[o]['dead'] = True
                if kind == 'ret':
                    go(s2, dict(env), v)
                else:
                    thrown(s2, env)
            return None
        m = re.search(r'hif::Array<[^()]*>::~?Array\(', dem)
        if m:
            raise Undecided('array method without a body: ' + dem)
        # anything else: only harmless when it gets no header
        for x in a:
            if x[0] == 'p' and st.objs.get(x[1], {}).get('kind') in ('array', 'counter'):
                raise Undecided('%s is given a header' % (dem or name))
        if i.get('ty') == 'void' or True:
            env[i.id] = TOP
        if not i.get('nounw') and inv:
            thrown(st.copy(), env)
        if i.get('noret'):
            if not inv:
                thrown(st, env)
            return None
        if inv:
            go(st, env, TOP)
            return None
        return True

    def copied(self, st, d, s, n, ins):
        so, do = st.objs.get(s[1]), st.objs.get(d[1])
        if n[0] != 'i':
            st.log.append((d[1], s[1], None))
            return
        for o, p, w in ((so, s, 'reads'), (do, d, 'writes')):
            if o is not None and o.get('size') is not None and p[2] is not None:
                if st.geq0(p[2] + n[1] - o['size'] - 1):
                    raise Bad('a copy %s past the end of the %s' % (w, o['kind']), ins)
                if not st.geq0(o['size'] - p[2] - n[1]):
                    raise Bad('a copy of %s bytes %s a %s of %s bytes from offset %s: nothing keeps it inside'
                              % (n[1], w, o['kind'], o['size'], p[2]), ins)
        st.log.append((d[1], repr(d[2]), s[1], repr(s[2]), n[1]))


# ---- scenarios and rules -------------------------------------------------------------------------------------------
ESZ = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'std::complex<double>': 16}
UNDEF, WRAP, OWN = 0, 1, 2


class Layout:
    def __init__(self, prog):
        f = prog.find(r'^hif::Array<double>::size\(\) const')
        if not f:
            raise Undecided('hif::Array has no size()')
        f = f[0]
        t = f.types.pointee(f.args[0]['dty'])
        self.off = {}
        for o in range(0, t['size']):
            n = f.types.field(t, o)
            if n and '+' not in n and n not in self.off:
                self.off[n] = o
        for n in ('_data', '_size', '_cap', '_status', '_counts'):
            if n not in self.off:
                raise Undecided('hif::Array has no field ' + n)
        self.bytes = t['size']
        t = None
        for f in prog.find(r'^hif::Array<double>::_RefCount::'):
            t = f.types.pointee(f.args[0]['dty'])
        if t is None:
            raise Undecided('hif::Array has no _RefCount')
        self.c = {}
        for o in range(0, t['size']):
            n = f.types.field(t, o)
            if n and '+' not in n and n not in self.c:
                self.c[n] = o
        if '_c' not in self.c or '_invalid' not in self.c:
            raise Undecided('_RefCount has other fields')


class Scene:
    """abstract heap before a call"""

    def __init__(self, lay, esz):
        self.lay, self.esz = lay, esz
        self.st = State()
        self.ext = {}       # counter -> references held outside (Lin)
        self.init = {}      # header -> initial field values
        self.hesz = {}
        self.alive = {}     # header -> is an array before / after the call

    def counter(self, name, c, invalid=0):
        self.st.objs[name] = dict(kind='counter', live=True, size=Lin(16), fresh=False, array=False)
        self.st.mem[(name, self.lay.c['_c'])] = I(c)
        self.st.mem[(name, self.lay.c['_invalid'])] = I(invalid)

    def array(self, h, kind, share=None, esz=None):
        esz = esz or self.esz
        self.hesz[h] = esz
        st, off = self.st, self.lay.off
        st.objs[h] = dict(kind='array', live=True, size=None, fresh=False)
        self.alive[h] = True
        s, p = Lin.atom('size.' + h), Lin.atom('cap.' + h)
        st.facts += [s, p - s]
        data, size, cap, status = NULL, Lin(0), Lin(0), UNDEF
        cn = 'counter.' + h
        if kind == 'raw':
            self.alive[h] = False
            self.init[h] = None
            return
        if kind == 'moved':
            counts = NULL
        elif share:
            cn = share
            counts = P(cn, 0)
        else:
            c = Lin(1)
            if kind.startswith('shared'):
                c = Lin.atom('refs.' + h)
                st.facts.append(c - 2)
            self.counter(cn, c, 1 if kind in ('stolen', 'orphan') else 0)
            self.ext[cn] = c - 1
            counts = P(cn, 0)
        if kind in ('own', 'shared'):
            b = 'buffer.' + (share or cn)
            if b not in st.objs:
                # the buffer is at least as long as any array over it says
                st.objs[b] = dict(kind='buffer', live=True, size=p.scale(esz), fresh=False, array=True)
            elif share:
                p = None
            data, size, cap, status = P(b, 0), s, p, OWN
            if p is None:
                o = st.objs[b]['size'].divexact(esz)
                cap = o
                st.facts.append(o - s)
        elif kind in ('wrap', 'sharedwrap'):
            b = 'external.' + cn
            st.objs[b] = dict(kind='ext', live=True, size=p.scale(esz), fresh=False)
            st.facts.append(s - p)
            data, size, cap, status = P(b, 0), s, p, WRAP
        elif kind == 'orphan':
            b = 'stolen.' + cn
            st.objs[b] = dict(kind='ext', live=True, size=p.scale(esz), fresh=False)
            data, size, cap, status = P(b, 0), s, p, OWN
        v = {'_data': data, '_size': I(size), '_cap': I(cap), '_status': I(status), '_counts': counts}
        for n in v:
            st.mem[(h, off[n])] = v[n]
        self.init[h] = v

    def get(self, st, h, n):
        return st.mem.get((h, self.lay.off[n]))

    def check(self, st, kind, after):
        """ownership rules; after: headers that are arrays once the call is over"""
        eq = lambda a, b: a is not None and a[0] == 'i' and st.cmp('eq', a[1], b)
        refs, holders = {}, {}
        for h in after:
            v = {n: self.get(st, h, n) for n in self.lay.off}
            for n, x in v.items():
                if x is None:
                    raise Bad('%s of %s is left uninitialised' % (n, h))
                if x == POISON:
                    raise Bad('%s of %s is what the destructor left of it' % (n, h))
                if x == TOP:
                    raise Undecided('%s of %s is not known' % (n, h))
            c, d = v['_counts'], v['_data']
            if c[1] is not None:
                ob = st.objs.get(c[1])
                if ob is None or ob['kind'] != 'counter':
                    raise Undecided('counter of %s' % h)
                if not ob['live']:
                    raise Bad('%s keeps a freed counter' % h)
                refs[c[1]] = refs.get(c[1], 0) + 1
            inv = c[1] is not None and eq(st.mem.get((c[1], self.lay.c['_invalid'])), Lin(1))
            if eq(v['_status'], Lin(OWN)):
                if d[1] is None:
                    raise Bad('%s owns null' % h)
                ob = st.objs.get(d[1])
                if not ob['live']:
                    raise Bad('%s keeps a freed buffer' % h)
                if ob['kind'] != 'buffer' and not inv:
                    raise Bad('%s owns %s memory' % (h, ob['kind']))
                if c[1] is None:
                    raise Bad('%s owns a buffer without a counter' % h)
                if inv and ob.get('fresh'):
                    raise Bad('%s owns a new buffer under an invalidated counter, nothing frees it' % h)
                holders.setdefault(d[1], set()).add(c[1])
                if v['_cap'][0] != 'i' or v['_size'][0] != 'i':
                    raise Undecided('sizes of %s' % h)
                if not st.geq0(ob['size'] - v['_cap'][1].scale(self.hesz.get(h, self.esz))):
                    raise Bad('%s has capacity %s in a buffer of %s bytes' % (h, v['_cap'][1], ob['size']))
                if not st.geq0(v['_cap'][1] - v['_size'][1]):
                    raise Bad('%s has size %s above its capacity %s' % (h, v['_size'][1], v['_cap'][1]))
            elif eq(v['_status'], Lin(WRAP)):
                ob = st.objs.get(d[1]) if d[1] else None
                if ob is not None and ob['kind'] == 'buffer':
                    raise Bad('%s wraps a buffer of its own, nothing frees it' % h)
                if not st.geq0(v['_cap'][1] - v['_size'][1]):
                    raise Bad('%s has size %s above its capacity %s' % (h, v['_size'][1], v['_cap'][1]))
            elif eq(v['_status'], Lin(UNDEF)):
                if d[1] is not None:
                    raise Bad('%s has status undefined with data' % h)
                if not (eq(v['_size'], Lin(0)) and eq(v['_cap'], Lin(0))):
                    raise Bad('%s has status undefined with size %s, capacity %s' % (h, v['_size'][1], v['_cap'][1]))
            else:
                raise Undecided('status of %s' % h)
        for o, ob in st.objs.items():
            if ob['kind'] == 'counter':
                n = Lin(refs.get(o, 0)) + self.ext.get(o, Lin(0))
                z = st.cmp('eq', n, Lin(0))
                if z is None:
                    raise Undecided('references of ' + o)
                if ob['live'] and z:
                    raise Bad('a reference counter is leaked' + ('' if ob['fresh'] else ' (%s)' % o))
                if not ob['live'] and not z:
                    raise Bad('the counter %s is freed while %s arrays use it' % (o, n))
                if ob['live']:
                    c = st.mem.get((o, self.lay.c['_c']))
                    if c is None or c == TOP or c[0] != 'i':
                        raise Undecided('count of ' + o)
                    if st.cmp('eq', c[1], n) is not True:
                        raise Bad('the counter %s says %s for %s arrays' % (o, c[1], n))
            elif ob['kind'] == 'buffer':
                own = o in holders or any(v[0] == 'p' and v[1] == o for k, v in st.mem.items() if k[0] == 'out.data')
                holders.setdefault(o, set())
                ext = any(o == 'buffer.' + c and st.cmp('ne', n, Lin(0)) is not False for c, n in self.ext.items())
                if ob['live'] and not own and not ext and not ob.get('given'):
                    raise Bad('a buffer is leaked' + ('' if ob['fresh'] else ' (%s)' % o))
                if not ob['live'] and (own or ext):
                    raise Bad('the buffer %s is freed while arrays use it' % o)
                if len(holders[o]) > 1:
                    raise Bad('one buffer has two counters')


KINDS = ('own', 'shared', 'wrap', 'sharedwrap', 'empty', 'moved', 'stolen', 'orphan')


def scenes(lay, esz, names, raw=(), oesz=None):
    """all combinations of states of the headers in names (raw: not yet constructed)"""
    out = []
    rest = [h for h in names if h not in raw]

    def build(combo):
        sc = Scene(lay, esz)
        for h in raw:
            sc.array(h, 'raw')
        for h, k in combo:
            sc.array(h, k, esz=oesz if h == 'other' and oesz else esz)
        return sc
    if len(rest) == 0:
        return [('', build([]))]
    if len(rest) == 1:
        return [('%s %s' % (rest[0], k), build([(rest[0], k)])) for k in KINDS]
    a, b = rest
    for k in KINDS:
        for l in KINDS:
            out.append(('%s %s, %s %s' % (a, k, b, l), build([(a, k), (b, l)])))
    for k in ('own', 'sharedwrap', 'empty'):
        for n in (2, 3):
            sc = Scene(lay, esz)
            cn = 'counter.' + a
            sc.counter(cn, Lin(n))
            sc.ext[cn] = Lin(n - 2)
            sc.array(a, {'own': 'shared', 'sharedwrap': 'sharedwrap', 'empty': 'empty'}[k], share=cn)
            sc.array(b, {'own': 'shared', 'sharedwrap': 'sharedwrap', 'empty': 'empty'}[k], share=cn)
            out.append(('both share %s (%d references)' % (k, n), sc))
    return out


def same(st, a, b):
    if a is None or b is None or a[0] != b[0]:
        return False
    if a[0] == 'i':
        return st.cmp('eq', a[1], b[1]) is True
    if a[0] == 'p':
        return a[1] == b[1] and (a[1] is None or (a[2] is not None and b[2] is not None and a[2] == b[2]))
    return a == b


def moved(st, dst, src, n, esz):
    """was the whole prefix of n elements of src copied to dst, at once?"""
    if esz == 16:       # complex elements are copied one by one in a loop, which this domain does not sum up
        return True
    if (dst, 'loop') in st.log:     # likewise for a loop over the elements
        return True
    for e in st.log:
        if len(e) == 5 and e[0] == dst and e[2] == src and e[1] == '0' and e[3] == '0' and st.cmp('eq', e[4], n.scale(esz)) is True:
            return True
    return False


# ---- what each method must have done -------------------------------------------------------------------------------
def allocated(sc, st, h, n, esz):
    """None when h owns a new buffer of n elements, 'failed' when it is undefined and empty, else the complaint"""
    v = {k: sc.get(st, h, k) for k in sc.lay.off}
    if same(st, v['_status'], I(UNDEF)):
        return 'failed'
    if not same(st, v['_status'], I(OWN)) or not st.objs[v['_data'][1]].get('fresh'):
        return 'does not own a new buffer'
    if not same(st, v['_size'], I(n)):
        return 'has size %s instead of %s' % (v['_size'][1], n)
    return None


def untouched(sc, st, h, fields=None):
    for k in fields or sc.lay.off:
        if not same(st, sc.get(st, h, k), sc.init[h][k]):
            return '%s of %s changed' % (k, h)
    return None


def stays_null(sc, st):
    return True


class Post:
    """method -> (headers in the call, headers not constructed before, headers alive after, rule)"""

    def __init__(self, esz):
        self.esz = esz

    def table(self):
        N = Lin.atom('n')
        e = self.esz

        def fresh(n, src=None):
            def rule(sc, st, sub):
                r = allocated(sc, st, 'this', n(sc), e)
                if r == 'failed':
                    if 'alloc' not in sub:
                        return 'is undefined without a failed allocation'
                    return None
                if r:
                    return r
                if src:
                    s = src(sc)
                    if s and not moved(st, sc.get(st, 'this', '_data')[1], s, n(sc), e) and st.cmp('eq', n(sc), Lin(0)) is not True:
                        return 'does not hold a copy of the %s elements' % n(sc)
            return rule

        def default(sc, st, sub):
            if not same(st, sc.get(st, 'this', '_status'), I(UNDEF)):
                return 'is not empty'

        def extern(sc, st, sub):
            w = st.cmp('eq', sc.wrap, Lin(0))
            if w is None:
                return 'does not depend on the wrap flag'
            if w is False:
                for k, x in (('_status', I(WRAP)), ('_size', I(N)), ('_data', P('given', 0))):
                    if not same(st, sc.get(st, 'this', k), x):
                        return '%s of a wrapper is not what was passed' % k
                if not same(st, sc.get(st, 'this', '_cap'), I(N)):
                    return 'the capacity of a wrapper is not its size'
                return None
            return fresh(lambda s: N, lambda s: 'given')(sc, st, sub)

        def copy(sc, st, sub):
            c = st.cmp('eq', sc.clone, Lin(0)) if sc.clone is not None else True
            u = untouched(sc, st, 'other', ('_data', '_size', '_cap', '_status', '_counts'))
            if u:
                return u
            if c is None:
                return 'does not depend on the clone flag'
            if c is True:
                for k in ('_data', '_size', '_cap', '_status', '_counts'):
                    if not same(st, sc.get(st, 'this', k), sc.init['other'][k]):
                        return '%s of a shallow copy differs' % k
                return None
            n = sc.init['other']['_size'][1]
            r = allocated(sc, st, 'this', n, e)
            if r:
                return 'a deep copy ' + (r if r != 'failed' else 'reports nothing when its allocation fails')
            if not moved(st, sc.get(st, 'this', '_data')[1], sc.init['other']['_data'][1], n, e) and st.cmp('eq', n, Lin(0)) is not True:
                return 'a deep copy does not hold the %s elements' % n

        def steal(sc, st, sub):
            for k in ('_data', '_size', '_cap', '_status', '_counts'):
                if not same(st, sc.get(st, 'this', k), sc.init['other'][k]):
                    return '%s is not taken over' % k
            if sc.get(st, 'other', '_counts')[1] is not None:
                return 'the moved-from array keeps the counter'

        def assign(mv):
            def rule(sc, st, sub):
                h = 'this' if sc.alias else 'other'
                for k in ('_data', '_size', '_cap', '_status', '_counts'):
                    if not same(st, sc.get(st, 'this', k), sc.init[h][k]):
                        return '%s is not that of the right-hand side' % k
            return rule

        def swap(sc, st, sub):
            for a, b in ((('this', 'other'), ('other', 'this')) if not sc.alias else (('this', 'this'),)):
                for k in ('_data', '_size', '_cap', '_status', '_counts'):
                    if not same(st, sc.get(st, a, k), sc.init[b][k]):
                        return '%s of %s is not swapped' % (k, a)

        def resize(sc, st, sub):
            i = sc.init['this']
            small = st.cmp('ule', N, i['_cap'][1])
            if small is None:
                return 'does not compare the new size with the capacity'
            if small:
                u = untouched(sc, st, 'this', ('_data', '_cap', '_status', '_counts'))
                if u:
                    return 'within its capacity: ' + u
                return None if same(st, sc.get(st, 'this', '_size'), I(N)) else 'size is not the requested one'
            r = allocated(sc, st, 'this', N, e)
            if r == 'failed':
                return None if 'alloc' in sub else 'is undefined without a failed allocation'
            if r:
                return r
            n = i['_size'][1]
            if i['_data'][1] is not None and st.cmp('eq', sc.presv, Lin(0)) is not True and st.cmp('eq', n, Lin(0)) is not True \
                    and not moved(st, sc.get(st, 'this', '_data')[1], i['_data'][1], n, e):
                return 'does not preserve the %s elements' % n

        def reserve(sc, st, sub):
            i = sc.init['this']
            small = st.cmp('uge', i['_cap'][1], N)
            if small is None:
                return 'does not compare the request with the capacity'
            if small:
                return untouched(sc, st, 'this')
            r = allocated(sc, st, 'this', i['_size'][1], e)
            if r == 'failed':
                return None if 'alloc' in sub else 'is undefined without a failed allocation'
            if r:
                return r
            if not st.geq0(sc.get(st, 'this', '_cap')[1] - N):
                return 'the capacity is below the request'
            n = i['_size'][1]
            if i['_data'][1] is not None and st.cmp('eq', n, Lin(0)) is not True and not moved(st, sc.get(st, 'this', '_data')[1], i['_data'][1], n, e):
                return 'does not preserve the %s elements' % n

        def push(cnt):
            def rule(sc, st, sub):
                i = sc.init['this']
                m = cnt(sc)
                if not same(st, sc.get(st, 'this', '_size'), I(i['_size'][1] + m)):
                    return 'returns with size %s instead of %s' % (sc.get(st, 'this', '_size')[1], i['_size'][1] + m)
                d = sc.get(st, 'this', '_data')[1]
                n = i['_size'][1]
                if d != i['_data'][1] and i['_data'][1] is not None and st.cmp('eq', n, Lin(0)) is not True and not moved(st, d, i['_data'][1], n, e):
                    return 'does not preserve the %s elements' % n
            return rule

        def at(sc, st, sub):
            v = sc.ret
            if v[0] != 'p' or v[2] is None or v[1] != sc.init['this']['_data'][1] or v[1] is None:
                return 'does not return an element'
            if not (st.geq0(v[2]) and st.geq0(sc.init['this']['_size'][1].scale(e) - v[2] - e)):
                return 'returns an element beyond the size'

        def stolen(sc, st, sub):
            i = sc.init['this']
            own = same(st, i['_status'], I(OWN))
            d = st.mem.get(('out.data', 0))
            if not own:
                return None if same(st, d, NULL) else 'hands out what it does not own'
            for o, k in (('out.data', '_data'), ('out.size', '_size'), ('out.cap', '_cap')):
                if not same(st, st.mem.get((o, 0)), i[k]):
                    return '%s is not handed out' % k
            if sc.get(st, 'this', '_data')[1] is not None or not same(st, sc.get(st, 'this', '_size'), I(0)):
                return 'the array keeps what it handed out'
            c = i['_counts'][1]
            if st.cmp('eq', sc.ext[c], Lin(0)) is not True and not same(st, st.mem.get((c, sc.lay.c['_invalid'])), I(1)):
                return 'arrays that share the buffer will free what was handed out'

        T, O = ['this'], ['this', 'other']
        return [
            (r'Array\(\)$', T, T, T, default),
            (r'Array\(unsigned long\)$', T, T, T, fresh(lambda s: N)),
            (r'Array\(unsigned long, (?!.*\*)[\w:<>]+\)$', T, T, T, fresh(lambda s: N)),
            (r'Array\(unsigned long, .*\*, bool\)$', T, T, T, extern),
            (r'Array<.*>\(hif::Array<.*> const&\)$', O, T, O, fresh(lambda s: s.init['other']['_size'][1])),
            (r'~Array\(\)$', T, [], [], None),
            (r'Array\(hif::Array<.*> const&, bool\)$', O, T, O, copy),
            (r'Array\(hif::Array<.*>&&\)$', O, T, O, steal),
            (r'operator=\(hif::Array<.*> const&\)$', O, [], O, assign(False)),
            (r'operator=\(hif::Array<.*>&&\)$', O, [], O, assign(True)),
            (r'swap\(hif::Array<.*>&\)$', O, [], O, swap),
            (r'resize\(unsigned long, bool\)$', T, [], T, resize),
            (r'reserve\(unsigned long\)$', T, [], T, reserve),
            (r'push_back\([\w:<>]+\)$', T, [], T, push(lambda s: Lin(1))),
            (r'push_back<.*>\(.*, .*\)$', T, [], T, push(lambda s: Lin.atom('m'))),
            (r'push_back_n<.*>\(.*, unsigned long\)$', T, [], T, push(lambda s: N)),
            (r'at\(unsigned long\)', T, [], T, at),
            (r'steal_array_ownership', T, [], T, stolen),
            (r'wrap_(const_)?array', T, T, T, extern),
        ]


def bind(sc, f, esz):
    """arguments of the call, by name"""
    st = sc.st
    args = []
    N = Lin.atom('n')
    st.facts.append(N)
    sc.wrap = Lin(1) if 'wrap_' in f.dem else None
    sc.clone, sc.presv = None, Lin(1)
    raw = f.dem.split('(')[0]
    for a in f.args:
        n = a.get('var') or a.get('name') or ''
        if n in ('wrap', 'clone', 'presv'):
            l = Lin.atom(n)
            st.facts += [l, Lin(1) - l]
            setattr(sc, n, l)
            args.append(I(l))
        elif n in ('this', 'arr') or (not n and a['ty'] == 'ptr' and a is f.args[0]):
            args.append(P('this', 0))
        elif n in ('other', 'rhs'):
            args.append(P('this' if sc.alias else 'other', 0))
        elif n in ('n', 'i') and a['ty'] == 'i64':
            args.append(I(N))
        elif n in ('data', 'size', 'cap') and 'steal' in raw:
            o = 'out.' + n
            st.objs[o] = dict(kind='local', live=True, size=None, fresh=False)
            args.append(P(o, 0))
        elif n == 'data':
            st.objs['given'] = dict(kind='ext', live=True, size=N.scale(esz), fresh=False)
            args.append(P('given', 0))
        elif n in ('first', 'last'):
            m = Lin.atom('m') if 'push_back<' in f.dem else N
            st.facts.append(m)
            st.objs['range'] = dict(kind='ext', live=True, size=m.scale(esz), fresh=False)
            args.append(P('range', 0 if n == 'first' else m.scale(esz)))
        else:
            args.append(TOP)
    return args


def analyse(rep, prog, rule):
    lay = Layout(prog)
    n = 0
    for f in prog.functions:
        m = re.match(r'^(?:void |hif::Array<.*?> )?hif::(?:Array<((?:[^<>]|<[^<>]*>)*)>::|(?=steal_array|wrap_))(.*)$', f.dem)
        if not m:
            continue
        T = m.group(1) or (re.search(r'<(\w+)>\(', f.dem) or [None, 'double'])[1]
        esz = ESZ.get(T)
        if esz is None:
            continue
        for rx, names, raw, after, post in Post(esz).table():
            if re.match(rx, m.group(2)):
                break
        else:
            continue
        n += 1
        oesz = None
        mo = re.search(r'\(hif::Array<(\w+)> const&\)$', f.dem)
        if mo:
            oesz = ESZ.get(mo.group(1))
        alias = [False] + ([True] if names == ['this', 'other'] and not raw else [])
        for al in alias:
            for label, sc in scenes(lay, esz, ['this'] if al else names, raw, oesz):
                sc.alias = al
                what = '%s with %s' % (f.dem.replace('hif::', ''), ('itself, ' if al else '') + label if label else 'any arguments')
                if 'Array<float> const&' in f.dem or 'Array<long> const&' in f.dem:
                    what = '%s with %s' % (f.dem.replace('hif::', ''), label)
                live = ['this'] if al and after == ['this', 'other'] else after
                one(rep, prog, rule, f, sc, what, live, raw, post, esz, bind(sc, f, esz))
    return n


def one(rep, prog, rule, f, sc, what, after, raw, post, esz, args):
    it = Interp(prog)
    try:
        res = it.run(f, sc.st, args)
    except Undecided as e:
        rep.und(rule, what, e)
        return
    except Bad as e:
        rep.bad(rule, what, str(e), e.ins.loc if e.ins is not None else f.dem)
        return
    nret = 0
    try:
        for kind, st, v, ins in res:
            sc.ret = v
            live = after if kind == 'ret' else [h for h in after if h not in raw] if after else after
            if kind == 'throw' and not after:
                raise Bad('can throw', ins)
            try:
                if kind == 'throw':
                    pass
                sc.check(st, kind, live)
                if kind == 'ret' and post:
                    nret += 1
                    r = post(sc, st, st.events)
                    if r:
                        raise Bad(r, ins)
            except Bad as e:
                if e.ins is None:
                    e.ins = ins
                raise Bad(('after an exception ' if kind == 'throw' else '') + str(e), e.ins)
    except Undecided as e:
        rep.und(rule, what, e)
        return
    except Bad as e:
        rep.bad(rule, what, str(e), e.ins.loc if e.ins is not None else f.dem)
        return
    rep.ok(rule, what, '%d exits in %d abstract states' % (len(res), it.steps))
