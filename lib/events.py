"""Calls and element statements of a specialised function, with resolved arguments."""
import re
from ir import Lin, Undecided, untup, astr
from spec import SFunc
from kernel import Kernel
import poly


class Arg:
    """kind: 'int' (v: Lin), 'fp' (v: (re, im) Fractions or None), 'mem' (name, off Lin), 'slot' (root), 'null', 'opaque'"""

    def __init__(self, kind, v=None, name=None, off=None, op=None):
        self.kind, self.v, self.name, self.off, self.op = kind, v, name, off, op

    def __repr__(self):
        return {'int': lambda: repr(self.v), 'fp': lambda: repr(self.v), 'mem': lambda: '%s[%r]' % (self.name, self.off),
                'slot': lambda: 'slot' + repr(self.v), 'null': lambda: 'null'}.get(self.kind, lambda: '?%s' % self.op)()


class Call:
    def __init__(self, ins, name, args, loops):
        self.ins, self.name, self.args, self.loops = ins, name, args, loops

    def __repr__(self):
        return '%s(%s)%s' % (self.name, ', '.join(map(repr, self.args)), ' in %s' % self.loops if self.loops else '')


def fconst(v):
    if v.startswith('d:'):
        return float(v[2:])
    return None


class Resolver:
    def __init__(self, sf, globs=None, canon=None):
        self.f, self.globs = sf, globs or {}
        self.canon = canon or (lambda l: l)

    def dom_stores(self, root, at):
        """{byte offset: value} of the last dominating store to each slot of a local object (unique reaching store)"""
        f = self.f
        st = {}
        for s, o in f.alloca_stores(root):
            if s.blk not in f.reachable:
                continue
            if not o.is_const():
                return None
            st.setdefault(o.c, []).append(s)
        r = {}
        for o, ss in st.items():
            best = None
            for s in ss:
                if f.idominates(s, at) and (best is None or f.idominates(best, s)):
                    best = s
            if best is None:
                if any(f.reaches(s, at) for s in ss):
                    r[o] = None
                continue
            if any(s is not best and f.reaches(s, at) and not f.idominates(s, best) for s in ss):
                r[o] = None
            else:
                r[o] = best
        return r

    def slot_value(self, root, at, ty=None):
        st = self.dom_stores(root, at)
        if not st:
            return None
        if None in st.values():
            return None
        if 0 not in st:
            return None
        v = st[0].ops[0]
        ty0 = st[0].get('sty') or ''
        if v.startswith('k:'):
            if v == 'k:zeroinitializer':
                return ('fp', (0.0, 0.0))
            m = re.match(r'k:<(?:float|double) ([-+.0-9e]+), (?:float|double) ([-+.0-9e]+)>$', v)
            return ('fp', (float(m.group(1)), float(m.group(2)))) if m and len(st) == 1 else ('fpv', v)
        if ty0 in ('double', 'float') or v.startswith('d:'):
            a = fconst(v)
            if a is None:
                return ('fpv', v)
            rest = [o for o in st if o]
            if not rest:
                return ('fp', (a, 0.0))
            b = fconst(st[rest[0]].ops[0])
            return ('fp', (a, b)) if len(rest) == 1 and b is not None else ('fpv', v)
        if ty0 == 'ptr' or f_isptr(self.f, v):
            return ('ptr', v)
        try:
            return ('int', self.canon(self.f.lin(v)))
        except Undecided:
            return None

    def arg(self, o, at):
        f = self.f
        if f_isptr(f, o):
            try:
                root, off = f.addr(o)
            except Undecided:
                return Arg('opaque', op=o)
            off = self.canon(off)
            if root == ('null',):
                return Arg('null')
            if root[0] == 'alloca':
                if off == Lin(0):
                    w = self.slot_value(root, at)
                    if w and w[0] == 'int':
                        return Arg('int', w[1])
                    if w and w[0] == 'fp':
                        return Arg('fp', w[1])
                    if w and w[0] == 'fpv':
                        a = Arg('fpv', w[1])
                        a.name = root
                        return a
                return Arg('slot', root, off=off)
            if root[0] == 'global' and off == Lin(0):
                g = self.globs.get(root[1])
                if g and 'int' in g:
                    return Arg('int', Lin(g['int']))
            return Arg('mem', name=f.rootname(root), off=off, v=root)
        if o.startswith('d:'):
            return Arg('fp', (fconst(o), 0.0))
        if o in f.ins and f.ins[o].get('ty') in ('double', 'float'):
            return Arg('fpv', o)
        try:
            return Arg('int', self.canon(f.lin(o)))
        except Undecided:
            return Arg('opaque', op=o)


def f_isptr(f, o):
    return f.isptr(o)


def calls(sf, globs, want, canon=None):
    """calls whose name matches, on blocks from which the function can return, in order"""
    R = Resolver(sf, globs, canon)
    live = sf.returning()
    out = []
    for b in sf.rpo():
        if b not in live:
            continue
        for i in sf.blocks[b]:
            if i.op in ('call', 'invoke'):
                nm = i.get('cdem') or i.get('callee') or ''
                if not want(nm):
                    continue
                out.append(Call(i, nm, [R.arg(o, i) for o in i.ops], sf.loop_chain(b)))
    return out
