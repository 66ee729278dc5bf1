"""Readers of matrix-market files: a path-sensitive typestate and value-origin analysis.

The abstract state follows the stream (not opened, open, closed), the text line, which slots a scan has filled on this
path, where every integer in use came from and what the branches taken so far say about it, and the arrays being filled.
Each scan call ends in every number of conversions it can report; each growth of an array may fail.  The element loop is
followed for its first rounds, which fixes what each kind of entry must leave in the arrays.
"""
from ir import Lin, Undecided
from own import Interp, State, Bad, I, P, TOP, POISON, NULL
import re
from math import gcd

ROUNDS = 2


def wide(fmt):
    """conversions of a format: (letter, width, length)"""
    r, k = [], 0
    while k < len(fmt):
        if fmt[k] != '%':
            k += 1
            continue
        m = re.match(r'%(\*?)(\d*)(hh|h|ll|l|j|z|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])', fmt[k:])
        if not m:
            raise Undecided('format ' + fmt)
        k += m.end()
        if m.group(4) != '%' and not m.group(1):
            r.append((m.group(4)[0], int(m.group(2)) if m.group(2) else None, m.group(3) or ''))
    return r


INTSZ = {'': 4, 'l': 8, 'll': 8, 'h': 2, 'hh': 1, 'z': 8, 'j': 8, 't': 8}
FLTSZ = {'': 4, 'l': 8, 'L': 16}


class Reader(Interp):
    def __init__(self, prog, f, arrays, esz):
        Interp.__init__(self, prog)
        self.g = prog.globals
        self.esz = esz
        self.arrays = arrays
        self.bounds = []           # (loc, proved)
        self.loops = set()

    # ---- loops: follow the first rounds
    def run(self, f, st, args, depth=0):
        self.seen_fns.add(f.dem)
        out, seen = [], set()
        env = {'a%d' % k: a for k, a in enumerate(args)}
        work = [(f.entry, None, st, env)]
        hdrs = {l['header']: l for l in f.loops.values()}
        self.sizes = {}
        self.scanloops = {l['header'] for l in f.loops.values() for b in l['blocks'] for i in f.blocks[b]
                          if 'scanf' in (i.get('callee') or '')}
        while work:
            b, pb, st, env = work.pop()
            self.steps += 1
            if self.steps > 150000:
                raise Undecided('too many states')
            env = dict(env)
            new = {}
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                inc = dict(zip(i.get('from'), i.ops))
                new[i.id] = self.val(st, env, inc[pb]) if pb in inc else TOP
            env.update(new)
            h = hdrs.get(b)
            if h is not None:
                c = ('#round', b)
                n = st.mem.get(c, 0) + 1 if pb in h['blocks'] else 0
                if n > (ROUNDS if b in self.scanloops else 1):
                    self.loops.add(b)
                    continue
                st.mem[c] = n
            self.block(f, b, 0, st, env, work, out, depth)
        return out

    def lit(self, v):
        """text of a literal"""
        if v[0] == 'p' and isinstance(v[1], str) and v[1].startswith('@') and v[2] is not None and v[2].is_const():
            g = self.g.get(v[1][1:])
            if g and 'str' in g:
                return g['str'][v[2].c:]
        return None

    def other(self, st, i, g):
        if i.op == 'fneg':
            return self.neg(g(0))
        if i.op == 'fsub' and i.ops[0] in ('d:0', 'd:-0', 'd:0.0', 'd:-0.0'):
            return self.neg(g(1))
        if i.op in ('fptrunc', 'fpext'):
            return g(0)
        return TOP

    def mixed(self, a, b):
        return ('mix',) if a[0] in ('i', 'mix') or b[0] in ('i', 'mix') else TOP

    def local_size(self, i):
        return i.get('size')

    def neg(self, v):
        return v[1] if v[0] == 'neg' else ('neg', v) if v[0] == 'fv' else v if v == POISON else TOP

    # ---- signedness: an unsigned comparison orders values known to be nonnegative
    UNS = ('ult', 'ule', 'ugt', 'uge')

    def truth(self, st, v):
        if v[0] == 'cmp' and v[1] in self.UNS and v[2][0] == 'i' and v[3][0] == 'i':
            a, b = v[2][1], v[3][1]
            pa, pb = st.geq0(a), st.geq0(b)
            na, nb = st.geq0(a.scale(-1) - 1), st.geq0(b.scale(-1) - 1)
            if pa and pb or na and nb:
                return st.cmp(v[1], a, b)
            if pa and nb:
                return v[1] in ('ult', 'ule')
            if na and pb:
                return v[1] in ('ugt', 'uge')
            return None
        if v[0] == 'streq':
            w = st.mem.get(('#str', v[1], v[2]))
            if w is None:
                w = False if any(k[0] == '#str' and k[1] == v[1] and st.mem[k] for k in st.mem) else None
            return None if w is None else w == v[3]
        if v[0] == 'cmp' and (v[2][0] == 'strcmp' or v[3][0] == 'strcmp') and v[1] in ('eq', 'ne'):
            s, o = (v[2], v[3]) if v[2][0] == 'strcmp' else (v[3], v[2])
            if o == I(0):
                return self.truth(st, ('streq', s[1], s[2], v[1] == 'eq'))
            return None
        if v[0] == 'cmp' and ('mix',) in v[2:]:
            self.sawmix = True        # a test of numbers that is not understood
        if v[0] == 'cmp' and POISON in v[2:]:
            raise Bad('a branch uses a value the scan may not have set')
        return Interp.truth(self, st, v)

    def split(self, st, env, v):
        t = self.truth(st, v)
        if t is not None:
            return [(st, env, t)]
        w, flip = v, False
        while w[0] == 'not':
            w, flip = w[1], not flip
        if w[0] == 'cmp' and (w[2][0] == 'strcmp' or w[3][0] == 'strcmp') and w[1] in ('eq', 'ne') and I(0) in w[2:]:
            s = w[2] if w[2][0] == 'strcmp' else w[3]
            w = ('streq', s[1], s[2], w[1] == 'eq')
        if w[0] == 'streq':
            r = []
            for t in (True, False):
                s2 = st.copy()
                s2.mem[('#str', w[1], w[2])] = t == w[3]
                r.append((s2, dict(env), t != flip))
            return r
        if w[0] == 'cmp' and w[1] in self.UNS and w[2][0] == 'i' and w[3][0] == 'i':
            a, b = w[2][1], w[3][1]
            if w[1] in ('ugt', 'ule'):
                a, b, lt = b, a, w[1] == 'ugt'
            else:
                lt = w[1] == 'ult'
            # a <u b is lt
            r = []
            pa, pb = st.geq0(a), st.geq0(b)
            for ka in ([True] if pa else [True, False]):
                for kb in ([True] if pb else [True, False]):
                    for t in (True, False):          # truth of a <u b
                        if ka != kb and t != ka:
                            continue                 # nonnegative < negative as unsigned
                        s2 = st.copy()
                        s2.facts.append(a if ka else a.scale(-1) - 1)
                        s2.facts.append(b if kb else b.scale(-1) - 1)
                        if ka == kb:
                            s2.facts.append(b - a - 1 if t else a - b)
                        r.append((s2, dict(env), (t == lt) != flip))
            return r
        if w[0] == 'cmp' and w[2][0] == w[3][0] == 'p' and w[2][1] == w[3][1] and None not in (w[2][2], w[3][2]):
            d = w[2][2] - w[3][2]
            g = 0
            for c in [d.c] + list(d.t.values()):
                g = gcd(g, c)
            d = d.divexact(g) if g > 1 else d
            w = ('cmp', w[1], I(d), I(0))
            v = ('not', w) if flip else w
        r = Interp.split(self, st, env, v)
        if w[0] == 'cmp' and w[1] in ('eq', 'ne') and w[2][0] == w[3][0] == 'i':
            for s2, e2, t in r:
                if (t != flip) == (w[1] == 'ne'):
                    s2.mem[('#ne', repr(w[2][1] - w[3][1]))] = 1
        return r

    # ---- memory
    def load(self, st, p, ins):
        o = self.chk(st, p, ins, 'read')
        ob = st.objs.get(o)
        if ob is None:
            return TOP
        if ob['kind'] == 'buffer':
            self.bound(st, ob, p[2], ins)
        if p[2] is None or not p[2].is_const():
            return TOP
        v = st.mem.get((o, p[2].c))
        if v is None:
            return ('unset', ins.get('ty')) if ob['kind'] == 'local' and ins.get('ty') in ('i32', 'i64', 'double', 'float') and ob.get('slot') else TOP
        return v

    def bound(self, st, ob, off, ins):
        size = ob['size']
        if off is None or size is None:
            self.bounds.append((ins.loc, False))
            return
        if st.geq0(off - size) or st.geq0(off.scale(-1) - 1):
            raise Bad('an element outside the %s entries the array was given is accessed' % (size,), ins)
        self.bounds.append((ins.loc, st.geq0(size - off - 1)))

    def store(self, st, v, p, ins):
        o = self.chk(st, p, ins, 'write')
        ob = st.objs.get(o)
        if ob is None:
            return
        if ob['kind'] == 'buffer':
            self.bound(st, ob, p[2], ins)
        if v == POISON and ob['kind'] in ('buffer', 'local'):
            raise Bad('a value the scan may not have set is stored', ins)
        if p[2] is None or not p[2].is_const():
            if ob['kind'] in ('buffer', 'array'):
                raise Undecided('element at an unknown place')
            return
        st.mem[(o, p[2].c)] = v

    def copied(self, st, d, s, n, ins):
        so, do = st.objs.get(s[1]), st.objs.get(d[1])
        if n[0] != 'i' or not n[1].is_const() or None in (s[2], d[2]) or not s[2].is_const() or not d[2].is_const():
            raise Undecided('block copy')
        for ob, p in ((so, s), (do, d)):
            if ob and ob['kind'] == 'buffer':
                self.bound(st, ob, p[2], ins)
        for k, v in [(k, v) for k, v in st.mem.items() if len(k) == 2 and k[0] == s[1] and isinstance(k[1], int) and s[2].c <= k[1] < s[2].c + n[1].c]:
            st.mem[(d[1], k[1] - s[2].c + d[2].c)] = v

    # ---- the stream
    def stream(self, st, v, ins, what):
        if v[0] != 'p':
            raise Undecided('stream')
        if v[1] is None:
            raise Bad('%s on a stream that was not opened' % what, ins)
        ob = st.objs.get(v[1])
        if ob is None or ob['kind'] != 'stream':
            raise Undecided('stream of unknown origin')
        if not ob['live']:
            raise Bad('%s on a closed stream' % what, ins)
        return ob

    def room(self, st, p, n, ins, what):
        if p[0] != 'p' or p[1] is None or p[2] is None:
            raise Undecided('destination of ' + what)
        ob = st.objs.get(p[1])
        if ob is None or ob.get('size') is None:
            raise Undecided('destination of ' + what)
        left = Lin(ob['size']) - p[2] if isinstance(ob['size'], int) else ob['size'] - p[2]
        if not left.is_const():
            raise Undecided('destination of ' + what)
        if n is None or n > left.c:
            raise Bad('%s can write %s bytes into a buffer with room for %d' % (what, 'any number of' if n is None else n, left.c), ins)
        ob['slot'] = True

    def call(self, f, b, k, i, st, env, work, out, depth):
        name = i.get('callee') or ''
        dem = i.get('cdem') or ''
        inv = i.op == 'invoke'
        A = [self.val(st, env, o) for o in i.ops]

        def go(s, e, v=TOP):
            e = dict(e)
            e[i.id] = v
            if inv:
                work.append((i.get('normal'), b, s, e))
            else:
                self.block(f, b, k, s, e, work, out, depth)

        def done(v=TOP):
            go(st, env, v)
            return None

        def thrown(s, e):
            if inv:
                work.append((i.get('unwind'), b, s, dict(e)))
            else:
                out.append(('throw', s, TOP, i))
        if name in ('fopen', 'fopen64'):
            s2 = st.copy()
            o = 'stream:' + i.id
            st.objs[o] = dict(kind='stream', live=True, size=None)
            st.mem[('#opened',)] = o
            go(s2, env, NULL)
            go(st, env, P(o, 0))
            return None
        if name == 'fclose':
            self.stream(st, A[0], i, 'fclose')['live'] = False
            return done()
        if name == 'fgets':
            self.stream(st, A[2], i, 'fgets')
            if A[1][0] != 'i' or not A[1][1].is_const():
                raise Undecided('size of fgets')
            self.room(st, A[0], A[1][1].c, i, 'fgets')
            s2 = st.copy()
            s2.objs[A[0][1]]['line'] = False
            st.objs[A[0][1]]['line'] = True
            st.mem.pop((A[0][1], 0), None)
            go(s2, env, NULL)
            go(st, env, A[0])
            return None
        m = re.match(r'_*(?:isoc\d+_)?(f|s)scanf$', name)
        if m:
            src = A[0]
            if m.group(1) == 'f':
                self.stream(st, src, i, 'fscanf')
            else:
                ob = st.objs.get(src[1]) if src[0] == 'p' else None
                if ob is None:
                    raise Undecided('text of sscanf')
                if 'line' in ob and not ob['line']:
                    raise Bad('parses a line that was not read', i)
                if 'line' not in ob:
                    raise Undecided('text of sscanf')
            fmt = self.lit(A[1])
            if fmt is None:
                raise Undecided('format is not a literal')
            cv = wide(fmt)
            ds = A[2:]
            if len(cv) != len(ds):
                raise Bad('format "%s" has %d conversions for %d destinations' % (fmt, len(cv), len(ds)), i)
            for (c, w, l), d in zip(cv, ds):
                if c in 'sc[':
                    self.room(st, d, None if w is None and c != 'c' else (w or 1) + (c != 'c'), i, '%%%s' % c)
                else:
                    z = (INTSZ if c in 'diouxX' else FLTSZ).get(l)
                    ob = st.objs.get(d[1]) if d[0] == 'p' else None
                    if z is None or ob is None:
                        raise Undecided('destination of %' + c)
                    if ob.get('size') is not None and isinstance(ob['size'], int) and ob['size'] != z:
                        raise Bad('%%%s%s writes %d bytes into a variable of %d' % (l, c, z, ob['size']), i)
                    ob['slot'] = True
            cnt = st.mem.get(('#scan', i.id), 0)
            for R in [-1] + list(range(0, len(cv) + 1)):
                s2 = st.copy()
                s2.mem[('#scan', i.id)] = cnt + 1
                got = []
                for j, ((c, w, l), d) in enumerate(zip(cv, ds)):
                    at = '%s.%d.%d' % (i.id, cnt, j)
                    key = (d[1], d[2].c if d[2] is not None and d[2].is_const() else 0)
                    if j < R:
                        v = I(Lin.atom(at)) if c in 'diouxX' else ('fv', at) if c in 'aefgAEFG' else ('tok', j)
                        s2.mem[key] = v
                        got.append(v)
                    elif s2.mem.get(key) is None:
                        s2.mem[key] = POISON
                if R == len(cv):
                    s2.log.append(tuple(got))
                go(s2, env, I(R))
            return None
        if dem.startswith('hif::error('):
            s2 = st
            thrown(s2, env)
            return None
        # strings
        sm = re.match(r'std::__cxx11::basic_string<char, [^()]*>::(~?\w+|operator=)\(', dem)
        if sm and st.objs.get(A[0][1] if A and A[0][0] == 'p' else None, {}).get('kind') == 'local':
            o = (A[0][1], 'str')
            if sm.group(1) in ('basic_string', 'operator=', 'assign') and len(A) > 1:
                v = self.text(st, A[1])
                if v is not None:
                    st.mem[o] = v
                else:
                    st.mem.pop(o, None)
                return done()
            if sm.group(1) == 'compare' or sm.group(1) == 'size':
                pass
        if re.match(r'bool std::operator[!=]=<', dem) or re.search(r'basic_string<char, [^()]*>::compare\(', dem):
            x, y = self.text(st, A[0]), self.text(st, A[1])
            if x and y:
                if x[0] == 'lit':
                    x, y = y, x
                if x[0] == 'tok' and y[0] == 'lit':
                    if 'operator' in dem:
                        return done(('streq', x[1], y[1], 'operator==' in dem))
                    return done(('strcmp', x[1], y[1]))
            return done(TOP)
        if name in ('strcmp', 'strcasecmp'):
            x, y = self.text(st, A[0]), self.text(st, A[1])
            if x and y and x[0] == 'tok' and y[0] == 'lit':
                return done(('strcmp', x[1], y[1]))
            return done(TOP)
        m = re.match(r'hif::Array<.*>::resize\(', dem)
        if m:
            return self.resize(st, env, A, i, go, inv)
        if re.match(r'hif::Array<', dem):
            raise Undecided('array operation ' + dem)
        if name.startswith('llvm.'):
            if not name.startswith(('llvm.memcpy', 'llvm.memmove')):
                return Interp.call(self, f, b, k, i, st, env, work, out, depth)
            self.copied(st, A[0], A[1], A[2], i)
            return done()
        for a in A:
            if a[0] == 'p' and st.objs.get(a[1], {}).get('kind') in ('array', 'buffer', 'out'):
                raise Undecided('%s is given an output' % (dem or name))
            if a[0] == 'p' and st.objs.get(a[1], {}).get('kind') == 'stream':
                self.stream(st, a, i, name)
                if name not in ('feof', 'ferror', 'ftell', 'getc', 'fgetc', 'ungetc', 'rewind', 'fseek'):
                    raise Undecided('%s is given the stream' % (dem or name))
        if i.get('noret'):
            return None
        return done()

    def text(self, st, v):
        t = self.lit(v)
        if t is not None:
            return ('lit', t)
        if v[0] == 'p' and v[1] is not None:
            w = st.mem.get((v[1], 'str'))
            if w is not None:
                return w
            if v[2] is not None and v[2].is_const():
                w = st.mem.get((v[1], v[2].c))
                if w == POISON:
                    raise Bad('compares a word the scan may not have set')
                if w is not None and w[0] == 'tok':
                    return w
        return None

    def resize(self, st, env, A, i, go, inv):
        o = A[0][1] if A[0][0] == 'p' else None
        if st.objs.get(o, {}).get('kind') != 'array':
            raise Undecided('resize of a local array')
        n = A[1]
        if n == POISON:
            raise Bad('a size the scan may not have set is used', i)
        if n[0] != 'i':
            raise Undecided('size of resize')
        self.sizes[i.id] = i
        if not st.geq0(n[1]):
            if n[1].t and all(isinstance(a, str) for a in n[1].t):
                raise Bad('a size from the file is used although it may be negative', i)
            raise Undecided('sign of a size')
        old = st.mem[(o, 8)]
        if old[0] == 'i' and st.geq0(old[1] - n[1]):
            st.mem[(o, 8)] = n
            go(st, env)
            return None
        s2 = st.copy()
        r = st.mem.get(('#grown', o), 0)
        st.mem[('#grown', o)] = r + 1
        buf = '%s.buf%d' % (o, r)
        was = st.mem.get((o, 0))
        kept = []
        if r and was != NULL:
            if was[0] != 'p' or was[1] not in st.objs:
                raise Undecided('array grown twice')
            size = st.objs[was[1]]['size']
            kept = [(k[1], v) for k, v in st.mem.items() if len(k) == 2 and k[0] == was[1] and isinstance(k[1], int)]
            for off, _ in kept:
                if st.geq0(Lin(off) - size):
                    raise Bad('an element outside the %s entries the array was given was written before it is made larger' % (size,), i)
        for off, v in kept:
            st.mem[(buf, off)] = v
        st.objs[buf] = dict(kind='buffer', live=True, size=n[1].scale(self.esz[o]), of=o)
        st.mem[(o, 0)], st.mem[(o, 8)], st.mem[(o, 24)] = P(buf, 0), n, I(2)
        go(st, env)
        s2.mem[(o, 0)], s2.mem[(o, 8)], s2.mem[(o, 24)] = NULL, I(0), I(0)
        s2.facts.append(n[1] - 1)
        s2.mem[('#failed', o)] = 1
        go(s2, env)
        return None


SCHEMES = {'general': None, 'symmetric': 'same', 'hermitian': 'conj', 'skew-symmetric': 'neg'}


def scalar(T):
    return T.startswith('std::complex')


def setup(f, args_arrays, outs):
    st = State()
    args = []
    for k, a in enumerate(f.args):
        if k in args_arrays:
            o = 'array:%d' % k
            st.objs[o] = dict(kind='array', live=True, size=None)
            st.mem[(o, 0)], st.mem[(o, 8)], st.mem[(o, 16)], st.mem[(o, 24)] = TOP, TOP, TOP, TOP
            args.append(P(o, 0))
        elif k in outs:
            o = 'out:%d' % k
            st.objs[o] = dict(kind='out', live=True, size=None)
            args.append(P(o, 0))
        else:
            o = 'ext:%d' % k
            st.objs[o] = dict(kind='local', live=True, size=None)
            args.append(P(o, 0))
    return st, args


def analyse(rep, prog):
    n = 0
    for f in prog.functions:
        m = re.match(r'^void hif::read_mm_(sparse|vector)<(.*)>\(', f.dem)
        if not m:
            continue
        n += 1
        sparse = m.group(1) == 'sparse'
        ts = [t.strip() for t in m.group(2).split(', ')]
        V = ts[-1]
        I_ = ts[0] if sparse else None
        vz = {'float': 4, 'double': 8, 'long double': 16, 'std::complex<float>': 8, 'std::complex<double>': 16}[V]
        iz = {'int': 4, 'long': 8}.get(I_)
        arrays = {3: iz, 4: iz, 5: vz} if sparse else {1: vz}
        name = 'read_mm_%s<%s>' % (m.group(1), m.group(2))
        it = Reader(prog, f, arrays, {'array:%d' % k: z for k, z in arrays.items()})
        st, args = setup(f, arrays, (1, 2) if sparse else ())
        rules = {}

        def bad(rule, why, ins):
            rules.setdefault(rule, (why, ins.loc if ins is not None else f.dem))
        try:
            res = it.run(f, st, args)
        except Undecided as e:
            rep.und('read', name, e)
            continue
        except Bad as e:
            if getattr(it, 'sawmix', False):
                rep.und('input', name, 'a test combines numbers of the file in a way not followed; ' + str(e))
            else:
                rep.bad('input', name, str(e), e.ins.loc if e.ins is not None else f.dem)
            continue
        nret = nthrow = 0
        und = []
        checked = 0
        for kind, s, v, ins in res:
            try:
                o = s.mem.get(('#opened',))
                if o is not None and s.objs[o]['live']:
                    bad('stream', 'the file stays open when the function %s' % ('returns' if kind == 'ret' else 'raises an error'), ins)
                if kind != 'ret':
                    nthrow += 1
                    continue
                nret += 1
                for k in s.mem:
                    ob = s.objs.get(k[0]) if len(k) == 2 and isinstance(k[1], int) else None
                    if ob and ob['kind'] == 'buffer' and ob['size'] is not None and s.geq0(Lin(k[1]) - ob['size']):
                        bad('input', 'an entry is stored past the end of an array that was given room for %s bytes' % (ob['size'],), ins)
                if sparse:
                    r = sparse_result(s, V, iz, vz)
                else:
                    r = vector_result(s, V, vz)
                if r:
                    bad(r[0], r[1], ins)
                checked += 1
            except Undecided as e:
                und.append(str(e))
        und = sorted(set(und))
        if getattr(it, 'sawmix', False):
            for rule in [r for r in rules if r != 'stream']:
                und.append('a test combines numbers of the file in a way not followed; ' + rules.pop(rule)[0])
        for rule, text in (('stream', 'closed on every exit'), ('header', 'words of the first line'), ('range', 'indices and sizes'),
                           ('content', 'what the file says')):
            if rule in rules:
                rep.bad(rule, name, *rules[rule])
            elif und and rule != 'stream':
                rep.und(rule, name, '; '.join(und))
            elif nret == 0:
                rep.und(rule, name, 'no normal exit reached')
            else:
                rep.ok(rule, name, '%d normal and %d failing exits, %d abstract states' % (nret, nthrow, it.steps))
        if 'input' in rules:
            rep.bad('input', name, *rules['input'])
            continue
        np_ = [l for l, ok in it.bounds if not ok]
        if np_:
            rep.und('input', name, '%d of %d element accesses not shown inside (%s)' % (len(np_), len(it.bounds), np_[0]))
        else:
            rep.ok('input', name, '%d element accesses inside their arrays, every scanned value set before use' % len(it.bounds))
    return n


def tokens(s):
    return {(k[1], k[2]): v for k, v in s.mem.items() if k[0] == '#str'}


def head(s, V, layout):
    tk = tokens(s)
    pos = {k: t for (k, t), v in tk.items() if v}
    if not tk:
        raise Undecided('words of the first line are not compared')
    for k, want, what in ((0, '%%MatrixMarket', 'banner'), (1, 'matrix', 'object'), (2, layout, 'layout')):
        if pos.get(k) != want:
            raise_ = pos.get(k)
            if raise_ is None and tk.get((k, {'coordinate': 'array', 'array': 'coordinate'}.get(want))) is False and k == 2:
                pass
            return 'header', 'a file whose %s is %s is accepted' % (what, ('"%s"' % raise_) if raise_ else 'not "%s"' % want)
    want = 'complex' if scalar(V) else 'real'
    if pos.get(3) != want:
        return 'header', 'a file of %s values is accepted for %s' % (pos.get(3) or 'other', want)
    if pos.get(4) not in SCHEMES:
        return 'header', 'a file with an unknown storage scheme is accepted'
    return None, pos.get(4)


def numbers(s):
    return [l for l in s.log if l and all(v[0] in ('i', 'fv') for v in l)]


def elements(s, o, z, ncomp):
    """list of tuples of the entries of an array"""
    d = s.mem.get((o, 0))
    n = s.mem.get((o, 8))
    return d, n


def entry(s, d, k, z, cz):
    if d == NULL or d[0] != 'p':
        raise Undecided('elements')
    r = []
    for c in range(0, z, cz):
        v = s.mem.get((d[1], k * z + c))
        if v is None or v == TOP:
            raise Undecided('element %d of %s is not known' % (k, d[1]))
        r.append(v)
    return tuple(r)


def eql(s, a, b):
    r = s.cmp('eq', a, b)
    if r is None and (('#ne', repr(a - b)) in s.mem or ('#ne', repr(b - a)) in s.mem):
        return False
    return r


def eqv(s, a, b):
    if a[0] == 'i' and b[0] == 'i':
        return eql(s, a[1], b[1])
    if TOP in (a, b):
        return None
    return a == b


def sparse_result(s, V, iz, vz):
    r = head(s, V, 'coordinate')
    if r[0]:
        return r
    scheme = SCHEMES[r[1]]
    nums = numbers(s)
    sz = [l for l in nums if all(v[0] == 'i' for v in l)]
    en = [l for l in nums if any(v[0] == 'fv' for v in l)]
    if not sz or len(sz[-1]) != 3:
        raise Undecided('no scan of three sizes')
    m, n, nz = sz[-1]
    for k, v, what in (('out:1', m, 'rows'), ('out:2', n, 'columns')):
        w = s.mem.get((k, 0), TOP)
        e = eqv(s, w, v)
        if e is None:
            raise Undecided('number of ' + what)
        if not e:
            return 'content', 'the number of %s is not the one in the file' % what
        if not s.geq0(w[1]):
            return 'range', 'a negative number of %s is accepted' % what
    c = s.cmp('eq', nz[1], Lin(len(en)))
    if c is None:
        raise Undecided('number of entries read')
    if not c:
        return 'content', 'reads %d entries of a file with another number of them' % len(en)
    cz = vz // 2 if scalar(V) else vz
    want = []
    for e in en:
        if len(e) != (4 if scalar(V) else 3) or e[0][0] != 'i' or e[1][0] != 'i':
            raise Undecided('entry of %d fields' % len(e))
        i, j, v = I(e[0][1] - 1), I(e[1][1] - 1), tuple(e[2:])
        want.append((i, j, v))
        if scheme:
            d = eql(s, e[0][1], e[1][1])
            if d is None:
                return 'content', 'entries of a %s file are handled alike on and off the diagonal' % r[1]
            if not d:
                ng = lambda x: ('neg', x)
                w = v if scheme == 'same' else tuple(ng(x) for x in v) if scheme == 'neg' else (v[0],) + tuple(ng(x) for x in v[1:])
                want.append((j, i, w))
    N = len(want)
    D = [s.mem.get(('array:%d' % k, 0)) for k in (3, 4, 5)]
    for k in (3, 4, 5):
        z = s.mem.get(('array:%d' % k, 8), TOP)
        if z[0] != 'i' or s.cmp('eq', z[1], Lin(N)) is None:
            raise Undecided('final size')
        if not s.cmp('eq', z[1], Lin(N)):
            return 'content', 'a %s file with %d lines leaves arrays of %s instead of %d entries' % (r[1], len(en), z[1], N)
    got = [(entry(s, D[0], k, iz, iz)[0], entry(s, D[1], k, iz, iz)[0], entry(s, D[2], k, vz, cz)) for k in range(N)]
    for i, j, v in got:
        for x, b, what in ((i, m, 'row'), (j, n, 'column')):
            if x[0] != 'i':
                raise Undecided('index of unknown origin')
            if not s.geq0(x[1]):
                return 'range', 'a %s index below one is accepted' % what
            if not s.geq0(b[1] - x[1] - 1):
                if not any('.' in str(a) for a in x[1].t):
                    raise Undecided('index of unknown origin')
                return 'range', 'a %s index beyond the number of %ss is accepted' % (what, what)
    left = list(got)
    for w in want:
        for g in left:
            if eqv(s, g[0], w[0]) and eqv(s, g[1], w[1]) and g[2] == w[2]:
                left.remove(g)
                break
        else:
            return 'content', 'an entry (%s, %s) of a %s file is stored as %s' % (w[0][1], w[1][1], r[1], ' / '.join('(%s, %s, %s)' % (g[0][1], g[1][1], g[2]) for g in left))
    return None


def vector_result(s, V, vz):
    r = head(s, V, 'array')
    if r[0]:
        return r
    nums = numbers(s)
    sz = [l for l in nums if all(v[0] == 'i' for v in l)]
    en = [l for l in nums if any(v[0] == 'fv' for v in l)]
    if not sz or len(sz[-1]) != 2:
        raise Undecided('no scan of two sizes')
    m = sz[-1][0]
    c = s.cmp('eq', m[1], Lin(len(en)))
    if c is None:
        raise Undecided('number of entries read')
    if not c:
        return 'content', 'reads %d entries of a file with another number of them' % len(en)
    z = s.mem.get(('array:1', 8), TOP)
    e = eqv(s, z, m)
    if e is None:
        raise Undecided('final size')
    if not e:
        return 'content', 'the vector does not have the length in the file'
    cz = vz // 2 if scalar(V) else vz
    for k, w in enumerate(en):
        g = entry(s, s.mem[('array:1', 0)], k, vz, cz)
        if g != tuple(w):
            return 'content', 'entry %d is stored as %s' % (k, g)
    return None


# ---- writers -------------------------------------------------------------------------------------------------------
DIGITS = {'float': 9, 'double': 17, 'long double': 21}


class Writer(Reader):
    """follows the text a writer produces: literal pieces and the values inserted between them"""

    def load(self, st, p, ins):
        if p == TOP:
            return TOP            # the layout of a stream
        o = self.chk(st, p, ins, 'read')
        if o.startswith('@'):
            g = self.g.get(o[1:], {})
            if g.get('init') and p[2] is not None and p[2].is_const() and p[2].c == 0:
                return P('@' + g['init'], 0)
            return TOP
        ob = st.objs.get(o)
        if ob is None or p[2] is None:
            return TOP
        if ob['kind'] == 'elements':
            q = p[2].divexact(ob['esz'])
            sub = 0
            if q is None and ob['half']:
                q, sub = (p[2] - ob['half']).divexact(ob['esz']), 1
            if q is None:
                raise Undecided('element at an unknown place')
            if ins.get('ty') in ('double', 'float', 'x86_fp80'):
                return ('fv', '%s[%s].%d' % (o, q, sub))
            if ins.get('ty') in ('i32', 'i64'):
                return I(Lin.atom('%s[%s]' % (o, q)))
            return TOP
        if not p[2].is_const():
            return TOP
        return st.mem.get((o, p[2].c), TOP)

    def store(self, st, v, p, ins):
        o = self.chk(st, p, ins, 'write')
        ob = st.objs.get(o)
        if ob is not None and ob['kind'] in ('array', 'elements', 'stream'):
            raise Undecided('writes into %s' % o)
        if ob is not None and p[2] is not None and p[2].is_const():
            st.mem[(o, p[2].c)] = v

    def put(self, st, x):
        st.log.append(x)

    def call(self, f, b, k, i, st, env, work, out, depth):
        name = i.get('callee') or ''
        dem = i.get('cdem') or ''
        inv = i.op == 'invoke'
        A = [self.val(st, env, o) for o in i.ops]

        def go(s, e, v=TOP):
            e = dict(e)
            e[i.id] = v
            if inv:
                work.append((i.get('normal'), b, s, e))
            else:
                self.block(f, b, k, s, e, work, out, depth)

        def done(v=TOP):
            go(st, env, v)
            return None
        if dem.startswith('hif::error('):
            if inv:
                work.append((i.get('unwind'), b, st, dict(env)))
            else:
                out.append(('throw', st, TOP, i))
            return None
        S = 'out'
        me = A[0] if A else TOP
        mine = me[0] == 'p' and st.mem.get((me[1], 'os'))
        if re.match(r'std::basic_ofstream<char, [^()]*>::basic_ofstream\(', dem) or re.search(r'basic_ofstream<.*>::open\(', dem):
            st.mem[(me[1], 'os')] = True
            return done()
        if re.match(r'std::basic_ofstream<.*>::is_open\(', dem) and mine:
            s2 = st.copy()
            s2.mem[('#open',)] = False
            st.mem[('#open',)] = True
            go(s2, env, I(0))
            go(st, env, I(1))
            return None
        if re.match(r'std::basic_ios<.*>::(fail|bad|good|operator!|operator bool)\(', dem) and mine:
            pos = '::good(' in dem or 'operator bool' in dem
            s2 = st.copy()
            st.mem[('#tested',)] = len(st.log) if not st.mem.get(('#closed',)) else 'closed'
            s2.mem[('#broken',)] = True
            go(st, env, I(1 if pos else 0))
            go(s2, env, I(0 if pos else 1))
            return None
        if re.match(r'std::basic_ofstream<.*>::close\(', dem) and mine:
            st.mem[('#closed',)] = True
            return done()
        if re.match(r'std::basic_ostream<.*>::flush\(', dem) and mine:
            return done(me)
        if re.match(r'std::ios_base::setf\(', dem) and mine:
            if len(A) == 2 and A[1] == I(256):
                st.mem[('#sci',)] = True
                return done()
            if len(A) == 3 and A[1] == I(256):
                st.mem[('#sci',)] = True
                return done()
            raise Undecided('format flags')
        if re.match(r'std::ios_base::precision\(long\)', dem) and mine:
            if A[1][0] != 'i' or not A[1][1].is_const():
                raise Undecided('precision')
            st.mem[('#prec',)] = A[1][1].c
            return done()
        ins_ = re.search(r'(operator<<|_M_insert)', dem) and mine
        if ins_:
            t = self.lit(A[1])
            m = re.search(r'(?:operator<<|_M_insert<[^()]*>)\s*(?:<[^()]*>)?\((.*)\)', dem)
            if t is not None:
                self.put(st, ('t', t))
            elif A[1][0] == 'i':
                if re.search(r'operator<<.*\(std::basic_ostream<[^()]*>&, char\)', dem):
                    if not A[1][1].is_const():
                        raise Undecided('character')
                    self.put(st, ('t', chr(A[1][1].c & 255)))
                elif A[1][1].is_const():
                    self.put(st, ('t', str(A[1][1].c)))
                else:
                    self.put(st, ('v', A[1]))
            elif A[1][0] in ('fv', 'neg'):
                w = re.search(r'_M_insert<([\w ]+)>|operator<<\(([\w ]+)\)$', dem)
                self.put(st, ('f', A[1], (w.group(1) or w.group(2)) if w else None, st.mem.get(('#prec',), 6), bool(st.mem.get(('#sci',)))))
            else:
                raise Undecided('inserts something unknown: ' + dem)
            return done(me)
        if mine and not re.search(r'::~?basic_\w*stream\(', dem):
            raise Undecided('the stream is given to ' + dem)
        if name.startswith('llvm.'):
            return Interp.call(self, f, b, k, i, st, env, work, out, depth)
        if i.get('noret'):
            return None
        return done()

    def block(self, f, b, start, st, env, work, out, depth):
        # the stream object is one thing whatever base it is seen through
        return Interp.block(self, f, b, start, st, env, work, out, depth)

    def val(self, st, env, v):
        return Interp.val(self, st, env, v)


def lines(log):
    """the text as lines of fields; a field is a string or a value"""
    out, cur, word = [], [], ''
    for x in log:
        if x[0] != 't':
            if word:
                raise Undecided('a value is glued to text')
            cur.append(x)
            glue = True
            continue
        for c in x[1]:
            if c in ' \t\n':
                if word:
                    cur.append(word)
                word = ''
                if c == '\n':
                    out.append(cur)
                    cur = []
            else:
                word += c
    if word or cur:
        out.append(cur + ([word] if word else []))
    return out


def glued(log):
    """two fields without a blank between them"""
    prev = None
    for x in log:
        if x[0] != 't':
            if prev is not None and prev not in ' \t\n':
                return True
            prev = 'v'
        elif x[1]:
            if prev == 'v' and x[1][0] not in ' \t\n':
                return True
            prev = x[1][-1]
    return False


def writers(rep, prog):
    n = 0
    for f in prog.functions:
        m = re.match(r'^void hif::write_mm_(sparse|vector)<(.*)>\(', f.dem)
        if not m:
            continue
        n += 1
        sparse = m.group(1) == 'sparse'
        ts = [t.strip() for t in m.group(2).split(', ')]
        V = ts[-1]
        vz = {'float': 4, 'double': 8, 'long double': 16, 'std::complex<float>': 8, 'std::complex<double>': 16}[V]
        cplx = scalar(V)
        name = 'write_mm_%s<%s>' % (m.group(1), m.group(2))
        it = Writer(prog, f, {}, {})
        it.sz = {}
        st = State()
        args = []
        arr = {2: ('ptr', 8), 3: ('ind', {'int': 4, 'long': 8}.get(ts[2]) if sparse else None), 4: ('val', vz)} if sparse else {1: ('val', vz)}
        for k, a in enumerate(f.args):
            if k in arr:
                nm, z = arr[k]
                o, e = 'array:%d' % k, nm
                st.objs[o] = dict(kind='array', live=True, size=None)
                st.objs[e] = dict(kind='elements', live=True, size=None, esz=z, half=z // 2 if cplx and nm == 'val' else 0)
                st.mem[(o, 0)], st.mem[(o, 8)] = P(e, 0), I(Lin.atom('n:' + nm))
                st.facts.append(Lin.atom('n:' + nm))
                args.append(P(o, 0))
            elif a['ty'] == 'ptr':
                o = 'ext:%d' % k
                st.objs[o] = dict(kind='local', live=True, size=None)
                args.append(P(o, 0))
            else:
                args.append(I(Lin.atom('a%d' % k)))
        try:
            res = it.run(f, st, args)
        except Undecided as e:
            rep.und('written', name, e)
            continue
        except Bad as e:
            rep.bad('written', name, str(e), e.ins.loc if e.ins is not None else f.dem)
            continue
        und, bads, nret, nent = set(), {}, 0, 0
        for kind, s, v, ins in res:
            if kind != 'ret':
                continue
            nret += 1
            try:
                if s.mem.get(('#open',)) is False:
                    bads.setdefault('written', ('returns although the file could not be opened', ins))
                    continue
                if s.mem.get(('#broken',)):
                    bads.setdefault('failure', ('returns although writing failed', ins))
                    continue
                t = s.mem.get(('#tested',))
                if t is None or t != 'closed' and t != len(s.log):
                    bads.setdefault('failure', ('returns without having looked whether writing failed', ins))
                r, ne = written(s, sparse, '<true' in f.dem[:40], V, cplx)
                nent += ne
                if r:
                    bads.setdefault(r[0], (r[1], ins))
            except Undecided as e:
                und.add(str(e))
        for rule in ('written', 'digits', 'failure'):
            if rule in bads:
                rep.bad(rule, name, bads[rule][0], bads[rule][1].loc)
            elif und:
                rep.und(rule, name, '; '.join(sorted(und)))
            elif not nent:
                rep.und(rule, name, 'no entry is written on a path that returns')
            else:
                rep.ok(rule, name, '%d returning paths, %d entries' % (nret, nent))
    return n


def written(s, sparse, rowmajor, V, cplx):
    if glued(s.log):
        return ('written', 'two fields are written without a blank between them'), 0
    L = lines(s.log)
    if not L:
        raise Undecided('no text')
    want = ['%%MatrixMarket', 'matrix', 'coordinate' if sparse else 'array', 'complex' if cplx else 'real', 'general']
    if [x if isinstance(x, str) else None for x in L[0]] != want:
        return ('written', 'the first line is "%s"' % ' '.join(x if isinstance(x, str) else '..' for x in L[0])), 0
    body = [l for l in L[1:] if not (l and isinstance(l[0], str) and l[0].startswith('%'))]
    if not body:
        return ('written', 'no line of sizes'), 0

    def lin(x):
        if isinstance(x, str):
            try:
                return Lin(int(x))
            except ValueError:
                raise Undecided('field ' + x)
        if x[0] == 'v':
            return x[1][1]
        raise Undecided('a value among the sizes')
    A = Lin.atom
    if sparse:
        prim = A('n:ptr') - 1
        sizes = [prim, A('a1'), A('n:val')] if rowmajor else [A('a1'), prim, A('n:val')]
    else:
        sizes = [A('n:val'), Lin(1)]
    if len(body[0]) != len(sizes):
        return ('written', 'a line of sizes with %d fields' % len(body[0])), 0
    for k, (x, w) in enumerate(zip(body[0], sizes)):
        x = lin(x)
        if sparse and k == 2 and s.cmp('eq', x, A('n:ind')) is True:
            continue
        e = s.cmp('eq', x, w)
        if e is None and any(str(a) not in ('n:ptr', 'n:ind', 'n:val', 'a1') for a in x.t):
            raise Undecided('size field')
        if not e:
            return ('written', 'the size line holds %s where %s belongs' % (x, w)), 0
    # entries in the order of the loops: row (column) i, positions from ptr[i] on
    want = []
    if sparse:
        i = 0
        while s.cmp('ule', Lin(i + 1), prim):
            k = A('ptr[%s]' % Lin(i))
            end = A('ptr[%s]' % Lin(i + 1))
            for _ in range(ROUNDS + 2):
                t = s.cmp('slt', k, end)
                if t is None:
                    raise Undecided('end of row %d' % i)
                if not t:
                    break
                o = A('ind[%s]' % k) + 1
                want.append(([Lin(i + 1), o] if rowmajor else [o, Lin(i + 1)], ['val[%s].%d' % (k, c) for c in range(2 if cplx else 1)]))
                k = k + 1
            i += 1
            if i > ROUNDS + 2:
                raise Undecided('rows')
        if s.cmp('eq', prim, Lin(i)) is not True:
            raise Undecided('number of rows')
    else:
        i = 0
        while s.cmp('ule', Lin(i + 1), A('n:val')):
            want.append(([], ['val[%s].%d' % (Lin(i), c) for c in range(2 if cplx else 1)]))
            i += 1
        if s.cmp('eq', A('n:val'), Lin(i)) is not True:
            raise Undecided('number of entries')
    if len(want) != len(body) - 1:
        return ('written', '%d lines are written for %d entries' % (len(body) - 1, len(want))), 0
    need = DIGITS.get(re.sub(r'std::complex<(.*)>', r'\1', V))
    for (idx, vals), l in zip(want, body[1:]):
        if len(l) != len(idx) + len(vals):
            return ('written', 'an entry has %d fields' % len(l)), 0
        for w, x in zip(idx, l):
            x = lin(x)
            e = s.cmp('eq', x, w)
            if not e:
                return ('written', 'an entry has index %s where %s belongs' % (x, w)), 0
        for w, x in zip(vals, l[len(idx):]):
            if isinstance(x, str) or x[0] != 'f':
                raise Undecided('value field')
            if x[1] != ('fv', w):
                return ('written', 'an entry has the value %s where %s belongs' % (x[1], w)), 0
            d = x[3] + 1 if x[4] else x[3]
            if d < need:
                return ('digits', 'values are written with %d digits, %d are needed to read them back' % (d, need)), 0
            if x[2] and DIGITS.get(x[2], 99) < need:
                return ('digits', 'values are narrowed to %s before they are written' % x[2]), 0
    return None, len(want)
