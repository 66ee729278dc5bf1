"""Information flow from one input (the verbosity setting) through control and data.

Sources are the loads of a field of the option structure.  A value is *dark* if it depends on a source.  A branch on a
dark value opens a region: the blocks that are executed or not depending on it.  Inside a region only printing may happen:
calls that print, memory that exists in dark regions only, reads.  What leaves a region with two values is dark again.
"""
import re
from ir import Undecided

PRINT = re.compile(r'^(hif::(info|warning)\(|hif::internal::(StdoutStruct|StderrStruct|DummyStreamer)::|hif::.*::report_status|'
                   r'std::(basic_)?(o|io|string|)stream|std::(basic_)?(ios|iostream|ostream|streambuf|stringbuf|filebuf)|std::ios_base|'
                   r'(std::(basic_)?ostream\S*|std::basic_ostream<[^()]*>&) std::|printf|fprintf|vfprintf|puts|putchar|fputs|fputc|fwrite|fflush|snprintf|vsnprintf|sprintf)')
# reads only, or works on memory of its own
READ = re.compile(r'^(llvm\.(fabs|sqrt|lifetime|dbg|assume|umax|umin|smax|smin|cbrt|pow|ceil|floor|trunc|fmuladd|experimental|prefetch|abs|ctlz|cttz|expect|is|vastart|vaend|va)|'
                  r'f?abs|hypot|cabs|sqrt|cbrt|pow|ceil|floor|strlen|strcmp|memcmp|log|log10|exp|operator (new|delete)|malloc|free|'
                  r'hypotf?|cabsf?|powf?|sqrtf?|std::(__)?(min|max|count|accumulate|distance|abs|norm|sqrt|pow|log)|'
                  r'std::__throw|clock|time|gettimeofday|clock_gettime|std::chrono|omp_get|__clang|__cxa_(guard|atexit))')
MEMW = re.compile(r'^llvm\.(memcpy|memmove|memset)')
FAIL = re.compile(r'^(hif::error\(|abort|exit|std::__throw|__cxa_throw|std::terminate|__assert_fail)')


class Bad(Exception):
    def __init__(self, msg, ins):
        Exception.__init__(self, msg)
        self.ins = ins


def base(dem):
    """name of a function without template arguments and parameters"""
    out, d = [], 0
    s = dem
    k = 0
    while k < len(s):
        if s.startswith('operator<<', k) or s.startswith('operator->', k) or s.startswith('operator<', k) or s.startswith('operator>', k):
            m = re.match(r'operator(<<=?|>>=?|->|<=|>=|<|>)', s[k:])
            if m:
                out.append(m.group(0) if d == 0 else '')
                k += len(m.group(0))
                continue
        if s.startswith('operator()', k):
            if d == 0:
                out.append('operator()')
            k += 10
            continue
        c = s[k]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == '(' and d == 0 and not s.startswith('(anonymous', k):
            break
        elif d == 0:
            out.append(c)
        k += 1
    return ''.join(out).split(' ')[-1]


class Flow:
    def __init__(self, f, is_source, params=()):
        self.f = f
        self.dark = set(params)
        self.why = {p: None for p in params}
        self.src = 0
        self.darkobj = set()        # objects holding dark values
        self.users = f.users()
        self.regions = {}           # branch id -> (blocks, join)
        self.inreg = set()
        self.calls = []             # (call, position) dark values handed to other routines
        self.returned = None
        self.is_source = is_source
        self.notes = []
        self.live()
        self.run()

    # ---- post-dominance among the blocks that can still return
    def live(self):
        f = self.f
        self.dead = {b for b, l in f.blocks.items() if any(i.op in ('call', 'invoke') and FAIL.match(i.get('cdem') or '') for i in l)}
        ret = [b for b, l in f.blocks.items() if l and l[-1].op in ('ret', 'resume') and b not in self.dead]
        live, wl = set(ret), list(ret)
        while wl:
            for p in f.pred[wl.pop()]:
                if p not in live and p not in self.dead:
                    live.add(p)
                    wl.append(p)
        self.alive = live
        succ = {b: [s for s in f.succ[b] if s in live] for b in live}
        self.asucc = succ
        # post-dominators, iterative sets over reverse graph
        order = []
        seen = set()
        def dfs(b):
            st = [(b, iter([p for p in f.pred[b] if p in live]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for p in it:
                    if p not in seen:
                        seen.add(p)
                        st.append((p, iter([q for q in f.pred[p] if q in live])))
                        break
                else:
                    order.append(x)
                    st.pop()
        for r in ret:
            if r not in seen:
                dfs(r)
        idx = {b: k for k, b in enumerate(order)}
        END = -1
        idx[END] = len(order)
        pd = {b: None for b in order}
        pd[END] = END
        def inter(a, b):
            while a != b:
                while idx[a] < idx[b]:
                    a = pd[a]
                while idx[b] < idx[a]:
                    b = pd[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                ss = succ[b] or [END]
                new = None
                for s in ss:
                    if s == END or pd.get(s) is not None:
                        new = s if new is None else inter(new, s)
                if new is not None and new != pd[b]:
                    pd[b] = new
                    ch = True
        self.pd = pd

    def side(self, s, join):
        out, wl = set(), [s]
        while wl:
            b = wl.pop()
            if b == join or b in out:
                continue
            out.add(b)
            if b not in self.dead:
                wl.extend(self.f.succ[b])
        return out

    # ---- fixed point
    def run(self):
        f = self.f
        for i in f.ins.values():
            if i.op == 'load' and self.is_source(f, i):
                self.dark.add(i.id)
                self.why[i.id] = i
                self.src += 1
        ch = True
        while ch:
            n = (len(self.dark), len(self.darkobj), len(self.regions))
            for i in f.ins.values():
                if i.id in self.dark:
                    continue
                ops = self.uses(i)
                if i.op == 'store':
                    if i.ops[0] in self.dark:
                        for r in self.roots(i.ops[1]):
                            if r[0] == 'alloca':
                                self.darkobj.add(r)
                    continue
                if i.op == 'load':
                    if any(o in self.dark for o in ops) or any(r in self.darkobj for r in self.roots(i.ops[0])):
                        self.dark.add(i.id)
                    continue
                if i.op in ('call', 'invoke'):
                    c = i.get('cdem') or ''
                    if any(o in self.dark for o in i.ops) and (READ.match(c) or READ.match(base(c))) and not MEMW.match(c):
                        self.dark.add(i.id)
                    continue
                if i.op in ('br', 'switch', 'ret', 'alloca', 'unreachable'):
                    continue
                if any(o in self.dark for o in ops):
                    self.dark.add(i.id)
            for b, l in f.blocks.items():
                t = l[-1] if l else None
                if t is not None and t.op in ('br', 'switch') and t.ops and t.ops[0] in self.dark and t.id not in self.regions and len(set(f.succ[b])) > 1 and b in self.alive:
                    join = self.pd[b]
                    sides = [self.side(s, join) for s in dict.fromkeys(f.succ[b])]
                    reg = set().union(*sides)
                    self.regions[t.id] = (reg, join, sides)
                    self.inreg |= reg
                    if join in f.blocks:
                        pr = [p for p in f.pred[join] if p in reg or p == b]
                        for i in f.blocks[join]:
                            if i.op != 'phi':
                                break
                            vs = {v for v, p in zip(i.ops, self.phiblocks(i)) if p in pr}
                            if len(vs) > 1:
                                self.dark.add(i.id)
                                self.why[i.id] = t
            ch = n != (len(self.dark), len(self.darkobj), len(self.regions))

    def phiblocks(self, i):
        return i.get('from') or []

    def uses(self, i):
        o = list(i.ops)
        if i.op == 'getelementptr':
            o.append(i.get('base'))
            o += [v for v, _ in i.get('var', [])]
        return o

    def roots(self, v, seen=None):
        """base objects a pointer can point into"""
        f = self.f
        seen = set() if seen is None else seen
        if v in seen:
            return set()
        seen.add(v)
        if v[0] != '%':
            try:
                return {f.addr(v)[0]}
            except Undecided:
                return {('v', v)}
        i = f.ins[v]
        if i.op == 'getelementptr':
            return self.roots(i.get('base'), seen)
        if i.op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.roots(i.ops[0], seen)
        if i.op == 'phi':
            return set().union(set(), *[self.roots(o, seen) for o in i.ops])
        if i.op == 'select':
            return set().union(*[self.roots(o, seen) for o in i.ops[1:]])
        if i.op == 'alloca':
            return {('alloca', v)}
        if i.op in ('call', 'invoke'):
            return {('call', v)}
        if i.op == 'load':
            return {('loaded', v)}
        return {('v', v)}

    # ---- objects that exist in dark regions only
    def local(self, root, depth=0):
        f = self.f
        if depth > 6:
            return False
        if root[0] == 'alloca':
            return all(u.blk in self.inreg or self.harmless(u) for u in self.alluses(root[1]))
        if root[0] == 'call':
            i = f.ins[root[1]]
            c = i.get('cdem') or ''
            if re.match(r'operator new|malloc|std::.*basic_string.*_M_create|__cxa_allocate', c) or '_M_create' in c or '::allocate' in c:
                return i.blk in self.inreg
            if PRINT.match(c):
                return True
            return i.blk in self.inreg and all(self.local(r, depth + 1) for o in i.ops if f.isptr(o) for r in self.roots(o))
        if root[0] == 'loaded':
            i = f.ins[root[1]]
            rs = self.roots(i.ops[0])
            return i.blk in self.inreg and bool(rs) and all(r[0] in ('alloca', 'call', 'loaded') and self.local(r, depth + 1) for r in rs)
        if root[0] in ('null',):
            return True
        if root[0] == 'global':
            return re.match(r'_ZT[VTIS]|_ZTC|_ZSt4c(out|err)|stdout|stderr|\.str|__', root[1]) is not None
        return False

    def tested_only(self, v):
        """the value only decides dark branches"""
        wl, seen = [v], {v}
        while wl:
            for u in self.users.get(wl.pop(), []):
                if u.blk in self.inreg or u.id in self.regions:
                    continue
                if u.op in ('icmp', 'and', 'or', 'xor', 'select', 'trunc', 'zext', 'freeze'):
                    if u.id not in seen:
                        seen.add(u.id)
                        wl.append(u.id)
                    continue
                return False
        return True

    def harmless(self, u):
        if u.op in ('call', 'invoke'):
            return re.match(r'llvm\.(lifetime|dbg|invariant)', u.get('cdem') or u.get('callee') or '') is not None
        return False

    def alluses(self, v):
        out, wl, seen = [], [v], {v}
        while wl:
            for u in self.users.get(wl.pop(), []):
                if u.op in ('getelementptr', 'bitcast', 'freeze', 'phi', 'select'):
                    if u.id not in seen:
                        seen.add(u.id)
                        wl.append(u.id)
                else:
                    out.append(u)
        return out

    def objname(self, root):
        if root[0] == 'arg':
            a = self.f.args[root[1]]
            return 'argument ' + (a.get('var') or a.get('name') or str(root[1]))
        if root[0] == 'global':
            return 'global ' + root[1]
        if root[0] == 'alloca':
            return 'local ' + (self.f.ins[root[1]].get('var') or root[1])
        return 'memory of the caller' if root[0] == 'loaded' else str(root[0])

    # ---- the rule
    def check(self, mutates, gl_ok):
        """-> list of ('ok'|'bad'|'und', text, ins)"""
        f = self.f
        out = []
        for tid, (reg, join, sides) in self.regions.items():
            t = f.ins[tid]
            if len(sides) == 2:
                tw = self.twins(sides)
            else:
                tw = set()
            bad = und = None
            for b in sorted(reg):
                if b not in self.alive:
                    for i in f.blocks[b]:
                        if i.op in ('call', 'invoke') and re.match(r'hif::error', i.get('cdem') or '') :
                            # only if the decision to fail is dark: some path of the region fails, another does not
                            bad = bad or ('an error is raised depending on it', i)
                    continue
                for i in f.blocks[b]:
                    r = self.effect(i, mutates, gl_ok, tw)
                    if r and r[0] == 'bad':
                        bad = bad or (r[1], i)
                    elif r:
                        und = und or (r[1], i)
            if any(f.blocks[b][-1].op == 'ret' for b in reg if b in self.alive) and join == -1:
                bad = bad or ('the function returns early depending on it', t)
            out.append(('bad', bad[0], bad[1], t) if bad else ('und', und[0], und[1], t) if und else ('ok', '%d blocks' % len(reg), t, t))
        # data
        for i in f.ins.values():
            if i.op == 'store' and i.ops[0] in self.dark:
                rs = self.roots(i.ops[1])
                if i.blk in self.inreg and all(self.local(r) for r in rs):
                    continue
                if all(r[0] == 'alloca' for r in rs):
                    continue
                if any(r[0] in ('arg', 'global') for r in rs) and all(r[0] in ('arg', 'global', 'loaded') for r in rs):
                    r = next(r for r in rs if r[0] in ('arg', 'global'))
                    if r[0] == 'global' and gl_ok(r[1]):
                        continue
                    out.append(('bad', 'a value that depends on it is stored in ' + self.objname(r), i, i))
                elif all(r[0] == 'loaded' for r in rs) and i.blk not in self.inreg:
                    out.append(('bad', 'a value that depends on it is stored in memory of the caller', i, i))
                else:
                    out.append(('und', 'a value that depends on it is stored', i, i))
            elif i.op in ('call', 'invoke'):
                for k, o in enumerate(i.ops):
                    if o in self.dark:
                        c = i.get('cdem') or ''
                        if PRINT.match(c) or READ.match(c) or READ.match(base(c)):
                            continue
                        if i.blk in self.inreg and self.effect(i, mutates, gl_ok, set()) is None:
                            continue
                        self.calls.append((i, k))
            elif i.op == 'ret' and i.ops and i.ops[0] in self.dark:
                self.returned = i
        return out

    def twins(self, sides):
        """calls done by both sides with equal arguments"""
        a, b = sides
        common = a & b
        fa, fb = [], []
        for s, l in ((a, fa), (b, fb)):
            for blk in sorted(s - common):
                for i in self.f.blocks[blk]:
                    if i.op in ('call', 'invoke') and not PRINT.match(i.get('cdem') or '') and not READ.match(i.get('cdem') or ''):
                        l.append(i)
        tw = set()
        if len(fa) == len(fb):
            for x, y in zip(fa, fb):
                if base(x.get('cdem') or 'x') == base(y.get('cdem') or 'y') and len(x.ops) == len(y.ops):
                    diff = [(p, q) for p, q in zip(x.ops, y.ops) if p != q]
                    if all(p.startswith('g') and q.startswith('g') for p, q in diff):
                        tw |= {x.id, y.id}
        return tw

    def effect(self, i, mutates, gl_ok, tw):
        f = self.f
        if i.id in tw:
            return None
        if i.op == 'store':
            rs = self.roots(i.ops[1])
            if all(self.local(r) or (r[0] == 'global' and gl_ok(r[1])) for r in rs):
                return None
            r = next(r for r in sorted(rs) if not self.local(r))
            if r[0] in ('arg', 'global', 'alloca'):
                if r[0] == 'alloca' and not self.read_outside(r[1]):
                    return None
                return ('bad', 'it decides a write to ' + self.objname(r))
            if r[0] == 'loaded':
                rr = {q[0] for q in self.roots(f.ins[r[1]].ops[0])}
                if rr <= {'arg', 'alloca'} and not any(self.local(q) for q in self.roots(f.ins[r[1]].ops[0])):
                    return ('bad', 'it decides a write to data that outlives the printing')
            return ('und', 'it decides a write to ' + self.objname(r))
        if i.op in ('call', 'invoke'):
            c = i.get('cdem') or i.get('callee') or ''
            if PRINT.match(c) or PRINT.match(base(c)):
                return None
            if MEMW.match(c):
                rs = self.roots(i.ops[0])
                if all(self.local(r) for r in rs):
                    return None
                return ('und', 'it decides a block write')
            if READ.match(c) or READ.match(base(c)):
                return None
            if not c:
                return ('und', 'indirect call')
            foreign = [o for o in i.ops if f.isptr(o) and not all(self.local(r) or r[0] == 'null' for r in self.roots(o))
                       and not (o.startswith('g') and (re.match(r'go?:(\.str|_ZT)', o) or self.constglobal(o)))]
            if not foreign:
                return None
            m = mutates(i, c)
            if m is True:
                return ('bad', 'it decides whether %s is called' % base(c))
            if m is False:
                return None
            return ('und', 'it decides whether %s is called' % base(c))
        return None

    def constglobal(self, o):
        n = o[2:] if o.startswith('g:') else o[3:].rsplit(':', 1)[0]
        g = self.prog_globals.get(n) if hasattr(self, 'prog_globals') else None
        return bool(g and g.get('const'))

    def read_outside(self, v):
        for u in self.alluses(v):
            if u.blk in self.inreg or self.harmless(u):
                continue
            if u.op == 'store' and u.ops[0] != v:
                continue
            if u.op == 'load' and self.printed_only(u.id):
                continue
            c = u.get('cdem') or ''
            if u.op in ('call', 'invoke') and re.match(r'gettimeofday|clock_gettime|std::chrono', c):
                continue
            return True
        return False

    def printed_only(self, v):
        wl, seen = [v], {v}
        while wl:
            for u in self.users.get(wl.pop(), []):
                if u.blk in self.inreg or u.id in seen:
                    continue
                c = u.get('cdem') or ''
                if u.op in ('call', 'invoke'):
                    if not (PRINT.match(c) or PRINT.match(base(c))):
                        if not READ.match(c):
                            return False
                    else:
                        continue
                elif u.op == 'store':
                    rs = self.roots(u.ops[1])
                    if not all(r[0] == 'alloca' for r in rs):
                        return False
                    for r in rs:
                        if r[1] not in seen:
                            seen.add(r[1])
                            for x in self.alluses(r[1]):
                                if x.op == 'load' and x.id not in seen:
                                    seen.add(x.id)
                                    wl.append(x.id)
                    continue
                elif u.op in ('br', 'switch', 'ret', 'load', 'getelementptr'):
                    return False
                seen.add(u.id)
                wl.append(u.id)
        return True
