"""What an earlier factorization may leave behind in a preconditioner object."""
import re
import events, entry
from ir import Lin, Undecided
from entry import ESF, member, tname, field_off, core

LIST = re.compile(r'std::(?:__cxx11::)?(?:list|_List_base)<hif::Prec<.*>>::(\w+=?)\(')
READ = {'empty', 'size', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'back', 'front', 'get_allocator', 'max_size'}
INF = float('inf')


class HSF(ESF):
    def error_branch(self):
        return self.error_branch_undecided()


def kcalls(sf):
    return [c for c in events.calls(sf, {}, lambda nm: core(nm) == '_factorize_kernel')]


def avoid(sf, start, stops, goal):
    """a path from the start block to the goal block that enters no block of `stops` (block granularity)"""
    if start in stops:
        return None
    par, st = {start: None}, [start]
    while st:
        b = st.pop()
        if b == goal:
            r = []
            while b is not None:
                r.append(b)
                b = par[b]
            return r[::-1]
        for s in sf.succ[b]:
            if s not in par and s not in stops:
                par[s] = b
                st.append(s)
    return None


def before(sf, evs, k):
    """every path to the instruction k executes one of the instructions evs; else the avoiding path"""
    bl = {}
    for e in evs:
        bl.setdefault(e.blk, []).append(e)
    if k.blk in bl and any(e.idx < k.idx for e in bl[k.blk]):
        return None
    return avoid(sf, sf.entry, set(bl) - {k.blk}, k.blk)


def list_ops(sf, P):
    """operations on the list of levels, first argument or swap partner"""
    out = []
    for b in sf.rpo():
        for i in sf.blocks[b]:
            if i.op not in ('call', 'invoke'):
                continue
            m = LIST.search(i.get('cdem') or '')
            if not m:
                continue
            for o in i.ops:
                try:
                    if sf.isptr(o) and sf.addr(o) == (('arg', 0), Lin(P)):
                        out.append((m.group(1), i))
                        break
                except Undecided:
                    pass
    return out


def work_ops(sf, W):
    """(kind, instruction) of what changes the size of an array member: 0 or an unknown"""
    out = []
    for b in sf.rpo():
        for i in sf.blocks[b]:
            if i.op in ('call', 'invoke') and re.search(r'hif::Array<.*>::(resize|clear|swap|operator=)\(', i.get('cdem') or ''):
                for k, o in enumerate(i.ops):
                    try:
                        if not sf.isptr(o) or sf.addr(o) != (('arg', 0), Lin(W)):
                            continue
                    except Undecided:
                        continue
                    if re.search(r'::resize\(', i.get('cdem')) and k == 0:
                        try:
                            n = sf.lin(i.ops[1])
                        except Undecided:
                            n = None
                        out.append(('empty' if n == Lin(0) else 'other', i))
                    else:
                        out.append(('other', i))
            elif i.op == 'store':
                try:
                    if sf.addr(i.ops[1]) == (('arg', 0), Lin(W + 8)):
                        out.append(('empty' if sf.lin(i.ops[0]) == Lin(0) else 'other', i))
                except Undecided:
                    pass
    return out


def stats_stores(sf, S, nent=6):
    """per statistics entry the instructions that zero it; covering loops count as their header block's first instruction"""
    from kernel import Kernel
    z = {k: [] for k in range(nent)}
    other = []
    kk = Kernel(sf, lambda m: 8, lambda m: 1, lambda m: False)
    for b in sf.rpo():
        for i in sf.blocks[b]:
            if i.op in ('call', 'invoke') and re.match(r'llvm\.memset', i.get('callee') or ''):
                try:
                    r, o = sf.addr(i.ops[0])
                    n = sf.lin(i.ops[2])
                    v = sf.lin(i.ops[1])
                except Undecided:
                    continue
                if r == ('arg', 0) and o.is_const() and n.is_const() and v == Lin(0):
                    for e in range(nent):
                        if o.c <= S + 8 * e and S + 8 * e + 8 <= o.c + n.c:
                            z[e].append(i)
            if i.op in ('call', 'invoke') and re.search(r'std::(fill|fill_n|__fill\w*)<', i.get('cdem') or ''):
                other.append(i)
            if i.op != 'store':
                continue
            try:
                r, o = sf.addr(i.ops[1])
            except Undecided:
                continue
            if r != ('arg', 0):
                continue
            try:
                v = sf.lin(i.ops[0])
            except Undecided:
                v = None
            if o.is_const():
                if S <= o.c < S + 8 * nent:
                    e = (o.c - S) // 8
                    (z[e].append(i) if v == Lin(0) else other.append(i))
                continue
            ch = sf.loop_chain(b)
            its = [a for a in o.t if a[0] == 'it']
            if len(ch) != 1 or len(its) != 1 or len(o.t) != 1 or v != Lin(0):
                if any(a[0] == 'it' for a in o.t):
                    other.append(i)
                continue
            try:
                lo = kk.loops_of(b)
            except Undecided:
                other.append(i)
                continue
            n = lo[0][1]
            n = n if isinstance(n, Lin) else Lin(n)
            st = o.t[its[0]]
            if not n.is_const() or st not in (8, -8):
                other.append(i)
                continue
            for t in range(int(n.c)):
                a = o.c + st * t
                if S <= a < S + 8 * nent and (a - S) % 8 == 0:
                    z[(a - S) // 8].append(i)
    return z, other


def where(sf, path):
    for b in reversed(path):
        for i in sf.blocks[b]:
            if i.loc and i.loc != '?':
                return i.loc
    return sf.dem.split('(')[0]


def factorize_rules(rep, f, solvers):
    """f: factorize instance; solvers: solve/mmultiply instances of the same scalar type"""
    what = '%s<%s>' % (member(f), tname(f))
    P, W, S = field_off(f, 0, '_precs'), field_off(f, 0, '_prec_work'), field_off(f, 0, '_stats')
    NR, NC = field_off(f, 0, '_nrows'), field_off(f, 0, '_ncols')
    sf = ESF(f, {}, [])
    ks = kcalls(sf)
    if not ks:
        rep.bad('levels', what, 'no path reaches the factorization', f.dem.split('(')[0])
        return 0
    # levels
    ops = [(m, i) for m, i in list_ops(sf, P) if m not in READ]
    clr = [i for m, i in ops if m == 'clear']
    for n, c in enumerate(ks):
        w = '%s, factorization call %d' % (what, n + 1)
        p = before(sf, clr, c.ins)
        if p is None:
            rep.ok('levels', w, 'cleared on every path when levels exist')
        elif any(m != 'clear' for m, i in ops):
            rep.und('levels', w, 'the list is changed by %s' % sorted({m for m, i in ops}))
        elif before(sf, clr, c.ins) and not clr:
            rep.bad('levels', w, 'the levels of the previous factorization are never removed', c.ins.loc)
        else:
            rep.bad('levels', w, 'a path on which levels exist reaches the factorization without removing them', where(sf, p))
    # workspace
    wo = work_ops(sf, W)
    rel = [i for k, i in wo if k == 'empty']
    for n, c in enumerate(ks):
        w = '%s, factorization call %d' % (what, n + 1)
        if before(sf, rel, c.ins) is None:
            rep.ok('workspace', w, 'emptied on every path when levels exist')
            continue
        if any(k == 'other' for k, i in wo):
            rep.und('workspace', w, 'the workspace is changed in another way')
            continue
        bad = und = None
        for g in solvers:
            r = enlarges(g)
            if r is False:
                bad = g
            elif r is None:
                und = g
        if bad is not None:
            rep.bad('workspace', w, 'the workspace of the previous factorization is kept and %s does not enlarge it' % member(bad), c.ins.loc)
        elif und is not None:
            rep.und('workspace', w, 'kept; growth in %s not decided' % member(und))
        else:
            rep.ok('workspace', w, 'kept, every operation enlarges it when it is too small')
    # statistics
    z, other = stats_stores(sf, S)
    for n, c in enumerate(ks):
        w = '%s, factorization call %d' % (what, n + 1)
        miss = []
        for e in sorted(z):
            ev = [i for i in z[e]]
            # a covering loop: stepping over its blocks is the only way around; judge by its header
            pts = []
            for i in ev:
                ch = sf.loop_chain(i.blk)
                pts.append(sf.blocks[sf.loops[ch[0]]['header']][0] if ch else i)
            if before(sf, pts, c.ins) is not None:
                miss.append(e)
        if not miss:
            rep.ok('statistics', w, 'all %d entries zeroed' % len(z))
        elif other:
            rep.und('statistics', w, 'entries %s set in another way' % miss)
        else:
            rep.bad('statistics', w, 'statistics %s keep the values of the previous factorization' % miss, c.ins.loc)
    # dimensions
    primary = '_ncols' if member(f).endswith('_ccs') else '_nrows'
    for nm, off, src in (('_nrows', NR, '_nrows'), ('_ncols', NC, '_ncols')):
        st = []
        vals = set()
        for b in sf.rpo():
            for i in sf.blocks[b]:
                if i.op == 'store':
                    try:
                        if sf.addr(i.ops[1]) == (('arg', 0), Lin(off)):
                            st.append(i)
                            d = dimname(sf, i)
                            vals.add(primary if d == '_psize' else d)
                    except Undecided:
                        pass
        for n, c in enumerate(ks):
            w = '%s, %s, factorization call %d' % (what, nm, n + 1)
            if not st or before(sf, st, c.ins) is not None:
                # may be set afterwards
                if st and after(sf, st, c.ins):
                    rep.ok('dimensions', w, 'set after the factorization')
                else:
                    rep.bad('dimensions', w, 'keeps the dimension of the previous matrix', c.ins.loc)
            elif vals == {src}:
                rep.ok('dimensions', w, 'set from the matrix given')
            elif vals <= {'_nrows', '_ncols'}:
                rep.bad('dimensions', w, 'is set from %s of the matrix' % sorted(vals), st[0].loc)
            else:
                rep.und('dimensions', w, 'value %s' % sorted(map(str, vals)))
    return len(ks)


def after(sf, st, k):
    """every returning path from k executes one of st"""
    live = sf.returning()
    stops = {i.blk for i in st}
    seen, todo = set(), list(sf.succ[k.blk])
    while todo:
        b = todo.pop()
        if b in seen or b in stops or b not in live:
            continue
        seen.add(b)
        if sf.blocks[b] and sf.blocks[b][-1].op == 'ret':
            return False
        todo.extend(sf.succ[b])
    return True


def dimname(sf, i):
    """which dimension of the matrix parameter a stored value is"""
    try:
        l = sf.lin(i.ops[0])
    except Undecided:
        return None
    if len(l.t) != 1 or l.c:
        return repr(l)
    a = list(l.t)[0]
    if a[0] == 'ld' and a[1] == ('arg', 1):
        from ir import untup
        n = sf.field_of(a[1], untup(a[2]).c) or ''
        return n.split('.')[-1]
    n = sf.aname(a) or repr(l)
    return n.split('.')[-1]


def enlarges(g):
    """solve-like operation: with a non-empty but too small workspace, does every path enlarge it before the recursion"""
    W = field_off(g, 0, '_prec_work')
    sf = ESF(g, {}, entry.good() + [({'m._prec_work._size': 1}, 1, INF), ({'nw': 1}, 1, INF), ({'m._prec_work._size': 1, 'nw': -1}, -INF, -1)])
    cs = entry.corecalls(sf)
    if not cs:
        return None
    rs = [i for k, i in work_ops(sf, W)]
    for c in cs:
        if before(sf, rs, c.ins) is not None:
            return False if not rs else None
    return True


def clear_rules(rep, f, solvers=()):
    what = 'clear<%s>' % tname(f)
    sf = ESF(f, {}, [])
    P, W = field_off(f, 0, '_precs'), field_off(f, 0, '_prec_work')
    rets = [b[-1] for b in sf.blocks.values() if b and b[-1].op == 'ret']
    ops = [(m, i) for m, i in list_ops(sf, P) if m not in READ]
    clr = [i for m, i in ops if m == 'clear']
    for r in rets:
        if before(sf, clr, r) is None:
            rep.ok('clear', what + ', levels', 'removed')
        elif any(m != 'clear' for m, i in ops):
            rep.und('clear', what + ', levels', 'changed by %s' % sorted({m for m, i in ops}))
        else:
            rep.bad('clear', what + ', levels', 'levels stay in the object', f.dem.split('(')[0])
        wo = work_ops(sf, W)
        rel = [i for k, i in wo if k == 'empty']
        if before(sf, rel, r) is None:
            rep.ok('clear', what + ', workspace', 'emptied')
        elif any(k == 'other' for k, i in wo):
            rep.und('clear', what + ', workspace', 'changed in another way')
        elif solvers and all(enlarges(g) for g in solvers):
            rep.ok('clear', what + ', workspace', 'kept, every operation enlarges it when it is too small')
        else:
            rep.bad('clear', what + ', workspace', 'the workspace keeps the size of the previous preconditioner', f.dem.split('(')[0])
        for nm in ('nsp', 'nsp_tran'):
            off = field_off(f, 0, nm)
            st = []
            for b in sf.rpo():
                for i in sf.blocks[b]:
                    if i.op == 'store':
                        try:
                            if sf.addr(i.ops[1]) == (('arg', 0), Lin(off)):
                                st.append(i)
                        except Undecided:
                            pass
            if before(sf, [i for i in st if i.ops[0] == 'null' or sf.lin(i.ops[0]) == Lin(0)], r) is None:
                rep.ok('clear', '%s, %s' % (what, nm), 'reset')
            elif st:
                rep.und('clear', '%s, %s' % (what, nm), 'another value is stored')
            else:
                rep.bad('clear', '%s, %s' % (what, nm), 'the null-space filter stays attached', f.dem.split('(')[0])
    return len(rets)


def empty_rule(rep, f):
    """empty() is the emptiness of the list of levels"""
    what = 'empty<%s>' % tname(f)
    P = field_off(f, 0, '_precs')
    for e in (True, False):
        sf = ESF(f, {}, [], empty=e)
        vals = set()
        for b in sf.returning():
            i = sf.blocks[b][-1]
            if i.op == 'ret':
                vals.add(sf.truth(i.ops[0]))
        w = what + (', no level' if e else ', levels')
        ops = list_ops(sf, P)
        if vals == {e}:
            rep.ok('empty', w, str(e))
        elif vals == {not e}:
            rep.bad('empty', w, 'reports %s' % (not e), f.dem.split('(')[0])
        elif not ops:
            rep.bad('empty', w, 'does not look at the levels', f.dem.split('(')[0])
        else:
            rep.und('empty', w, 'value %s' % vals)


def failure_rule(rep, f):
    """exceptional edges kept: an exception that leaves the factorization passes the removal of the levels"""
    what = '%s<%s>' % (member(f), tname(f))
    P = field_off(f, 0, '_precs')
    n = 0
    ops = [(m, i) for m, i in list_ops_all(f, P) if m not in READ]
    clr = {i.blk for m, i in ops if m == 'clear'}
    oth = {i.blk for m, i in ops if m != 'clear'}
    for b, ii in f.blocks.items():
        for i in ii:
            if i.op not in ('call', 'invoke') or core(i.get('cdem') or '') != '_factorize_kernel':
                continue
            n += 1
            w = '%s, factorization call %d' % (what, n)
            if i.op == 'call':
                rep.bad('failure', w, 'an exception leaves the function with the levels built so far in the object', i.loc)
                continue
            leak = False
            seen, st = set(), [i.get('unwind')]
            hit_o = False
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in clr:
                    continue
                if x in oth:
                    hit_o = True
                    continue
                t = f.blocks[x][-1]
                if t.op == 'resume' or not f.succ[x] and any(re.search(r'rethrow|__cxa_throw', y.get('cdem') or y.get('callee') or '') for y in f.blocks[x]):
                    leak = True
                if t.op == 'ret':
                    leak = True
                st.extend(f.succ[x])
            if not leak:
                (rep.und if hit_o else rep.ok)('failure', w, 'levels removed before the exception leaves')
            elif any(x in clr or x in oth for x in reach(f, i.get('unwind'))):
                rep.und('failure', w, 'some exceptional path does not pass the removal')
            else:
                rep.bad('failure', w, 'an exception leaves the function with the levels built so far in the object', i.loc)
    return n


def reach(f, b):
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(f.succ[x])
    return seen


def list_ops_all(f, P):
    out = []
    for b, ii in f.blocks.items():
        for i in ii:
            if i.op in ('call', 'invoke'):
                m = LIST.search(i.get('cdem') or '')
                if not m:
                    continue
                for o in i.ops:
                    try:
                        if f.isptr(o) and f.addr(o) == (('arg', 0), Lin(P)):
                            out.append((m.group(1), i))
                            break
                    except Undecided:
                        pass
    return out
