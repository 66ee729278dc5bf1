"""Entry operations of the preconditioner object: rejection of bad calls, workspace, dispatch to the level recursion."""
import re
import events
from ir import Lin, Undecided, untup
from spec import SFunc, NORET

INF = float('inf')
CORE = re.compile(r'(?:^|[ :])hif::(prec_solve_mrhs|prec_solve_tran|prec_solve|prec_prod_tran|prec_prod)<|IterRefine<.*>::(iter_refine)<|::(_factorize_kernel)<')


PREC_N = {}


def load(p):
    for f in p.find(r'^Entry<.*::prec_n\('):
        r = [i for b in f.blocks.values() for i in b if i.op == 'ret'][0]
        a = [x for x in f.lin(r.ops[0]).t][0]
        PREC_N[tname(f)] = untup(a[2]).c
    return [f for f in p.find(r'^Entry<') if '::prec_n(' not in f.dem]


def core(nm):
    m = CORE.search(nm)
    if not m or nm.startswith('std::') and 'iter_refine' not in nm:
        return None
    return m.group(1) or m.group(2) or m.group(3)


def is_list(nm, meth):
    return re.match(r'.*std::(__cxx11::)?list<hif::Prec<.*>::%s\(\)' % meth, nm or '')


class ESF(SFunc):
    """specialised entry function; N stands for the order of the factorized matrix, `lv` for the number of levels"""

    def __init__(self, f, env=None, facts=(), empty=False):
        self.isempty = empty
        facts = list(facts) + [({'lv': 1}, 0, 0) if empty else ({'lv': 1}, 1, INF)]
        env = dict(env or {})
        env.setdefault('\0', 0)
        SFunc.__init__(self, f, env, facts, truth=ESF.tf)

    def tf(self, i):
        if i.op == 'call' and is_list(i.get('cdem'), 'empty'):
            return self.isempty
        return None

    def prec_n(self):
        """byte offset of the order in a level record"""
        return PREC_N[re.match(r'Entry<(.*), \w+, \w+>::', self.dem).group(1)]

    def aname(self, a):
        if a[0] == 'ld' and a[1][0] == 'call':
            i = self.ins.get(a[1][1])
            off = untup(a[2])
            if i is not None and off.is_const():
                if is_list(i.get('cdem'), 'front') and off.c == self.prec_n():
                    return 'N'
                if re.search(r'list<hif::Prec<.*>::c?begin\(\)', i.get('cdem') or '') and off.c == self.prec_n() + 16:
                    return 'N'
        if a[0] in ('v', 'call') and len(a) == 2 and a[1] in self.ins and is_list(self.ins[a[1]].get('cdem'), 'size'):
            return 'lv'
        if a[0] in ('v', 'call') and len(a) == 2 and a[1] in self.ins and 'compute_prec_work_space' in (self.ins[a[1]].get('cdem') or ''):
            return 'nw'
        n = SFunc.aname(self, a)
        if n in ('m._nrows', 'm._ncols'):
            return 'N'
        return n

    def error_branch_undecided(self):
        """a live conditional branch, not decided by the scenario, that leads to an error on one side"""
        live = self.returning()
        for b in live:
            s = self.succ[b]
            if len(set(s)) > 1 and any(x not in live for x in s):
                return True
        return False


def scens(vec_b='b', vec_x='x'):
    eq = [({vec_b + '._size': 1, vec_x + '._size': -1}, 0, 0)]
    return [('empty preconditioner', True, []),
            ('solution longer than right-hand side', False, [({vec_b + '._size': 1, vec_x + '._size': -1}, -INF, -1)]),
            ('solution shorter than right-hand side', False, [({vec_b + '._size': 1, vec_x + '._size': -1}, 1, INF)]),
            ('vectors shorter than the matrix', False, eq + [({vec_b + '._size': 1, 'N': -1}, -INF, -1), ({vec_x + '._size': 1, 'N': -1}, -INF, -1)]),
            ('vectors longer than the matrix', False, eq + [({vec_b + '._size': 1, 'N': -1}, 1, INF), ({vec_x + '._size': 1, 'N': -1}, 1, INF)])]


def good():
    return [({'b._size': 1, 'x._size': -1}, 0, 0), ({'b._size': 1, 'N': -1}, 0, 0), ({'x._size': 1, 'N': -1}, 0, 0)]


def member(f):
    return re.search(r'::(\w+)\(', f.dem).group(1)


def tname(f):
    return re.match(r'Entry<(.*), \w+, \w+>::', f.dem).group(1)


def touches(sf):
    """first construct on a live block that works before the rejection: core call, resize or store outside locals"""
    for b in sf.rpo():
        for i in sf.blocks[b]:
            nm = i.get('cdem') or ''
            if i.op in ('call', 'invoke') and (core(nm) or re.search(r'hif::Array<.*>::resize\(|NspFilter::filter', nm)):
                return i, nm.split('(')[0]
            if i.op == 'store':
                try:
                    r, off = sf.addr(i.ops[1])
                except Undecided:
                    continue
                if r[0] == 'arg' or r[0] == 'ld' and r[1][0] == 'arg':
                    return i, 'a store'
    return None


def rejects(rep, rule, f):
    n = 0
    what0 = '%s<%s>' % (member(f), tname(f))
    for sc, empty, facts in scens():
        n += 1
        for N in ({'trans': 0}, {'trans': 1}):
            env = {k: v for k, v in N.items() if any((a.get('var') or a['name']) == k for a in f.args)}
            if N['trans'] and not env:
                continue
            what = '%s, %s%s' % (what0, sc, ', transposed' if env.get('trans') else '')
            sf = ESF(f, env, facts, empty)
            if sf.entry in sf.returning():
                if sf.error_branch_undecided():
                    rep.und(rule, what, 'a check that may reject this case is not decided')
                    continue
                t = touches(sf)
                rep.bad(rule, what, 'the call is not rejected' + (': it reaches %s' % t[1] if t else ''), f.dem.split('(')[0])
                continue
            t = touches(sf)
            if t:
                rep.bad(rule, what, 'work is done before the call is rejected: %s' % t[1], t[0].loc)
            else:
                rep.ok(rule, what, 'error before any work')
    return n


def corecalls(sf):
    return [c for c in events.calls(sf, {}, lambda nm: bool(core(nm)))]


def argname(a):
    """parameter an argument stands for"""
    if a.kind == 'mem' and a.off is not None:
        return '%s+%r' % (a.name, a.off)
    if a.kind == 'int':
        return repr(a.v)
    return repr(a)


ROUTE = {  # member -> {trans: (routine, args as params)}
    'solve': {0: ('prec_solve', ['P', 'b', 'r', 'x', 'W']), 1: ('prec_solve_tran', ['P', 'b', 'r', 'x', 'W'])},
    'mmultiply': {0: ('prec_prod', ['P', 'b', 'r', 'x', 'W']), 1: ('prec_prod_tran', ['P', 'b', 'r', 'x', 'W'])},
    'solve_mrhs': {0: ('prec_solve_mrhs', ['P', 'b', 'r', 'x', '*'])},
}
for _k, _a in (('hifir', ['I', 'm', 'A', 'b', 'N', 'x', 'r', 'trans']), ('hifir_b', ['I', 'm', 'A', 'b', 'N', 'betas', 'x', 'r', 'trans'])):
    for _c in ('', '_ccs'):
        _n = _k.replace('hifir', 'hifir' + _c)
        ROUTE[_n] = {0: ('iter_refine', _a), 1: ('iter_refine', _a)}


def field_off(f, argi, path):
    """byte offset of a (first-level) member of the object parameter"""
    t = f.types.pointee(f.args[argi]['dty'])

    def go(t):
        for e in t.get('el', []):
            m = f.types.l[e]
            if m['tag'] == 'DW_TAG_member' and m.get('name') == path:
                return m['off']
            if m['tag'] == 'DW_TAG_inheritance':
                b = f.types.strip(m['base'])
                r = go(b) if b else None
                if r is not None:
                    return r + m['off']
        return None
    return go(t)


def dispatch(rep, rule, f, trans):
    mem = member(f)
    rt, want = ROUTE[mem][trans]
    what = '%s<%s>%s' % (mem, tname(f), ', transposed' if trans else '')
    prm = [(a.get('var') or a['name']) for a in f.args]
    env = {'trans': trans} if 'trans' in prm else {}
    sf = ESF(f, env, good())
    if sf.entry not in sf.returning():
        rep.bad(rule, what, 'a valid call is rejected', f.dem.split('(')[0])
        return
    cs = corecalls(sf)
    if not cs:
        rep.bad(rule, what, 'no path reaches %s' % rt, f.dem.split('(')[0])
        return
    names = {core(c.name) for c in cs}
    if len(cs) != 1:
        if names != {rt}:
            und = any(len(set(sf.succ[b])) > 1 for b in sf.returning())
            (rep.und if und else rep.bad)(rule, what, 'reaches %s' % sorted(names))
        else:
            rep.und(rule, what, '%d calls of %s' % (len(cs), rt))
        return
    c = cs[0]
    if names != {rt}:
        rep.bad(rule, what, 'dispatches to %s instead of %s' % (core(c.name), rt), c.ins.loc)
        return
    W, P, I = field_off(f, 0, '_prec_work'), field_off(f, 0, '_precs'), field_off(f, 0, '_ir')
    pos = {p: k for k, p in enumerate(prm)}
    bad = und = None
    for k, (w, a) in enumerate(zip(want, c.args)):
        p = 'argument %d of %s' % (k + 1, rt)
        if w == '*':
            continue
        if w == 'P':
            i = sf.ins.get(a.v[1]) if a.kind == 'mem' and a.v[0] == 'call' else None
            nm = (i.get('cdem') or '') if i is not None else ''
            if not re.search(r'list<.*>::c?begin\(\)', nm):
                if re.search(r'list<.*>::c?(end|rbegin|rend)\(\)', nm):
                    bad = '%s is not the first level' % p
                else:
                    und = '%s: %r' % (p, a)
            continue
        if w in ('W', 'I'):
            off = W if w == 'W' else I
            if a.kind != 'mem':
                und = '%s: %r' % (p, a)
            elif a.v != ('arg', 0) or a.off != Lin(off):
                bad = '%s is %r' % (p, a)
            continue
        if w == 'm' or f.args[pos[w]].get('ty') == 'ptr':
            if a.kind != 'mem':
                und = '%s: %r' % (p, a)
            elif a.v != ('arg', pos[w]) or a.off != Lin(0):
                bad = '%s is %r instead of %s' % (p, a, w)
            continue
        if a.kind != 'int':
            und = '%s: %r' % (p, a)
            continue
        exp = Lin(env[w]) if w in env else Lin.atom(('arg', pos[w]))
        v = a.v
        if w in env and v == Lin.atom(('arg', pos[w])):
            v = exp
        if w in env and v.is_const():
            v = Lin(1 if v.c else 0)
        if v != exp:
            if v.is_const() or all(x[0] == 'arg' for x in v.t):
                bad = '%s is %r instead of %s' % (p, a, w)
            else:
                und = '%s: %r' % (p, a)
    if bad:
        rep.bad(rule, what, bad, c.ins.loc)
    elif und:
        rep.und(rule, what, und)
    else:
        if any(b not in sf.returning() for b in [c.ins.blk]):
            rep.und(rule, what, 'the call is not on a returning path')
        else:
            rep.ok(rule, what, '%s(%s)' % (rt, ', '.join(want)))


def filters(rep, rule, f, trans):
    """null-space filters: the one of the side solved for, on the solution, after the solve; none when unset"""
    what0 = '%s<%s>%s' % (member(f), tname(f), ', transposed' if trans else '')
    n = 0
    for nsp in (0, 1):
        for nspt in (0, 1):
            n += 1
            sf = ESF(f, {'trans': trans, 'm.nsp._M_ptr': nsp, 'm.nsp_tran._M_ptr': nspt}, good())
            what = what0 + ', filter%s %s, transposed filter %s' % ('', 'set' if nsp else 'unset', 'set' if nspt else 'unset')
            cs = [c for c in events.calls(sf, {}, lambda nm: 'NspFilter::filter' in nm)]
            on = nspt if trans else nsp
            field = 'm.nsp_tran._M_ptr' if trans else 'm.nsp._M_ptr'
            if not on:
                if cs:
                    if any(len(set(sf.succ[b])) > 1 for b in sf.returning()):
                        rep.und(rule, what, 'branch not decided')
                    else:
                        rep.bad(rule, what, 'a filter is applied although the filter of this side is not set', cs[0].ins.loc)
                else:
                    rep.ok(rule, what, 'no filter')
                continue
            if not cs:
                rep.bad(rule, what, 'the filter of this side is not applied', f.dem.split('(')[0])
                continue
            c = cs[0]
            cc = corecalls(sf)
            a = c.args
            if len(cs) > 1:
                rep.und(rule, what, 'several filter calls')
            elif a[0].kind == 'mem' and a[0].name != field:
                rep.bad(rule, what, 'the filter applied is %s' % a[0].name, c.ins.loc)
            elif a[1].kind == 'mem' and a[1].name != 'x._data':
                rep.bad(rule, what, 'the filter is applied to %s' % a[1].name, c.ins.loc)
            elif cc and not sf.idominates(cc[0].ins, c.ins):
                rep.bad(rule, what, 'the filter is applied before the solve', c.ins.loc)
            elif a[2].kind == 'int' and sf.named(a[2].v) not in ({'x._size': 1}, {'b._size': 1}, {'N': 1}):
                (rep.bad if a[2].v.is_const() else rep.und)(rule, what, 'the filter is applied to %r entries' % a[2])
            elif a[0].kind != 'mem' or a[1].kind != 'mem' or a[2].kind != 'int':
                rep.und(rule, what, 'arguments of the filter')
            else:
                rep.ok(rule, what, field)
    return n


def workspace(rep, rule, rule2, f):
    """the workspace has the size the recursion needs and a failed allocation is reported before it is used"""
    mem = member(f)
    what = '%s<%s>' % (mem, tname(f))
    W = field_off(f, 0, '_prec_work')
    prm = [(a.get('var') or a['name']) for a in f.args]
    cols = 3 if mem == 'solve_mrhs' else 1
    for tr in ((0, 1) if 'trans' in prm else (0,)):
        w1 = what + (', transposed' if tr else '')
        sf = ESF(f, {'trans': tr} if 'trans' in prm else {}, good() + [({'m._prec_work._size': 1}, 0, 0)])
        cs = corecalls(sf)
        if len(cs) != 1:
            rep.und(rule, w1, '%d core calls' % len(cs))
            continue
        rs = [c for c in events.calls(sf, {}, lambda nm: re.search(r'hif::Array<.*>::resize\(', nm))]
        rs = [c for c in rs if c.args[0].kind == 'mem' and c.args[0].v == ('arg', 0) and c.args[0].off == Lin(W)]
        if not rs:
            rep.bad(rule, w1, 'the empty workspace is not allocated before the recursion uses it', cs[0].ins.loc)
            continue
        good_ = None
        for c in rs:
            # an edge decided only by comparing against the required size counts as dominating
            if sf.idominates(c.ins, cs[0].ins) or sf.reaches(c.ins, cs[0].ins):
                good_ = c
        if good_ is None:
            rep.bad(rule, w1, 'the workspace is allocated only after the recursion', cs[0].ins.loc)
            continue
        a = good_.args[1]
        need = None
        if a.kind == 'int':
            t = [x for x in a.v.t if x[0] in ('v', 'call') and len(x) == 2 and 'compute_prec_work_space' in (sf.ins[x[1]].get('cdem') or '')]
            if len(t) == 1:
                need = a.v.t[t[0]]
                rest = a.v - Lin.atom(t[0]).scale(need)
                if need < cols or rest.is_const() and rest.c < 0:
                    rep.bad(rule, w1, 'the workspace gets %r entries, %d times the sum of the level sizes is needed' % (a.v, cols), good_.ins.loc)
                    continue
                q = sf.ins[t[0][1]]
                ends = [sf.ins[o].get('cdem') or '' for o in q.ops[:2] if o in sf.ins]
                if len(ends) == 2 and not (re.search(r'::c?begin\(\)', ends[0]) and re.search(r'::c?end\(\)', ends[1])):
                    rep.bad(rule, w1, 'the size is computed over another range than all levels', q.loc)
                    continue
        if need is None:
            rep.und(rule, w1, 'size %r' % a)
        elif cols == 1 and not sf.idominates(good_.ins, cs[0].ins):
            rep.und(rule, w1, 'allocation is conditional')
        else:
            rep.ok(rule, w1, 'size %d x compute_prec_work_space(all levels)' % need)
        if cols > 1:
            # a workspace left by an earlier call with fewer columns
            w2 = w1 + ', smaller workspace left by an earlier call'
            s2 = ESF(f, {}, good() + [({'m._prec_work._size': 1}, 1, INF), ({'nw': 1}, 1, INF), ({'m._prec_work._size': 1, 'nw': -cols}, -INF, -1)])
            c2 = corecalls(s2)
            r2 = [c for c in events.calls(s2, {}, lambda nm: re.search(r'hif::Array<.*>::resize\(', nm))]
            r2 = [c for c in r2 if c.args[0].kind == 'mem' and c.args[0].v == ('arg', 0) and c.args[0].off == Lin(W)]
            if len(c2) != 1:
                rep.und(rule, w2, '%d core calls' % len(c2))
            elif not r2:
                rep.bad(rule, w2, 'the workspace is not enlarged', c2[0].ins.loc)
            elif any(s2.idominates(c.ins, c2[0].ins) for c in r2):
                rep.ok(rule, w2, 'enlarged before the recursion')
            else:
                # the resize is conditional on a comparison the scenario does not decide
                t = min_need(s2, r2[0].ins)
                if t is not None:
                    rep.bad(rule, w2, 'the workspace is enlarged only when %s' % t, r2[0].ins.loc)
                else:
                    rep.und(rule, w2, 'allocation is conditional')
        checked = alloc_checked(sf, good_.ins, ('arg', 0), W, cs[0].ins)
        if checked is False:
            rep.bad(rule2, w1, 'the result of allocating the workspace is not examined before it is used', good_.ins.loc)
        elif checked is None:
            rep.und(rule2, w1, 'check not recognised')
        else:
            rep.ok(rule2, w1, 'failure leads to an error')


def tests_field(sf, name):
    """a live, undecided branch with an error side examines the field"""
    live = sf.returning()
    for b in live:
        if len(set(sf.succ[b])) > 1 and any(x not in live for x in sf.succ[b]):
            seen, st = set(), [sf.blocks[b][-1].ops[0]]
            while st:
                o = st.pop()
                if o in seen or o not in sf.ins:
                    continue
                seen.add(o)
                i = sf.ins[o]
                if i.op == 'load':
                    try:
                        r, off = sf.addr(i.ops[0])
                    except Undecided:
                        continue
                    if r[0] == 'arg' and off.is_const() and name in (sf.field_of(r, off.c) or ''):
                        return True
                    continue
                st.extend(i.ops)
    return False


def min_need(sf, ins):
    """text of an undecided comparison of the workspace size that controls the instruction"""
    live = sf.returning()
    for b in sf.rpo():
        sc = sf.succ[b]
        if b not in live or len(set(sc)) < 2 or not all(x in live for x in sc):
            continue
        t = sf.blocks[b][-1]
        c = sf.ins.get(t.ops[0])
        if c is None or c.op != 'icmp':
            continue
        try:
            d = sf.named(sf.lin(c.ops[0]) - sf.lin(c.ops[1]))
        except Undecided:
            continue
        if set(d) <= {'m._prec_work._size', 'nw', 1} and 'm._prec_work._size' in d and sf.idominates(t, ins):
            return 'size %+d*need %s' % (d.get('nw', 0), c.get('pred'))
    return None


def alloc_checked(sf, resize, root, base, use):
    """True: a branch on a field of the array read after the resize leads to an error; False: none"""
    live = sf.returning()
    found = False
    for b in sf.rpo():
        s = sf.succ[b]
        if b not in live or len(set(s)) < 2 or all(x in live for x in s):
            continue
        t = sf.blocks[b][-1]
        seen, st = set(), [t.ops[0]]
        while st:
            o = st.pop()
            if o in seen or o not in sf.ins:
                continue
            seen.add(o)
            i = sf.ins[o]
            if i.op == 'load':
                try:
                    r, off = sf.addr(i.ops[0])
                except Undecided:
                    continue
                if r == root and off.is_const() and base <= off.c < base + 40 and sf.reaches(resize, i):
                    found = True
                continue
            if i.op == 'call' and re.search(r'Array<.*>::(status|empty|size|data)\(\)', i.get('cdem') or ''):
                found = True
            st.extend(i.ops)
    return found


def program(w):
    import os, vt
    bc = w.lower('tus/entry.cpp')
    return load(w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'entry.cfg')).read()))


def dispatch_rules(rep, w, members, transs, filt=False):
    rep.rule('dispatch', 'the public operation runs the level recursion of its kind from the first level, with the caller\'s vectors, rank and transposition')
    if filt:
        rep.rule('filter', 'after the solve exactly the null-space filter of the side solved for is applied to the solution')
    n = 0
    for f in program(w):
        if member(f) in members:
            for t in transs:
                if t in ROUTE[member(f)]:
                    dispatch(rep, 'dispatch', f, t)
                    n += 1
                    if filt and member(f) == 'solve':
                        filters(rep, 'filter', f, t)
                    if filt and member(f) == 'solve_mrhs':
                        what = '%s<%s>, filter set' % (member(f), tname(f))
                        sf = ESF(f, {'m.nsp._M_ptr': 1}, good())
                        if sf.entry not in sf.returning():
                            rep.ok('filter', what, 'rejected')
                        elif [c for c in events.calls(sf, {}, lambda nm: 'NspFilter::filter' in nm)]:
                            rep.und('filter', what, 'filters are applied')
                        elif tests_field(sf, 'nsp'):
                            rep.und('filter', what, 'a check is not decided')
                        else:
                            rep.bad('filter', what, 'a set null-space filter is neither applied nor rejected', f.dem.split('(')[0])
    rep.need('dispatch', n, 1, 'entry operations')
