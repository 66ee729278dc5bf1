"""Checks of the threaded routines (see mtp)."""
import os
import re
import vt
import mtp
from ir import Undecided
from verb import base

WHO = re.compile(r'hif::mt::(\w+)<')


def name(f):
    m = WHO.search(f.dem)
    n = m.group(1) if m else base(f.dem)
    return 'mt::%s %s' % (n, 'complex' if 'complex' in f.dem else 'real')


def body(rep, w):
    rep.rule('partition', 'the index ranges of the threads start at 0, are adjacent and end at the number of rows, for every size, team and thread')
    rep.rule('team', 'ranges are computed from the size of the running team, and every piece of work given to a single thread is done by exactly one thread of any team')
    rep.rule('race', 'memory written by all threads is addressed through the rows or the number of the thread')
    rep.rule('barrier', 'data written by one side of a hand-over between threads is separated from its use by a barrier on every path')
    rep.rule('range', 'the rows divided among the threads are all rows of the result')
    rep.rule('same', 'the threaded dropping runs only where the serial one would not have dropped everything (positive limits)')
    rep.rule('buffer', 'there is a work buffer of its own for every thread a region can have')
    cfg = open(os.path.join(vt.VERIF, 'cfg', 'mt.cfg')).read()
    prog = w.dump(w.lower('tus/mt.cpp', ['-fopenmp', '-I', os.path.join(vt.VERIF, 'tus', 'omp')]), cfg)
    n = 0
    for f in prog.functions:
        if f.dem.startswith('part('):
            uniform(rep, f)
    forks = forkmap(prog)
    seen = {}
    for f in prog.functions:
        if f.name not in forks or len(f.ins) < 3:
            continue
        k = name(f)
        seen[k] = seen.get(k, 0) + 1
        what = '%s, region %d' % (k, seen[k])
        n += 1
        P, fk, lim = forks[f.name]
        try:
            region(rep, f, what, int(lim[2:]) if lim and lim.startswith('c:') else None, P, fk)
        except Undecided as e:
            rep.und('team', what, e)
        limits(rep, P, fk, f, what)
        buffers(rep, P, fk, lim, f, what)
    rep.extra['regions'] = n
    rep.need('team', n, 8, 'parallel regions')


def forkmap(prog):
    """outlined function -> (function with the region, the fork, the number of threads requested)"""
    by = {f.name: f for f in prog.functions}
    out = {}
    for P in prog.functions:
        for b, l in P.blocks.items():
            lim = None
            for i in l:
                c = (i.get('cdem') or i.get('callee') or '') if iscall(i) else ''
                if c == '__kmpc_push_num_threads':
                    lim = i.ops[2]
                elif c.startswith('__kmpc_fork_call'):
                    w = next((o[2:] for o in i.ops if o.startswith('f:')), None) or str(i.ops[2])
                    g = by.get(w) or by.get(w.lstrip('@')) or by.get(w.split(':', 1)[-1])
                    while g is not None and len(g.ins) < 3:
                        g = next((by.get(x.get('callee')) for x in g.ins.values() if iscall(x)), None)
                    if g is not None:
                        out[g.name] = (P, i, lim)
                    lim = None
    return out


def known(f, blk):
    """comparisons decided on the way to a block: (fcmp or icmp, truth)"""
    out = []
    def add(v, t):
        i = f.ins.get(v)
        if i is None:
            return
        if i.op in ('fcmp', 'icmp'):
            out.append((i, t))
        elif i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1'):
            add(i.ops[0], not t)
        elif i.op == 'select' and i.get('ty', 'i1') == 'i1':
            if t and i.ops[2] == 'c:0':
                add(i.ops[0], True), add(i.ops[1], True)
            elif not t and i.ops[1] in ('c:1', 'c:-1'):
                add(i.ops[0], False), add(i.ops[2], False)
        elif i.op in ('and', 'or') and t == (i.op == 'and'):
            add(i.ops[0], t), add(i.ops[1], t)
    # edges every path to the block takes
    e = next(iter(f.blocks))
    for b, l in f.blocks.items():
        x = l[-1]
        if x.op != 'br' or len(f.succ[b]) != 2:
            continue
        for side, tg in ((False, x.ops[1]), (True, x.ops[2])):
            tg = int(tg[1:])
            seen, wl = {e}, [e]
            while wl:
                y = wl.pop()
                for s in f.succ[y]:
                    if (y, s) == (b, tg) or s in seen:
                        continue
                    seen.add(s)
                    wl.append(s)
            if blk not in seen:
                add(x.ops[0], side)
    return out


def positive(ks, v, strip):
    for c, t in ks:
        if c.op != 'fcmp':
            continue
        a, b = strip(c.ops[0]), strip(c.ops[1])
        p = c.get('pred')
        if (a == v and b.startswith('d:') and float(b[2:]) >= 0 and (p in ('ogt',) and t or p == 'ule' and not t)) or \
                (b == v and a.startswith('d:') and float(a[2:]) >= 0 and (p in ('olt',) and t or p == 'uge' and not t)) or \
                (a == v and b == 'd:0' and p in ('ole', 'ule') and not t) or (b == v and a == 'd:0' and p in ('oge', 'uge') and not t):
            return True
    return False


def limits(rep, P, fk, f, what):
    """limits that scale the entries kept are positive at the fork, or tested in the region"""
    if 'drop_' not in base(P.dem):
        return
    # the region applies the rules itself, unless it calls the serial routines
    if any(iscall(i) and re.search(r'hif::drop_[LU]', i.get('cdem') or '') for i in f.ins.values()):
        return
    def strip(v):
        while v in P.ins and P.ins[v].op in ('fpext', 'fptrunc', 'freeze'):
            v = P.ins[v].ops[0]
        return v
    fl = {'a%d' % k for k, a in enumerate(P.args) if a['ty'] in ('double', 'float')}
    if not fl:
        rep.und('same', what, 'the limits are not recognised')
        return
    ks = known(P, fk.blk)
    for v in sorted(fl):
        lab = '%s: limit %s' % (what, v)
        if positive(ks, v, strip):
            rep.ok('same', lab, 'positive in the region')
        elif any(i.op == 'fcmp' and any(o.startswith('d:') for o in i.ops) for i in f.ins.values()):
            rep.und('same', lab, 'tested in the region')
        else:
            rep.bad('same', lab, 'a limit that is not positive reaches the threaded routine, which then keeps every entry', fk.loc)


def buffers(rep, P, fk, lim, f, what):
    idx = [i for i in f.ins.values() if iscall(i) and re.search(r'^[^(]*std::vector<.*operator\[\]\(', i.get('cdem') or '')]
    for i in idx:
        try:
            r = f.addr(i.ops[0])[0]
            l = f.lin(i.ops[1])
        except Undecided:
            continue
        if r[0] != 'arg':
            continue
        tid = [a for a in l.t if a[0] == 'v' and a[1] in f.ins and iscall(f.ins[a[1]]) and (f.ins[a[1]].get('cdem') or f.ins[a[1]].get('callee')) == mtp.TID]
        lab = '%s: buffers of %s' % (what, i.loc)
        lab = what + ': buffers of the threads'
        if 0: pass
        if len(l.t) != 1 or not tid:
            rep.und('buffer', lab, 'index not recognised %s' % (list(l.t.items()),))
            continue
        k = int(re.sub(r'\D', '', str(r[1]))) - 2       # the two identifiers come first
        o = fk.ops[3 + k] if 3 + k < len(fk.ops) else None
        ct = [c for c in P.ins.values() if iscall(c) and re.search(r'::vector\((unsigned long|std::size_t)', c.get('cdem') or '') and c.ops and c.ops[0] == o]
        if len(ct) != 1 or lim is None:
            rep.und('buffer', lab, 'the vector of buffers is not recognised')
            continue
        try:
            n, q = P.lin(ct[0].ops[1]), P.lin(lim)
        except Undecided as e:
            rep.und('buffer', lab, e)
            continue
        d = (n - q)
        if not d.is_const():
            rep.bad('buffer', lab, 'the number of buffers is not tied to the number of threads requested', ct[0].loc)
        elif l.c > d.c:
            rep.bad('buffer', lab, 'the last of the threads requested uses entry %+d past the end' % (l.c - d.c), i.loc)
        else:
            rep.ok('buffer', lab, 'number of threads %+d, index thread %+d' % (d.c, l.c))


def uniform(rep, f):
    what = 'mt::uniform_partition'
    try:
        cs = mtp.cases(f, 'a1', 'a2')
        S, E = {}, {}
        for k, c in cs.items():
            r = [i for i in f.ins.values() if i.op == 'ret'][0]
            v, el = r.ops[0], {}
            while v in f.ins and f.ins[v].op == 'insertvalue':
                i = f.ins[v]
                ix = i.get('idx')
                ix = ix[0] if isinstance(ix, list) else ix
                el.setdefault(ix if ix is not None else 1 - len(el), i.ops[1])
                v = i.ops[0]
            if len(el) != 2:
                raise Undecided('the pair returned is not recognised')
            S[k], E[k] = c.ev(el[0]), c.ev(el[1])
        why = mtp.partition(cs, S, E)
    except mtp.Requested as e:
        rep.bad('partition', what, 'the ranges divide by another number than the number of threads given', e.ins.loc)
        return
    except Undecided as e:
        rep.und('partition', what, e)
        return
    if why:
        rep.bad('partition', what, why, f.blocks[0][0].loc)
    else:
        rep.ok('partition', what, '; '.join('%s: [%s, %s)' % (k, S[k].text(), E[k].text()) for k in 'ZLR'))


def iscall(i):
    return i.op in ('call', 'invoke')


def region(rep, f, what, limit=None, P=None, fk=None):
    R = mtp.Region(f, limit)
    try:
        cs = mtp.cases(f)
    except mtp.Requested as e:
        rep.bad('team', what, 'the rows are divided by a number of threads from outside the region; the team can be smaller', e.ins.loc)
        return
    share = R.shares()
    tids = {i.id for i in f.ins.values() if iscall(i) and (i.get('cdem') or i.get('callee')) == mtp.TID}
    work = any(iscall(i) and (i.get('cdem') or '').startswith('__kmpc_for_static_init') or iscall(i) and (i.get('cdem') or '').startswith('__kmpc_dispatch') for i in f.ins.values())
    effects = {}
    for b, l in f.blocks.items():
        e = []
        for i in l:
            if i.op == 'store' and not all(r[0] == 'alloca' for r in R.roots(i.ops[1])):
                e.append(i)
            elif iscall(i):
                c = i.get('cdem') or i.get('callee') or ''
                if mtp.SYNC.match(c) or re.match(r'(f?abs|ceil|floor|sqrt|hypot|operator (new|delete)|hif::(error|warning|info)|std::.*::(begin|end|size|data|operator\[\])|std::(abs|__throw))', c) or c.endswith(' const'):
                    if c.endswith(' const') and 'multiply' in c:
                        e.append(i)
                    continue
                if 'operator[]' in c:
                    continue
                e.append(i)
        if e:
            effects[b] = e
    # work of single threads
    alt = [b for b in effects if isinstance(share[b], tuple) and share[b][0] == 1 and 0 in share[b][1:]]
    k = 0
    for b, e in effects.items():
        s = share[b]
        if s == 'one' or s == 'all':
            k += 1
            continue
        n = dict(zip(R.teams, s))
        z = [T for T in n if n[T] == 0]
        if not any(s):
            if not limit:
                rep.bad('team', what + ': work of no thread', 'no thread of any team executes it', e[0].loc)
            continue
        if z:
            if alt and n[1] == 0 or n[1] == 1 and b in alt:
                rep.und('team', what + ': ' + e[0].loc, 'work depends on the size of the team')
                continue
            rep.bad('team', what + ': work skipped by a team of %d' % z[0], 'no thread executes it in a team of %d' % z[0], e[0].loc)
        else:
            many = [T for T in n if 1 < n[T]]
            rep.bad('team', what + ': work repeated by a team of %d' % many[0], 'executed by %d of %d threads' % (n[many[0]], many[0]), e[0].loc)
    if k:
        rep.ok('team', what, '%d blocks done by all or exactly one thread' % k)
    # ranges: loops and calls of blocks all threads execute
    ivs = set()
    full = None
    shared = 0
    for lid, L in f.loops.items():
        if L['parent'] != -1:
            continue
        if share.get(L['header']) != 'all':
            continue
        ef = [i for b in L['blocks'] if b in effects for i in effects[b]]
        # the loop variable that starts at a thread-dependent value
        phis = [i for i in f.blocks[L['header']] if i.op == 'phi']
        got = None
        for ph in phis:
            init = [o for o, b in zip(ph.ops, ph.get('from') or []) if b not in L['blocks']]
            if len(init) != 1 or ph.get('ty') == 'ptr':
                continue
            ex = exit_bound(f, L, ph)
            if ex is None:
                continue
            bound, extra = ex
            S = {q: c.ev(init[0]) for q, c in cs.items()}
            E = {q: c.ev(bound) + mtp.Poly.c(extra) for q, c in cs.items()}
            got = (ph, S, E)
            break
        if got is None:
            if ef and not work:
                rep.und('partition', '%s: loop at %s' % (what, f.blocks[L['header']][0].loc), 'loop bounds not recognised')
            continue
        ph, S, E = got
        lab = '%s: loop over rows %d' % (what, sum(1 for o in rep.obl if o[1].startswith(what + ': loop over rows')) + 1)
        if not mtp.moving(cs, S, E):
            # replicated loop: fine if it writes private data only
            bad = [i for i in ef if i.op == 'store' and not private(R, i, ivs, tids)]
            if bad:
                rep.bad('race', lab, 'every thread writes the whole range', bad[0].loc)
            continue
        try:
            why = mtp.partition(cs, S, E)
        except Undecided as e:
            ivs.add(ph.id)
            if work:
                rep.ok('partition', lab, 'distributed by the runtime')
            else:
                rep.und('partition', lab, e)
            continue
        ivs.add(ph.id)
        if why:
            rep.bad('partition', lab, why, f.blocks[L['header']][0].loc)
        else:
            rep.ok('partition', lab, '[%s, %s) when the rows divide evenly' % (S['Z'].text(), E['Z'].text()))
            full = cs['Z']
    for b, e in effects.items():
        if share[b] != 'all':
            continue
        for i in e:
            c = i.get('cdem') or ''
            if iscall(i) and re.search(r'multiply_(mrhs_)?nt_low', c):
                q = ranged(cs, i)
                if q is None:
                    if f.bloop[b] == -1:
                        rep.bad('race', '%s: %s' % (what, base(c)), 'every thread computes all rows', i.loc)
                    continue
                S, E = q
                lab = '%s: rows handed to %s' % (what, base(c))
                try:
                    why = mtp.partition(cs, S, E)
                except Undecided as x:
                    rep.und('partition', lab, x)
                    continue
                if why:
                    rep.bad('partition', lab, why, i.loc)
                else:
                    rep.ok('partition', lab, '[%s, %s) when the rows divide evenly' % (S['Z'].text(), E['Z'].text()))
                    full = cs['Z']
    if full is not None and full.dsub:
        total(rep, f, what, full, P, fk)
    # writes of all threads
    nw = 0
    for b, e in effects.items():
        if share[b] != 'all':
            continue
        for i in e:
            if i.op != 'store':
                continue
            nw += 1
            if not private(R, i, ivs, tids):
                sh = R.shared(i.ops[1], b)
                r = next(iter(R.roots(i.ops[1])))
                if sh and (r[0] in ('arg', 'global', 'call') or r[0] == 'loaded'):
                    rep.bad('race', what + ': ' + i.loc.split(':')[0] + ' shared location', 'threads %d and %d of %d use the same memory, at indices that are not their own' % (sh[1], sh[2], sh[0]), i.loc)
                elif sh:
                    rep.und('race', '%s: %s' % (what, i.loc), 'the address does not depend on the rows of the thread')
        for i in f.blocks[b]:
            c = (i.get('cdem') or '') if iscall(i) else ''
            if re.match(r'[^(]*hif::SparseVector<[^(]*::\w+\(', c) and not c.endswith(' const') and i.ops:
                nw += 1
                d = R.deps(i.ops[0], False)
                if d & ivs or all(r[0] == 'alloca' for r in R.roots(i.ops[0])):
                    continue
                sh = R.shared(i.ops[0], b)
                if sh:
                    rep.bad('race', what + ': object of ' + base(c), 'threads %d and %d of %d change the same object' % (sh[1], sh[2], sh[0]), i.loc)
    if nw:
        rep.ok('race', what, '%d stores addressed by row or thread' % nw)
    barriers(rep, f, what, R, share)


def exit_bound(f, L, ph):
    for e in L['exiting']:
        x = f.blocks[e][-1]
        if x.op != 'br' or len(f.succ[e]) != 2:
            continue
        c = f.ins.get(x.ops[0])
        if c is None or c.op != 'icmp':
            continue
        stay_true = int(x.ops[2][1:]) in L['blocks']
        p = c.get('pred')
        q = p[1:] if p not in ('eq', 'ne') else p
        if not stay_true:
            q = mtp.NEG[q]
        a, b = c.ops
        # strip casts
        def st(v):
            while v in f.ins and f.ins[v].op in ('sext', 'zext', 'trunc', 'freeze'):
                v = f.ins[v].ops[0]
            return v
        a, b = st(a), st(b)
        nxt = {o for o, bb in zip(ph.ops, ph.get('from') or []) if bb in L['blocks']}
        if b == ph.id or b in nxt:
            a, b, q = b, a, mtp.FLIP[q]
        if a == ph.id:
            add = 0
        elif a in nxt:
            # tested after the increment at the end of the body, or before the body: i + 1 < bound
            add = 0 if int(x.ops[2 if stay_true else 1][1:]) == L['header'] else -1
        else:
            continue
        i = f.ins.get(b)
        if i is not None and i.blk in L['blocks']:
            continue
        if q in ('ne', 'lt'):
            return b, add
        if q == 'le':
            return b, 1 + add
    return None


def ranged(cs, i):
    for k in range(len(i.ops) - 1):
        P = {q: c.ev(i.ops[k]) for q, c in cs.items()}
        if any('t' in p.syms() for p in P.values()):
            Q = {q: c.ev(i.ops[k + 1]) for q, c in cs.items()}
            return P, {q: P[q] + Q[q] for q in P}
    # swapped or thread-independent start
    for k in range(len(i.ops)):
        Q = {q: c.ev(i.ops[k]) for q, c in cs.items()}
        if any('B' in p.syms() for p in Q.values()) and k:
            P = {q: c.ev(i.ops[k - 1]) for q, c in cs.items()}
            return P, {q: P[q] + Q[q] for q in P}
    return None


def private(R, i, ivs, tids):
    d = R.deps(i.ops[1], False)
    if d & ivs:
        return True
    return all(r[0] == 'alloca' for r in R.roots(i.ops[1]))


def total(rep, f, what, c, P, fk):
    """the dividend is the plain number of rows"""
    k = c.total.get((), 0)
    a = [s for s in c.total.syms()][0]
    if k:
        rep.bad('range', what, 'the rows divided among the threads are %+d off the number of rows' % k, c.divs[0].loc)
        return
    i = f.ins.get(c.strip(c.divs[0].ops[0]))
    nm, v = None, None
    if i is not None and i.op == 'load':
        try:
            r, off = f.addr(i.ops[0])
            nm = f.field_of(r, off.c) if off.is_const() else None
        except Undecided:
            r, nm = None, None
        if r and r[0] == 'arg' and off.is_const() and off.c == 0 and (not nm or '.' not in nm):
            # captured variable
            k = int(re.sub(r'\D', '', str(r[1]))) - 2
            o = fk.ops[3 + k] if 3 + k < len(fk.ops) else None
            st = [s.ops[0] for s in P.ins.values() if s.op == 'store' and s.ops[1] == o]
            nm = None
            if len(st) == 1:
                v = st[0]
                d = P.ins.get(v)
                if d is not None and d.op == 'load':
                    try:
                        r, off = P.addr(d.ops[0])
                        nm = P.field_of(r, off.c) if off.is_const() else None
                    except Undecided:
                        pass
    if nm and re.search(r'(^|\.)_?(ncols|nnz)$|_ncols$', nm):
        rep.bad('range', what, 'the threads share %s instead of the rows' % nm, i.loc)
        return
    if nm and '.' in nm:
        rep.ok('range', what, 'rows: ' + nm)
        return
    if v is not None:
        res = [x for x in P.ins.values() if iscall(x) and re.search(r'hif::C[RC]S<.*::resize\(', x.get('cdem') or '') and len(x.ops) > 2]
        if len(res) == 1:
            try:
                a, b_ = P.lin(v), P.lin(res[0].ops[1])
                if a.tup() == b_.tup():
                    rep.ok('range', what, 'rows of the result')
                else:
                    rep.bad('range', what, 'the rows shared are not those the result was given', c.divs[0].loc)
                return
            except Undecided:
                pass
    rep.und('range', what, 'origin of the number of rows')


def barriers(rep, f, what, R, share):
    acc = []         # (ins, kind 'r'/'w', object, side)
    for b, l in f.blocks.items():
        s = share[b]
        if s not in ('all', 'one'):
            continue
        for i in l:
            if i.op in ('load', 'store'):
                a = i.ops[0] if i.op == 'load' else i.ops[1]
                for r in R.roots(a):
                    if r[0] == 'loaded' and r[1][0][0] in ('arg',):
                        acc.append((i, 'r' if i.op == 'load' else 'w', r[1], s))
                    elif r[0] == 'arg':
                        sl = R.slot(a)
                        if i.op == 'store' or s == 'all':
                            acc.append((i, 'r' if i.op == 'load' else 'w', ('hdr',) + sl, s))
    obj = {}
    for x in acc:
        obj.setdefault(x[2], []).append(x)
    nb = {b for b, l in f.blocks.items() if any(iscall(i) and (i.get('cdem') or i.get('callee')) in mtp.BARRIER for i in l)}
    if not any(x[3] == 'one' for x in acc):
        return
    n = 0
    for o, xs in obj.items():
        for x in xs:
            for y in xs:
                if x[3] == y[3] or 'w' not in (x[1], y[1]):
                    continue
                n += 1
                if reach_free(f, x[0], y[0]):
                    nm = str(o)
                    try:
                        nm = f.field_of(o[0], o[1]) or nm
                    except Exception:
                        pass
                    rep.bad('barrier', '%s: %s' % (what, nm), 'no barrier between the access at %s and the one of another thread' % x[0].loc, y[0].loc)
                    return
    if n:
        rep.ok('barrier', what, '%d hand-overs separated by barriers' % n)


def reach_free(f, a, b):
    """a path from a to b without a barrier"""
    def isbar(i):
        return iscall(i) and (i.get('cdem') or i.get('callee')) in mtp.BARRIER
    seen, wl = set(), []
    l = f.blocks[a.blk]
    for i in l[l.index(a) + 1:]:
        if i is b:
            return True
        if isbar(i):
            break
    else:
        wl = list(f.succ[a.blk])
    while wl:
        x = wl.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in f.blocks[x]:
            if i is b:
                return True
            if isbar(i):
                break
        else:
            wl.extend(f.succ[x])
    return False
