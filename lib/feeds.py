"""What the elimination loop feeds to the methods of a step, and in which order (P25).

Every object a step method receives has a role (factor, list, start positions, diagonal, computed row, computed column, ...); the roles are
bound by use and one object must play one role.  The order of the events on the computed row and column (computed, scaled, dropped, sorted,
stored, factor advanced) is explored over all paths of one iteration of the elimination loop."""
import re
from collections import Counter
from crout import K, Bad, vecobj, dname, isptr, conds_of, closure, after
from ir import Undecided, Lin

TABLE = {
    ('update_kappa', 5): {1: 'mat', 2: 'list', 3: 'start'},
    ('defer_entry', 5): {3: 'mat', 2: 'start', 4: 'list'},
    ('symm_defer_l', 6): {3: 'mat', 2: 'start', 4: 'list', 5: 'offsets'},
    ('update_compress', 4): {1: 'mat', 2: 'list', 3: 'start'},
    ('update_compress', 3): {1: 'mat', 2: 'start'},
    ('symm_update_lstart', 4): {1: 'mat', 2: 'bound', 3: 'offsets'},
    ('compute_ut', 13): {2: 'rows', 6: 'L', 7: 'L start', 8: 'L list', 9: 'd', 10: 'U', 11: 'U start', 12: 'ut'},
    ('compute_ut', 11): {2: 'rows', 6: 'L', 7: 'd', 8: 'U', 9: 'U start', 10: 'ut'},
    ('compute_l', 14): {2: 'columns', 6: 'bound', 7: 'L', 8: 'L first', 9: 'd', 10: 'U', 11: 'U start', 12: 'U list', 13: 'l'},
    ('compute_l', 11): {2: 'columns', 6: 'L', 7: 'L start', 8: 'd', 9: 'U', 10: 'l'},
    ('compute_symm', 12): {2: 'columns', 6: 'bound', 7: 'L', 8: 'L start', 9: 'L list', 10: 'd', 11: 'l'},
    ('compute_dk', 10): {2: 'columns', 6: 'L', 7: 'L start', 8: 'd', 9: 'U'},
    ('scale_inv_diag', 3): {1: 'd'},
    ('update_diag', 5): {1: 'l', 2: 'ut', 3: 'bound', 4: 'd'},
    ('update_diag_symm', 4): {1: 'l', 2: 'bound', 3: 'd'},
    ('compress_tails', 6): {0: 'U', 1: 'L', 2: 'U start', 3: 'L start'},
    ('compress_tail', 4): {0: 'L', 1: 'L start'},
}
SHOW = {'d': 'the diagonal', 'ut': 'the computed row', 'l': 'the computed column', 'bound': 'the size of the leading block', 'rows': 'the input by rows',
        'columns': 'the input by columns', 'L': 'the factor L', 'U': 'the factor U'}


def show(r):
    return SHOW.get(r) or 'the %s of %s' % ({'start': 'start positions', 'list': 'lists', 'offsets': 'offsets'}[r.split()[1]], r.split()[0])


def method(i):
    n = re.findall(r'::(update_kappa|defer_entry|symm_defer_l|update_compress|symm_update_lstart|compute_ut|compute_l|compute_symm|compute_dk|scale_inv_diag|'
                   r'update_diag_symm|update_diag|compress_tails|compress_tail)(?=<|$)', dname(i))
    return n[-1] if n else None


def args(k):
    """(call, position, role, object) of every argument with a role"""
    out = []
    for i in k.calls:
        n = method(i)
        if n is None:
            sp = re.search(r'::(split(?:_crs|_ccs)?)<', dname(i))
            if sp and len(i.ops) == 4 and k.base(i.ops[1]) in k.rmats:
                out.append((i, 3, k.rmats[k.base(i.ops[1])] + ' start', k.base(i.ops[3])))
            continue
        t = TABLE.get((n, len(i.ops)))
        if t is None:
            if n == 'update_kappa' and len(i.ops) == 4 or n == 'defer_entry' and len(i.ops) == 3:
                continue
            out.append((i, None, n, None))
            continue
        side = None
        for pos, r in t.items():
            if r == 'mat':
                side = k.rmats.get(k.base(i.ops[pos]))
                if side is None:
                    out.append((i, None, n, None))
        for pos, r in t.items():
            if r == 'mat':
                continue
            if r in ('start', 'list', 'offsets'):
                if side is None:
                    continue
                r = side + ' ' + r
            if r == 'L first':
                r = 'L offsets' if k.kind == 'lead' else 'L start'
            out.append((i, pos, r, i.ops[pos] if r == 'bound' else k.base(i.ops[pos])))
    return out


def vectors(k):
    v = {}
    for i in k.of(r'::push_back_(row|col)<'):
        side = 'U' if 'push_back_row<' in dname(i) else 'L'
        v.setdefault('ut' if side == 'U' else 'l', set()).add(vecobj(k, i.ops[-1]))
    if any(len(x) != 1 or None in x for x in v.values()):
        raise Undecided('the stored vectors are not resolved')
    return {n: x.pop() for n, x in v.items()}


def roles(k):
    """one role per object, one object per role"""
    out = []
    vec = vectors(k)
    fixed = {'d': k.d, **k.mats, **vec}
    us = args(k)
    votes = {}
    for i, pos, r, o in us:
        if pos is None:
            out.append(('%s' % r, Undecided('call with %d arguments' % len(i.ops)), i))
            continue
        if r not in fixed and r not in ('rows', 'columns'):
            votes.setdefault(r, Counter())[o] += 1
    bind = dict(fixed)
    for r, c in votes.items():
        bind[r] = c.most_common(1)[0][0]
    obj = {}
    for r, o in bind.items():
        obj.setdefault(o, []).append(r)
    for i, pos, r, o in us:
        if pos is None:
            continue
        n = method(i) or 'split'
        lab = '%s receives %s' % (n, show(r))
        if r in ('rows', 'columns'):
            out.append((lab, counterpart(k, o, r), i))
            continue
        if r in votes and len(votes[r]) > 1:
            # several objects: name the one that has another role, else the rarer one
            other = [x for x in obj.get(o, []) if x != r]
            if bind[r] != o and other:
                out.append((lab, '%s is passed as %s' % (show(other[0]), show(r)), i))
            elif bind[r] != o:
                out.append((lab, 'the object passed as %s is not the one that is passed elsewhere' % show(r), i))
            else:
                out.append((lab, None, i))
        elif bind[r] != o:
            other = [x for x in obj.get(o, []) if x != r]
            if not other:
                out.append((lab, Undecided('object passed as %s' % show(r)), i))
            else:
                out.append((lab, '%s is passed as %s' % (show(other[0]), show(r)), i))
        else:
            out.append((lab, None, i))
    for o, rs in obj.items():
        if len(rs) > 1 and all(isinstance(x, str) for x in rs):
            i = next(i for i, pos, r, x in us if pos is not None and r == rs[1] or r == rs[0])
            out.append(('one role per object', 'one object serves as %s' % ' and as '.join(sorted(show(r) for r in rs)), i))
    b = bind.get('bound')
    if b is not None:
        ins = k.f.ins.get(b)
        i = next(i for i, pos, r, x in us if r == 'bound')
        if ins is not None and ins.blk in k.mblocks:
            ok = None
            if ins.op == 'load':
                root, off = k.f.addr(ins.ops[0])
                if root[0] == 'alloca':
                    ok = not any(s.blk in k.mblocks for s, so in k.f.alloca_stores(root))
            if ins.op == 'phi' or ok is False:
                out.append(('bound of the leading block', 'the bound of the leading block changes during the elimination', i))
            elif ok is None:
                out.append(('bound of the leading block', Undecided('bound of the leading block'), i))
        else:
            out.append(('bound of the leading block', None, i))
    return out, bind


def counterpart(k, o, r):
    """the input by rows or by columns"""
    f = k.f
    want = 'select_crs' if r == 'rows' else 'select_ccs'
    if isinstance(o, tuple) and o[0] == 'ret':
        c = f.ins.get(o[1])
        n = dname(c) if c is not None else ''
        m = re.search(r'select_(crs|ccs)', n)
        if m:
            return None if m.group(0) == want else 'the input by %s is passed where %s belongs' % ('rows' if m.group(0) == 'select_crs' else 'columns', show(r))
    return Undecided('which form of the input is passed')


# ------------------------------------------------------------------------------------------------ order of the events
def events(k, vec):
    ev = {}
    name = {o: n for n, o in vec.items()}

    def put(i, *e):
        ev.setdefault(i.id, []).append(e)
    for i in k.calls:
        if i.blk not in k.mblocks:
            continue
        d = dname(i)
        n = method(i)
        if re.search(r'::apply_thres_pivot<', d):
            for o in i.ops[-2:]:
                if o[0] in '%a' and isptr(k.f, o) and vecobj(k, o) in name:
                    put(i, 'used', name[vecobj(k, o)])
        elif re.search(r'::(restore_cur_state|reset_current|reset_tags?)$', d):
            v = name.get(vecobj(k, i.ops[0]))
            if v:
                put(i, 'cleared', v)
        if n in ('compute_ut', 'compute_l', 'compute_symm'):
            v = name.get(vecobj(k, i.ops[-1]))
            if v:
                put(i, 'computed', v)
        elif n == 'scale_inv_diag':
            v = name.get(vecobj(k, i.ops[2]))
            if v:
                put(i, 'scaled', v)
        elif n in ('update_diag', 'update_diag_symm'):
            put(i, 'diagonal', n)
        elif n == 'update_compress':
            s = k.rmats.get(k.base(i.ops[1]))
            if s:
                put(i, 'advanced', s)
        elif re.search(r'apply_space_dropping<', d):
            v = name.get(vecobj(k, i.ops[2]))
            if v:
                put(i, 'selected', v)
        elif re.search(r'apply_num_dropping<', d):
            v = name.get(vecobj(k, i.ops[2]))
            if v:
                put(i, 'dropped', v)
        elif re.search(r'::sort_indices$|::sort_indices<', d):
            v = name.get(vecobj(k, i.ops[0]))
            if v:
                put(i, 'sorted', v)
        elif re.search(r'::push_back_(row|col)<', d):
            side = 'U' if 'push_back_row<' in d else 'L'
            put(i, 'stored', side, tuple(sorted({name[x] for x in (vecobj(k, o) for o in i.ops[1:] if o[0] in '%a' and isptr(k.f, o)) if x in name})))
        elif re.search(r'symm_update_lstart<', d):
            put(i, 'offsets')
        elif i.id in k.kup:
            arr = k.kup[i.id][1]
            for c, o in k.kcopy.items():
                if o == arr:
                    put(i, 'stale', c)
        elif (i.get('callee') or '').startswith('llvm.memcpy'):
            e, w = k.elem(i.ops[0]), k.elem(i.ops[1])
            if e and w and e[0] in k.kcopy and w[0] == k.kcopy[e[0]]:
                put(i, 'copied', e[0])
            elif w and w[0] in k.kcopy:
                put(i, 'read', w[0])
    for i in k.f.ins.values():
        if i.blk not in k.mblocks:
            continue
        if i.op == 'store':
            e = k.elem(i.ops[1])
            if e and e[0] in k.kcopy and (k.kcopy[e[0]], 0) in k.els_of(i.ops[0]):
                put(i, 'copied', e[0])
        elif i.op == 'load':
            e = k.elem(i.ops[0])
            if e and e[0] in k.kcopy and e[1] == 0:
                put(i, 'read', e[0])
    return ev


def foreign(k, ev, vec, what, at):
    """the event is guarded by conditions that have nothing to do with the vector or factor"""
    f = k.f
    mine = {vec.get(what[1]), k.mats.get(what[1])} - {None}
    for i in f.ins.values():
        if i.blk not in k.mblocks or not any(e[:2] == what for e in ev.get(i.id, ())):
            continue
        own = set(conds_of(k, i.blk)) - set(conds_of(k, at.blk))
        if what[0] == 'advanced':
            own = {c for c in own if f.idominates(f.ins[c[0]], i) and any(f.ins[c[0]].blk == b for b in k.mblocks)} if own else own
        if not own:
            continue
        for c, t in own:
            ci = f.ins.get(c)
            if ci is None or ci.op not in ('icmp', 'fcmp'):
                return False
            for o in ci.ops:
                if what[0] != 'sorted' and stepfields(k, o):
                    return False
                for a in k.slice(o):
                    if a[0] in ('?', 'call') or len(a) > 1 and a[1] in mine:
                        return False
        return True
    return False


def order(k, vec):
    """[(label, problem, instruction)] from the paths of one iteration"""
    f, ev = k.f, events(k, vec)
    res = {}
    has = {e[:2] for es in ev.values() for e in es}

    def note(label, ok, why, i, present):
        """ok in {True, False}; a path without an event that other paths have may be guarded"""
        r = res.setdefault((label, i.id), [0, 0, why, i, present])
        r[0 if ok else 1] += 1
    work = [(k.header, frozenset())]
    seen = set(work)
    n = 0
    while work:
        b, st = work.pop()
        n += 1
        if n > 40000:
            raise Undecided('too many paths')
        for i in f.blocks[b]:
            for e in ev.get(i.id, ()):
                if e[0] == 'used':
                    st |= {('raw', e[1])}
                elif e[0] == 'cleared':
                    st -= {('raw', e[1])}
                elif e[0] == 'computed':
                    v = e[1]
                    note('%s is computed from a cleared state' % SHOW[v], ('raw', v) not in st, '%s is computed on top of the entries the pivot search left' % SHOW[v], i, ('cleared', v) in has and ('cleared', v))
                    st = frozenset(x for x in st if x[1] != v) | {('computed', v), ('raw', v)}
                elif e[0] == 'scaled':
                    v = e[1]
                    note('%s is computed before it is scaled' % SHOW[v], ('computed', v) in st, '%s is scaled before it is computed' % SHOW[v], i, (('computed', v) in has) and ('computed', v))
                    note('%s is scaled once' % SHOW[v], ('scaled', v) not in st, '%s is divided by the diagonal entry twice' % SHOW[v], i, False)
                    note('%s is scaled before it is dropped from' % SHOW[v], ('touched', v) not in st, '%s is scaled after entries were dropped' % SHOW[v], i, False)
                    st |= {('scaled', v)}
                elif e[0] == 'diagonal':
                    if e[1] == 'update_diag':
                        s = [('scaled', 'ut') in st, ('scaled', 'l') in st]
                        note('the product of the diagonal update holds the pivot once', sum(s) == 1, 'the diagonal is updated with the product of %s' %
                             ('the row and column both divided by the pivot' if all(s) else 'the row and column before the division by the pivot'), i, False)
                        vs = ('ut', 'l')
                    else:
                        note('the product of the diagonal update holds the pivot once', ('scaled', 'l') in st, 'the diagonal is updated before the column is divided by the pivot', i, (('scaled', 'l') in has) and ('scaled', 'l'))
                        vs = ('l',)
                    for v in vs:
                        note('the diagonal update precedes the dropping of %s' % SHOW[v], ('touched', v) not in st, 'the diagonal is updated with %s after entries were dropped' % SHOW[v], i, False)
                        note('the diagonal update uses %s of the step' % SHOW[v], ('computed', v) in st, 'the diagonal is updated before %s is computed' % SHOW[v], i, (('computed', v) in has) and ('computed', v))
                    st |= {('diagonal', '')}
                elif e[0] in ('dropped', 'selected'):
                    v = e[1]
                    st |= {('touched', v)}
                    if e[0] == 'selected':
                        st -= {('sorted', v)}
                elif e[0] == 'sorted':
                    st |= {('sorted', e[1])}
                elif e[0] == 'stored':
                    for v in e[2]:
                        note('%s is computed before it is stored in %s' % (SHOW[v], e[1]), ('computed', v) in st, '%s is stored in %s before it is computed' % (SHOW[v], e[1]), i, (('computed', v) in has) and ('computed', v))
                        note('%s is scaled before it is stored in %s' % (SHOW[v], e[1]), ('scaled', v) in st, '%s is stored in %s without the division by the pivot' % (SHOW[v], e[1]), i, (('scaled', v) in has) and ('scaled', v))
                        note('%s is sorted before it is stored in %s' % (SHOW[v], e[1]), ('sorted', v) in st, '%s is stored in %s with its indices unsorted' % (SHOW[v], e[1]), i, (('sorted', v) in has) and ('sorted', v))
                    st |= {('stored', e[1])}
                elif e[0] == 'advanced':
                    note('%s is stored before its lists advance' % e[1], ('stored', e[1]) in st, 'the lists of %s advance before the entry of the step is stored' % e[1], i, (('stored', e[1]) in has) and ('stored', e[1]))
                    st |= {('advanced', e[1])}
                elif e[0] == 'stale':
                    st -= {('copied', e[1])}
                elif e[0] == 'copied':
                    st |= {('copied', e[1])}
                elif e[0] == 'read':
                    note('the estimate shared by both factors is current', ('copied', e[1]) in st, 'an estimate of an earlier step is read', i, False)
        for s in dict.fromkeys(f.succ[b]):
            if s == k.header:
                stored = [x[1] for x in st if x[0] == 'stored']
                for side in k.mats:
                    w = next(i for i in k.of(r'::push_back_(row|col)<') if k.base(i.ops[0]) == k.mats[side])
                    if stored:
                        note('every step stores its entry in %s' % side, side in stored, 'a path of a step stores nothing in ' + side, w, False)
                        note('the lists of %s advance at the end of a step' % side, ('advanced', side) in st, 'a path of a step does not advance the lists of ' + side, w, (('advanced', side) in has) and ('advanced', side))
                        if any(x[0] == 'diagonal' for x in has):
                            note('the diagonal is updated in every step', ('diagonal', '') in st, 'a path of a step does not update the diagonal', w, next(x for x in has if x[0] == 'diagonal'))
                continue
            if s in k.mblocks and (s, st) not in seen:
                seen.add((s, st))
                work.append((s, st))
    out = []
    for (label, _), (good, bad, why, i, present) in res.items():
        if not bad:
            out.append((label, None, i))
        elif good and present and not foreign(k, ev, vec, present, i):
            out.append((label, Undecided('some paths omit it'), i))
        else:
            out.append((label, why, i))
    return out


# ------------------------------------------------------------------------------------------------ ranges and bounds
def ranges(k, vec):
    out = []
    for i in k.of(r'::push_back_(row|col)<'):
        side = 'U' if 'push_back_row<' in dname(i) else 'L'
        parts = [i.ops[2:5]] + ([i.ops[5:8]] if len(i.ops) == 8 else [])
        for n, (b, e, v) in enumerate(parts):
            b, e = plain(k, b), plain(k, e)
            o = vecobj(k, v)
            lab = 'range stored in %s%s' % (side, '' if n == 0 else ' (second part)')
            who = {x: y for y, x in vec.items()}.get(o)
            if who is None:
                out.append((lab, Undecided('vector'), i))
                continue
            try:
                rb, ob = k.f.addr(b)
            except Undecided as x:
                out.append((lab, x, i))
                continue
            h = heap(rb)
            if h is None:
                out.append((lab, Undecided('begin of the range'), i))
                continue
            if h != o:
                out.append((lab, 'the indices stored in %s do not belong to the values' % side, i))
                continue
            if ob != Lin(0):
                out.append((lab, 'the indices stored in %s do not start at the first one' % side if ob.is_const() else Undecided('begin'), i))
                continue
            try:
                re_, oe = k.f.addr(e)
            except Undecided as x:
                re_ = None
            if re_ is None or heap(re_) is None:
                # end of the leading part from a search
                out.append((lab, leadend(k, e, o, i), i))
                continue
            if heap(re_) != o:
                out.append((lab, 'the range stored in %s ends in another vector' % side, i))
                continue
            t = oe.t if hasattr(oe, 't') else {}
            if oe.is_const() and oe.c == 0:
                out.append((lab, 'an empty range is stored in %s' % side, i))
            elif oe.c == 0 and len(t) == 1 and sizefield(k, next(iter(t)), o) and set(t.values()) == {4}:
                out.append((lab, None, i))
            elif oe.c == 0 and len(t) == 1 and sizefield(k, next(iter(t)), None):
                out.append((lab, 'the range stored in %s ends at the size of another object' % side, i))
            else:
                out.append((lab, Undecided('end of the range'), i))
    return out


def plain(k, v):
    while v in k.f.ins and k.f.ins[v].op in ('ptrtoint', 'inttoptr', 'bitcast'):
        v = k.f.ins[v].ops[0]
    return v


def heap(root):
    if root[0] == 'ld' and isinstance(root[1], tuple) and root[1][0] == 'alloca':
        return root[1][1]
    return None


def sizefield(k, a, o):
    """atom is the number of entries of vector o"""
    if a[0] != 'ld' or not isinstance(a[1], tuple) or a[1][0] != 'alloca':
        return False
    return o is None or a[1][1] == o


def leadend(k, e, o, push):
    """end of a leading range: result of the search for the bound in the same vector"""
    return Undecided('end of the leading range')


def bound(k, bind):
    """comparison of the position with the size of the leading block"""
    f, out = k.f, []
    for i in f.ins.values():
        if i.op != 'icmp' or i.blk not in k.mblocks:
            continue
        j = next((j for j in (0, 1) if stepfields(k, i.ops[j]) == {0, 8}), None)
        if j is not None and fixed(k, i.ops[1 - j]):
            p = i.get('pred')
            if j == 1:
                p = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if p in ('uge', 'ult', 'eq', 'ne'):
                out.append(('a position is used only below the size of the leading block', None, i))
            elif p in ('ugt', 'ule'):
                out.append(('a position is used only below the size of the leading block', 'the position one behind the leading block counts as inside', i))
    return out


def fixed(k, v):
    """a local number that keeps its value during the elimination"""
    i = k.f.ins.get(v)
    if i is None or i.op != 'load':
        return False
    if i.blk not in k.mblocks:
        return True
    try:
        root, off = k.f.addr(i.ops[0])
    except Undecided:
        return False
    return root[0] == 'alloca' and root[1] != k.step and not any(s.blk in k.mblocks for s, so in k.f.alloca_stores(root))


def stepfields(k, v):
    f = k.f
    i = f.ins.get(v)
    if i is None:
        return None
    if i.op == 'load':
        try:
            r, o = f.addr(i.ops[0])
        except Undecided:
            return None
        if r == ('alloca', k.step) and o.is_const():
            return {o.c}
        return None
    if i.op == 'add' and any(o.startswith('c:') for o in i.ops):
        # the value just stored in the field
        for s, so in f.alloca_stores(('alloca', k.step)):
            if s.ops[0] == v and so.is_const() and stepfields(k, next(o for o in i.ops if not o.startswith('c:'))) == {so.c}:
                return {so.c}
        return None
    if i.op == 'add':
        a, b = stepfields(k, i.ops[0]), stepfields(k, i.ops[1])
        return a | b if a and b and not a & b else None
    return None


def offsets(k, bind):
    """the number of entries of a column counts as the start of its off-diagonal part only when no row was deferred or left out"""
    f, out = k.f, []
    if not k.of(r'symm_update_lstart<'):
        return out
    for c in k.of(r'::nnz_in_(row|col)$'):
        if c.blk not in k.mblocks:
            continue
        b = c.blk
        ways = [(p, b) for p in f.pred[b]]
        verdict = None
        for w in ways:
            cs = implied(k, conds_of(k, b, w), bind.get('bound'))
            if not any(t for t in cs):
                verdict = verdict or Undecided('conditions')
                continue
            if not {'nodefer', 'whole'} <= cs:
                verdict = 'the entries of a column are all taken for leading ones although rows may have been %s' % ('deferred' if 'nodefer' not in cs else 'left out')
        out.append(('start of the off-diagonal part of a symmetric column', verdict, c))
    return out


def implied(k, cs, bnd, depth=0):
    f, out = k.f, set()
    for c, truth in cs:
        i = f.ins.get(c)
        if i is None or depth > 6:
            continue
        if i.op == 'xor' and i.ops[1] in ('c:1', 'c:-1', 'c:true'):
            out |= implied(k, [(i.ops[0], not truth)], bnd, depth + 1)
        elif i.op == 'select' and (truth and i.ops[2] == 'c:0' or not truth and i.ops[1] in ('c:1', 'c:-1')):
            out |= implied(k, [(i.ops[0], truth), (i.ops[1 if truth else 2], truth)], bnd, depth + 1)
        elif i.op == 'and' and truth or i.op == 'or' and not truth:
            out |= implied(k, [(o, truth) for o in i.ops], bnd, depth + 1)
        elif i.op == 'phi':
            live = []
            for o, blk in zip(i.ops, i.get('blks') or i.get('inc') or ()):
                if o.startswith('c:'):
                    if (o not in ('c:0', 'c:false')) == truth:
                        live = None
                        break
                    continue
                live.append((o, blk))
            if live and len(live) == 1:
                out |= implied(k, [(live[0][0], truth)] + conds_of(k, live[0][1]), bnd, depth + 1)
        elif i.op == 'icmp':
            p = i.get('pred')
            if not truth:
                p = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'ult': 'uge', 'uge': 'ult'}.get(p, p)
            a, b = i.ops
            if b == 'c:0' and stepfields(k, a) == {8} and p in ('eq', 'ule'):
                out.add('nodefer')
            elif p == 'eq' and bnd in (a, b):
                out.add('whole')
            else:
                out.add('other')
    return out


def starts(k, bind):
    """positions kept relative to a row or column become positions in the storage before the factors are split"""
    f, out = k.f, []
    tails = [i for i in k.calls if method(i) in ('compress_tails', 'compress_tail')]
    if len(tails) != 1:
        raise Undecided('%d calls that close the gaps' % len(tails))
    t = tails[0]
    fs = stepfields(k, t.ops[-1])
    out.append(('the gap that is closed is the number of deferrals', None if fs == {8} else '%s is passed as the number of deferrals' % ('the step' if fs == {0} else 'the position') if fs else Undecided('number of deferrals'), t))
    for side, o in k.mats.items():
        arr = bind.get(side + ' start')
        if arr is None:
            continue
        lab = 'start positions of %s refer to the storage' % side
        hit = None
        for s, e in k.stores_to(arr):
            if not after(k, s) or not f.reaches(s, t):
                continue
            ms, ss = shiftsrc(k, s.ops[0])
            if ms and ms != {o}:
                hit = 'the start positions of %s are shifted by those of %s' % (side, '/'.join(k.rmats[x] for x in ms))
                break
            if ms == {o}:
                i = f.ins.get(s.ops[0])
                hit = 'ok' if arr in ss else Undecided('shift')
                w = s
        if hit is None:
            hl = [c for c in k.calls if after(k, c) and f.reaches(c, t) and method(c) is None and arr in [k.base(x) for x in c.ops if x[0] in '%a' and isptr(f, x)]]
            hit = Undecided('helper') if hl else 'the start positions of %s are not turned into positions in the storage' % side
        out.append((lab, None if hit == 'ok' else hit, t))
    return out


def shiftsrc(k, v):
    """matrices and arrays whose elements are summed"""
    f, ms, ss = k.f, set(), set()
    st, n = [v], 0
    while st and n < 40:
        n += 1
        i = f.ins.get(st.pop())
        if i is None:
            continue
        if i.op == 'load':
            try:
                root, off = f.addr(i.ops[0])
            except Undecided:
                continue
            e = k.elem(i.ops[0])
            if e:
                (ms if e[0] in k.rmats else ss).add(e[0])
            elif root[0] == 'ld' and isinstance(root[1], tuple) and root[1][0] == 'call':
                c = f.ins.get(root[1][1])
                if c is not None and re.search(r'::(row_start|col_start|ind_start|start_ind)$', dname(c)) and k.base(c.ops[0]) in k.rmats:
                    ms.add(k.base(c.ops[0]))
        elif i.op in ('add', 'sext', 'zext', 'trunc'):
            st += i.ops
    return ms, ss


def lists(k):
    """the lists of deferred entries start as a copy of the whole permutation"""
    from crout import Search
    f, out = k.f, []
    S = Search(k)
    t = S.find_tails()
    head = f.blocks[k.header][0]
    for perm, arr in t.items():
        for s in f.ins.values():
            if s.op != 'store' or s.blk in k.mblocks:
                continue
            e = k.elem(s.ops[1])
            if not e or e[0] != arr or e[1] != 0 or not f.reaches(s, head):
                continue
            w = S.src(s.ops[0])
            lab = 'the list of deferred entries starts as a copy of its permutation'
            if not w or w[0] not in (k.p, k.q):
                out.append((lab, Undecided('source'), s))
                continue
            if w[0] != perm:
                out.append((lab, 'the list of one permutation starts as a copy of the other', s))
                continue
            ch = f.loop_chain(s.blk)
            try:
                tr = f.trips(ch[-1])
            except (Undecided, IndexError):
                out.append((lab, Undecided('length'), s))
                continue
            slots = set()
            for a in atoms(tr):
                slots |= slotsof(f, a)
            if not slots:
                out.append((lab, Undecided('length'), s))
                continue
            lead = {x for x in slots if any(so.blk in k.mblocks for so, _ in f.alloca_stores(('alloca', x)))}
            out.append((lab, 'only the leading part of the permutation is copied' if lead or slots & boundslots(k) else None, s))
    return out


def atoms(l):
    out = []
    for a in l.t:
        if isinstance(a, tuple) and a[0] in ('min', 'max', 'umin', 'umax', 'smin', 'smax'):
            for x in re.findall(r"\('(ld)', \('alloca', '(%\d+)'\)|\('phi', '(%\d+)'\)", repr(a)):
                out.append(('alloca', x[1]) if x[0] else ('phi', x[2]))
        elif isinstance(a, tuple) and a[0] == 'ld' and isinstance(a[1], tuple) and a[1][0] == 'alloca':
            out.append(('alloca', a[1][1]))
        elif isinstance(a, tuple) and a[0] == 'phi':
            out.append(('phi', a[1]))
    return out


def slotsof(f, a, depth=0):
    if a[0] == 'alloca':
        return {a[1]}
    out = set()
    i = f.ins.get(a[1])
    for o in (i.ops if i is not None and depth < 4 else ()):
        j = f.ins.get(o)
        if j is None:
            continue
        if j.op == 'phi':
            out |= slotsof(f, ('phi', o), depth + 1)
        elif j.op == 'load':
            try:
                r, _ = f.addr(j.ops[0])
            except Undecided:
                continue
            if r[0] == 'alloca':
                out.add(r[1])
    return out


def boundslots(k):
    """slots of numbers the position is compared with"""
    f, out = k.f, set()
    for i in f.ins.values():
        if i.op == 'icmp' and i.blk in k.mblocks:
            j = next((j for j in (0, 1) if stepfields(k, i.ops[j]) == {0, 8}), None)
            v = f.ins.get(i.ops[1 - j]) if j is not None else None
            if v is not None and v.op == 'load':
                try:
                    r, _ = f.addr(v.ops[0])
                except Undecided:
                    continue
                if r[0] == 'alloca':
                    out.add(r[1])
    return out


def run(k):
    """[(rule, label, problem or Undecided or None, ins)]"""
    vec = vectors(k)
    out = []
    bind = {}
    for rule, fn in (('feed', lambda: roles(k)), ('order', lambda: order(k, vec)), ('feed', lambda: ranges(k, vec)), ('feed', lambda: bound(k, bind)),
                     ('feed', lambda: offsets(k, bind)), ('feed', lambda: starts(k, bind)), ('feed', lambda: lists(k))):
        try:
            r = fn()
        except Undecided as e:
            out.append((rule, rule, e, None))
            continue
        if isinstance(r, tuple):
            r, bind = r
        out += [(rule,) + x for x in r]
    return out


def body(rep, w):
    import cruns
    rep.rule('feed', 'the elimination loops hand each step method the object that plays the role of the argument: factor, start positions, lists, diagonal, computed row and column')
    rep.rule('order', 'on every path of a step the row and column are computed, scaled, used for the diagonal, dropped from, sorted and stored, and the lists of the factors advance')
    n = 0
    for mode, prog in cruns.programs(w, omp=False):
        for f in cruns.kernels(prog):
            what = cruns.what(f, mode)
            try:
                res = run(K(f))
            except Bad as e:
                rep.bad('feed', what, str(e), e.ins.loc if e.ins is not None else f.dem)
                continue
            except Undecided as e:
                rep.und('feed', what, e)
                continue
            n += 1
            for rule, label, msg, ins in res:
                if isinstance(msg, Undecided):
                    rep.und(rule, '%s: %s' % (what, label), msg)
                elif msg:
                    rep.bad(rule, '%s: %s' % (what, label), msg, ins.loc if ins is not None else f.dem)
                else:
                    rep.ok(rule, '%s: %s' % (what, label), str(ins.loc) if ins is not None else '')
    rep.need('feed', n, 6, 'kernels')
