"""Agreement of the option structure with every table and routine that knows its fields."""
import re
import events
from ir import Lin, Undecided, untup
from spec import SFunc

INF = float('inf')
# documented defaults
DEFAULTS = {'tau_L': 1e-4, 'tau_U': 1e-4, 'kappa_d': 3, 'kappa': 3, 'alpha_L': 10, 'alpha_U': 10, 'rho': .5, 'c_d': 10, 'c_h': 2, 'N': -1,
            'verbose': 1, 'rf_par': 1, 'reorder': 2, 'spd': 0, 'check': 1, 'pre_scale': 0, 'symm_pre_lvls': -2, 'threads': 0, 'mumps_blr': 1,
            'fat_schur_1st': 0, 'rrqr_cond': 0, 'pivot': 2, 'gamma': 1, 'beta': 1e3, 'is_symm': 0, 'no_pre': 0, 'nzp_thres': .65,
            'dense_thres': 2000}
CPOS = ['tau_L', 'tau_U', 'kappa_d', 'kappa', 'alpha_L', 'alpha_U', 'verbose', 'reorder', 'symm_pre_lvls', 'threads', 'rrqr_cond', 'pivot',
        'beta', 'is_symm', 'no_pre', 'nzp_thres', 'dense_thres']
CODES = ['VERBOSE_NONE', 'VERBOSE_INFO', 'VERBOSE_PRE', 'VERBOSE_FAC', 'VERBOSE_PRE_TIME', 'VERBOSE_MEM', 'REORDER_OFF', 'REORDER_AUTO',
         'REORDER_AMD', 'REORDER_RCM', 'PIVOTING_OFF', 'PIVOTING_ON', 'PIVOTING_AUTO']
FLAGS = {1: 'warning', 2: 'info', 4: 'pre', 8: 'fac', 16: 'pre_time', 32: 'mem', 64: 'info2'}
HIDDEN = {'mumps_blr'}      # deprecated, not shown


def fields(f, argi):
    """[(name, byte offset, 'double'|'int')] of the option structure in declaration order"""
    ty = f.types
    t = ty.pointee(f.args[argi]['dty'])
    out = []
    for e in t.get('el', []):
        m = ty.l[e]
        if m['tag'] == 'DW_TAG_member':
            b = ty.strip(m['base'])
            out.append((m['name'], m['off'], b.get('name')))
    return out


def uncast(f, v):
    while v in f.ins and f.ins[v].op in ('fptosi', 'sitofp', 'sext', 'trunc', 'zext', 'fpext', 'fptrunc', 'freeze'):
        v = f.ins[v].ops[0]
    return v


def distorts(f, v):
    """the value is computed by arithmetic or a comparison instead of being passed on"""
    return v in f.ins and f.ins[v].op in ('fcmp', 'icmp', 'fmul', 'fadd', 'fsub', 'fdiv', 'fneg', 'add', 'sub', 'mul', 'shl', 'and', 'or', 'xor')


def stores(sf, argi):
    """live stores into the object of a parameter"""
    out = []
    live = sf.returning()
    for b in sf.rpo():
        if b not in live:
            continue
        for i in sf.blocks[b]:
            if i.op == 'store':
                try:
                    r, o = sf.addr(i.ops[1])
                except Undecided:
                    continue
                if r == ('arg', argi):
                    out.append((o, i))
            elif i.op == 'call' and re.match(r'llvm\.mem(cpy|move|set)', i.get('callee') or ''):
                try:
                    r, o = sf.addr(i.ops[0])
                except Undecided:
                    continue
                if r == ('arg', argi):
                    out.append((None, i))
    return out


class Pos(SFunc):
    def aname(self, a):
        if a[0] == 'ld' and a[1][0] == 'call':
            i = self.ins.get(a[1][1])
            if i is not None and re.search(r'unordered_map<.*>::at\(', i.get('cdem') or '') and untup(a[2]) == Lin(0):
                return 'pos'
        return SFunc.aname(self, a)


def setter(rep, f, fl):
    """setting by position k stores the value given into field k and nothing else"""
    n = 0
    for k, (name, off, ty) in enumerate(fl):
        n += 1
        w = '%s, position %d (%s)' % (f.dem.split('(')[0].replace('Opts::', ''), k, name)
        sf = Pos(f, {'pos': k}, [])
        st = stores(sf, 2)
        if any(o is None or not o.is_const() for o, i in st):
            rep.und('set', w, 'store at a computed offset')
            continue
        cond = any(len(set(sf.succ[b])) > 1 for b in sf.returning())
        offs = sorted({o.c for o, i in st})
        if offs != [off]:
            if cond:
                rep.und('set', w, 'the position does not decide the branch')
            elif not offs:
                rep.bad('set', w, 'no option is set', f.dem.split('(')[0])
            else:
                rep.bad('set', w, 'sets %s' % ', '.join(x[0] for x in fl if x[1] in offs), st[0][1].loc)
            continue
        v = uncast(sf, st[-1][1].ops[0])
        sty = st[-1][1].get('sty')
        if distorts(sf, v):
            rep.bad('set', w, 'another value than the one given is stored', st[-1][1].loc)
        elif v != 'a1':
            rep.und('set', w, 'value %s' % v)
        elif sty and sty != {'double': 'double', 'int': 'i32'}[ty]:
            rep.bad('set', w, 'is written as %s' % sty, st[-1][1].loc)
        else:
            rep.ok('set', w, 'field at byte %d' % off)
    # the value returned: false unless the name is unknown
    sf = Pos(f, {}, [])
    vals = set()
    for b in sf.returning():
        t = sf.blocks[b][-1]
        if t.op == 'ret':
            vals.add(sf.truth(t.ops[0]))
    w = f.dem.split('(')[0].replace('Opts::', '') + ', known name'
    if vals == {False}:
        rep.ok('set', w, 'reports success')
    elif vals == {True}:
        rep.bad('set', w, 'reports failure', f.dem.split('(')[0])
    else:
        rep.und('set', w, 'value %s' % vals)
    return n


def tags(rep, p, fl):
    """the name table maps every field name to its position"""
    got = {}
    unknown = False
    at = '?'
    for f in p.find('^__cxx_global_var_init'):
        sf = SFunc(f, {}, [])
        cs = events.calls(sf, p.globals, lambda nm: re.match(r'std::pair<std::__cxx11::basic_string<.*> const, int>::pair<', nm))
        for c in cs:
            s = i = None
            for a in c.args[1:]:
                if a.kind == 'mem' and a.v[0] == 'global' and 'str' in p.globals.get(a.v[1], {}):
                    s = p.globals[a.v[1]]['str']
                elif a.kind == 'int' and a.v.is_const():
                    i = a.v.c
            if s is None or i is None:
                unknown = True
                continue
            got.setdefault(s, set()).add(i)
            at = c.ins.loc
    for k, (name, off, ty) in enumerate(fl):
        w = 'option_tag2pos[%s]' % name
        if name not in got:
            (rep.und if unknown or not got else rep.bad)('names', w, 'the name is not in the table')
        elif got[name] != {k}:
            rep.bad('names', w, 'maps to %s, the field is number %d' % (sorted(got[name]), k), at)
        else:
            rep.ok('names', w, k)
    for s in sorted(set(got) - {x[0] for x in fl}):
        rep.bad('names', 'option_tag2pos[%s]' % s, 'no such option', at)
    return len(got)


def dtypes(rep, p, fl):
    g = [x for x in p.globals.values() if x['dem'].endswith('::option_dtypes')]
    if len(g) != 1:
        rep.und('types', 'option_dtypes', 'table not found')
        return 0
    g = g[0]
    if 'ints' in g:
        v = [bool(x) for x in g['ints']]
    else:
        n = int(re.match(r'\[(\d+) x', g['ty']).group(1))
        v = [bool(ord(c)) for c in g.get('str', '')]
        v += [False] * (n - len(v))
    if len(v) != len(fl):
        rep.bad('types', 'option_dtypes', '%d entries for %d options' % (len(v), len(fl)), '%s:%s' % (g.get('file'), g.get('line')))
        return 1
    for k, (name, off, ty) in enumerate(fl):
        w = 'option_dtypes[%d] (%s)' % (k, name)
        if v[k] == (ty == 'double'):
            rep.ok('types', w, ty)
        else:
            rep.bad('types', w, 'declares %s, the field is %s' % ('double' if v[k] else 'int', ty), '%s:%s' % (g.get('file'), g.get('line')))
    return len(v)


def reader(rep, f, fl):
    sf = SFunc(f, {}, [])
    cs = events.calls(sf, {}, lambda nm: re.search(r'operator>>\(|_M_extract<', nm))
    seq = []
    for c in cs:
        a = c.args[-1]
        if a.kind != 'mem' or a.v != ('arg', 1) or a.off is None or not a.off.is_const():
            rep.und('read', 'operator>>', 'target %r' % a)
            return 0
        m = re.search(r'operator>>\((double|int)&\)|_M_extract<(double|int)>', c.name)
        seq.append((a.off.c, m and (m.group(1) or m.group(2)), c))
    if any(len(set(sf.succ[b])) > 1 for b in sf.returning()) and len(seq) != len(fl):
        rep.und('read', 'operator>>', 'conditional')
        return len(seq)
    offs = [o for o, t, c in seq]
    name = {o: n for n, o, t in fl}
    miss = [n for n, o, t in fl if o not in offs]
    for n in miss:
        rep.bad('read', 'operator>> ' + n, 'the option is never read', f.dem.split('(')[0])
    if not miss:
        for k, (n, o, t) in enumerate(fl):
            w = 'operator>> ' + n
            if len(offs) != len(fl):
                rep.bad('read', w, '%d values are read for %d options' % (len(offs), len(fl)), seq[-1][2].ins.loc)
                break
            if offs[k] != o:
                rep.bad('read', w, 'value %d goes to %s' % (k + 1, name.get(offs[k])), seq[k][2].ins.loc)
            elif seq[k][1] and seq[k][1] != t:
                rep.bad('read', w, 'is read as %s' % seq[k][1], seq[k][2].ins.loc)
            else:
                rep.ok('read', w, 'value %d' % (k + 1))
    return len(seq)


def const(v):
    if v.startswith('d:'):
        return float(v[2:])
    if v.startswith('c:'):
        return float(int(v[2:]))
    return None


def defaults(rep, f, fl):
    sf = SFunc(f, {}, [])
    got = {}
    for o, i in stores(sf, 0):
        if o is None or not o.is_const():
            rep.und('default', f.dem, 'object copied as a whole')
            return
        got[o.c] = i
    for n, o, t in fl:
        w = '%s, %s' % (f.dem.split('(')[0].replace('Opts::', ''), n)
        if n not in DEFAULTS:
            rep.und('default', w, 'no documented default')
            continue
        i = got.get(o)
        v = const(i.ops[0]) if i is not None else None
        if i is None:
            rep.und('default', w, 'not stored')
        elif v is None:
            rep.und('default', w, 'value %s' % i.ops[0])
        elif v != DEFAULTS[n]:
            rep.bad('default', w, 'is %g, documented %g' % (v, DEFAULTS[n]), i.loc)
        else:
            rep.ok('default', w, '%g' % v)


def walk(n):
    yield n
    for c in n.get('inner', []):
        if isinstance(c, dict):
            for x in walk(c):
                yield x


def members(n):
    return {x.get('name') for x in walk(n) if x.get('kind') == 'MemberExpr'}


def representation(rep, w, fl, src):
    """every 'name' handed to a packer goes with exactly the field of that name"""
    docs = w.ast(src, 'opt_repr')
    fn = [d for d in docs if d.get('kind') == 'FunctionDecl' and d.get('name') == 'opt_repr' and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', []))]
    if len(fn) != 1:
        rep.und('represent', 'opt_repr', 'definition not found')
        return 0
    names = {x[0] for x in fl}
    uses = {}
    for c in walk(fn[0]):
        if c.get('kind') not in ('CXXOperatorCallExpr', 'CallExpr', 'CXXMemberCallExpr'):
            continue
        args = c.get('inner', [])
        if len(args) < 2:
            continue
        lit = [[s.get('value', '').strip('"') for s in walk(a) if s.get('kind') == 'StringLiteral'] for a in args[1:]]
        for k, l in enumerate(lit):
            a = args[k + 1]
            if len(l) == 1 and l[0] in names and not members(a) & names and not any(x.get('kind') in ('LambdaExpr', 'CXXOperatorCallExpr', 'CallExpr') for x in walk(a)):
                rest = [x for j, x in enumerate(args[1:]) if j > k]
                fs = set()
                und = False
                for r in rest:
                    fs |= members(r) & names
                    for x in walk(r):
                        if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
                            g = reads(w, src, x['referencedDecl'].get('name'))
                            if g is None:
                                und = True
                            else:
                                fs |= g & names
                uses.setdefault(l[0], []).append((fs, und, c))
    for n, o, t in fl:
        what = 'opt_repr "%s"' % n
        if n not in uses:
            if n in HIDDEN:
                continue
            (rep.bad if uses else rep.und)('represent', what, 'the option is not shown')
            continue
        for fs, und, c in uses[n]:
            at = 'src/hif/Options.h'
            if fs == {n}:
                rep.ok('represent', what, n)
            elif fs and n not in fs and not und:
                rep.bad('represent', what, 'shows %s' % ', '.join(sorted(fs)), at)
            else:
                rep.und('represent', what, 'reads %s' % sorted(fs))
    return len(uses)


def reads(w, src, name, seen=None, cache={}):
    """option fields a function reads, through the functions it calls"""
    seen = seen or set()
    if name in seen or name.startswith('operator'):
        return set()
    if name in cache:
        return cache[name]
    out = None
    for d in w.ast(src, name):
        if d.get('kind') == 'FunctionDecl' and d.get('name') == name and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
            out = (out or set()) | members(d)
            for x in walk(d):
                if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
                    n2 = x['referencedDecl'].get('name')
                    if n2 and n2.startswith('hif_'):
                        out |= reads(w, src, n2, seen | {name}) or set()
    cache[name] = out
    return out


def verbose_name(rep, p, f):
    """each verbosity flag contributes its own word, whatever other flags are set"""
    a = 'o.verbose'
    n = 0
    for x in sorted(FLAGS):
        for y in sorted(FLAGS):
            if y < x:
                continue
            v = x | y
            sf = SFunc(f, {a: v}, [])
            words = set()
            cs = events.calls(sf, p.globals, lambda nm: re.search(r'basic_string<.*>::(operator\+?=|append|assign|basic_string)', nm) or 'operator+' in nm)
            for c in cs:
                for r in c.args:
                    if r.kind == 'mem' and r.v[0] == 'global' and 'str' in p.globals.get(r.v[1], {}):
                        words |= {t for t in re.split(r'[^A-Za-z0-9_]+', p.globals[r.v[1]]['str']) if t}
            want = {FLAGS[x], FLAGS[y]}
            w = 'get_verbose, %s' % '|'.join(sorted(want))
            n += 1
            extra = words - want
            if want <= words and not extra:
                rep.ok('verbose', w, ','.join(sorted(words)))
            elif not want <= words and cs:
                rep.bad('verbose', w, '%s missing' % ','.join(sorted(want - words)), f.dem.split('(')[0])
            elif extra & set(FLAGS.values()):
                rep.bad('verbose', w, 'also shows %s' % ','.join(sorted(extra)), f.dem.split('(')[0])
            else:
                rep.und('verbose', w, 'words %s' % sorted(words))
    return n


def enable(rep, f, fl):
    off = {n: o for n, o, t in fl}['verbose']
    for what, fact, want in (('positive flag', (1, INF), 'or'), ('no flag', (-INF, 0), 'zero')):
        sf = SFunc(f, {}, [({f.args[0].get('var') or f.args[0]['name']: 1},) + fact])
        st = stores(sf, 1)
        w = 'enable_verbose, ' + what
        if len(st) != 1 or st[0][0] is None:
            (rep.bad if not st else rep.und)('verbose', w, '%d stores' % len(st))
            continue
        o, i = st[0]
        if o != Lin(off):
            rep.bad('verbose', w, 'changes another option', i.loc)
            continue
        v = i.ops[0]
        if want == 'zero':
            ok = v == 'c:0'
        else:
            q = sf.ins.get(v)
            ok = q is not None and q.op == 'or' and 'a0' in q.ops and any(x in sf.ins and sf.ins[x].op == 'load' and sf.addr(sf.ins[x].ops[0]) == (('arg', 1), Lin(off)) for x in q.ops)
            if q is not None and not ok and q.op not in ('or', 'add', 'xor', 'and') and v != 'a0':
                rep.und('verbose', w, 'value %s' % v)
                continue
        if ok:
            rep.ok('verbose', w, want)
        else:
            rep.bad('verbose', w, 'stores another value', i.loc)


def reorder_name(rep, p, f):
    words = {0: 'Off', 1: 'Auto', 2: 'AMD', 3: 'RCM', 4: 'Null'}
    for k, word in words.items():
        sf = SFunc(f, {'o.reorder': k}, [])
        vals = set()
        for b in sf.returning():
            t = sf.blocks[b][-1]
            if t.op == 'ret':
                try:
                    r, o = sf.addr(t.ops[0])
                    vals.add(p.globals.get(r[1], {}).get('str') if r[0] == 'global' and o == Lin(0) else None)
                except Undecided:
                    vals.add(None)
        w = 'hif_get_reorder_name, %s' % word
        if vals == {word}:
            rep.ok('reorder', w, word)
        elif None in vals or len(vals) != 1:
            rep.und('reorder', w, str(vals))
        else:
            rep.bad('reorder', w, 'named %s' % vals.pop(), f.dem.split('(')[0])


def c_array(rep, p, fl):
    """the C parameter array: every position stands for one option, in both directions"""
    g = p.globals
    pos = g['lhf_pos']['ints']
    if sorted(pos[:-1]) != list(range(pos[-1])):
        rep.bad('c positions', 'LHF parameter positions', 'positions %s are not the first %d' % (pos[:-1], pos[-1]))
        return 0
    for nm, k in zip(CPOS, pos):
        rep.ok('c positions', 'position of ' + nm, k)
    for nm, a, b, c in zip(CODES, g['lhf_codes']['ints'], g['core_codes']['ints'], g['base_codes']['ints']):
        if a == b == c:
            rep.ok('c codes', 'LHF_' + nm, a)
        else:
            rep.bad('c codes', 'LHF_' + nm, 'is %d in the C interface, %d and %d in the core' % (a, b, c), 'libhifir/include/libhifir.h')
    off = {n: o for n, o, t in fl}
    typ = {n: t for n, o, t in fl}
    f = p.find('^COpts::create')[0]
    sf = SFunc(f, {}, [])
    st = stores(sf, 0)
    if any(o is None or not o.is_const() for o, i in st):
        rep.und('c array', 'create_params', 'object copied as a whole')
    else:
        final = {}
        for o, i in st:
            final[o.c] = i
        cond = any(len(set(sf.succ[b])) > 1 for b in sf.returning())
        for n, o, t in fl:
            i = final.get(o)
            w = 'create_params, %s' % n
            if i is None:
                rep.und('c array', w, 'not stored')
                continue
            v = uncast(sf, i.ops[0])
            if n in CPOS:
                k = pos[CPOS.index(n)]
                if v in sf.ins and sf.ins[v].op == 'load':
                    r, a = sf.addr(sf.ins[v].ops[0])
                    if r == ('arg', 1) and a == Lin(8 * k):
                        (rep.und if cond else rep.ok)('c array', w, 'params[%d]' % k)
                    elif r == ('arg', 1) and a.is_const():
                        rep.bad('c array', w, 'is taken from position %d (%s)' % (a.c // 8, CPOS[pos.index(a.c // 8)] if a.c // 8 in pos[:-1] else '?'), i.loc)
                    else:
                        rep.und('c array', w, 'value %s' % (a,))
                elif distorts(sf, v):
                    rep.bad('c array', w, 'gets another value than the parameter given', i.loc)
                elif const(v) is not None:
                    (rep.und if cond else rep.bad)('c array', w, 'the parameter given is ignored', i.loc)
                else:
                    rep.und('c array', w, 'value %s' % v)
            else:
                c = const(v)
                if c is None:
                    rep.und('c array', w, 'value %s' % v) if not (v in sf.ins and sf.ins[v].op == 'load') else rep.bad('c array', w, 'an option without a position is taken from the array', i.loc)
                elif c == DEFAULTS.get(n):
                    rep.ok('c array', w, 'default')
                else:
                    rep.bad('c array', w, 'is %g instead of the default' % c, i.loc)
    f = p.find('^lhfSetDefaultParams')[0]
    sf = SFunc(f, {}, [])
    got = {o.c: i for o, i in stores(sf, 0) if o is not None and o.is_const()}
    for n, k in zip(CPOS, pos):
        w = 'lhfSetDefaultParams, %s' % n
        i = got.get(8 * k)
        if i is None:
            (rep.bad if len(got) >= len(CPOS) - 1 else rep.und)('c array', w, 'the position is not set', f.dem)
            continue
        v = uncast(sf, i.ops[0])
        if const(v) is not None:
            (rep.ok if const(v) == DEFAULTS[n] else rep.bad)('c array', w, '%g' % const(v))
            continue
        if v not in sf.ins or sf.ins[v].op != 'load':
            rep.und('c array', w, 'value %s' % v)
            continue
        r, a = sf.addr(sf.ins[v].ops[0])
        if r[0] == 'global' and a == Lin(off[n]):
            rep.ok('c array', w, 'default of the core')
        elif r[0] == 'global' and a.is_const():
            rep.bad('c array', w, 'gets the default of %s' % [x for x in off if off[x] == a.c], i.loc)
        else:
            rep.und('c array', w, 'value %s' % (a,))
    for fn, ns in (('lhfSetDroptol', ('tau_L', 'tau_U')), ('lhfSetAlpha', ('alpha_L', 'alpha_U')), ('lhfSetKappa', ('kappa', 'kappa_d'))):
        f = p.find('^%s' % fn)[0]
        sf = SFunc(f, {}, [])
        st = stores(sf, 1)
        want = sorted(8 * pos[CPOS.index(n)] for n in ns)
        got = sorted(o.c for o, i in st if o is not None and o.is_const())
        if len(got) != len(st):
            rep.und('c array', fn, 'store at a computed position')
        elif sorted(set(got)) != want:
            rep.bad('c array', fn, 'sets positions %s instead of %s' % ([x // 8 for x in got], [x // 8 for x in want]), st[0][1].loc if st else fn)
        elif all(uncast(sf, i.ops[0]) == 'a0' for o, i in st):
            rep.ok('c array', fn, '%s and %s' % ns)
        else:
            rep.und('c array', fn, 'value stored')
    return len(pos) - 1
