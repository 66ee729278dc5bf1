import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vt, verb
from ir import Undecided

ANCH = re.compile(r'^(hif::HIF::(factorize|_factorize_kernel)|hif::\w*level_factorize|hif::(do_preprocessing|run_amd|run_rcm)|hif::internal::do_maching|'
                  r'hif::(internal::)?(EqlDriver|EqlPseudoDriver|RealDriver)\w*::do_matching|hif::(QRCP|LUP|SYEIG)::(re)?factorize|hif::do_maching)$')
CONST = re.compile(r'\) const$')


def mutates(i, dem):
    """does the routine change what its pointer arguments designate?"""
    b = verb.base(dem)
    if b.endswith('::check_validity'):
        return True         # it fails on invalid data
    if CONST.search(dem):
        return False
    if re.match(r'hif::Array::(resize|reserve|operator=)|hif::.*::(build_inv|make_eye|make_ones|destroy|resize|reserve|push_back\w*|assign\w*|sort\w*|restore\w*|reset\w*|scale_\w+|'
                r'factorize|refactorize|set_matrix|apply|order|do_matching|update\w*|defer_entry|split\w*|compress\w*)$|std::(sort|fill|copy|swap|replace_if|__introsort\w*)|'
                r'.*::(emplace_back|push_back|clear|erase|pop_back|_M_\w*(insert|erase|clear)\w*)$|'
                r'hif::(internal::|mt::)?(apply_num_dropping|apply_space_dropping|drop_\w+|do_preprocessing|do_maching|\w*level_factorize|compute_\w+)$', b):
        return True
    if b.startswith('hif::') and not re.search(r'::(size|nnz\w*|nrows|ncols|status|data|begin|end|cbegin|cend|rank|empty|mat|time|start|finish)$', b):
        return True
    return None


def body(rep, w):
    rep.rule('region', 'whatever is executed depending on the verbosity prints only: no write to data that outlives the printing, no call that changes data, no early end')
    rep.rule('data', 'no value computed from the verbosity is stored, returned or handed to a computation')
    rep.rule('streams', 'the kernels instantiated for the printing and for the silent stream are the same program')
    cfg = open(os.path.join(vt.VERIF, 'cfg', 'verb.cfg')).read()
    prog = w.dump(w.lower('tus/verb.cpp', []), cfg)
    fs = [f for f in prog.functions if ANCH.match(verb.base(f.dem))]
    nsrc = 0

    def is_source(f, i):
        try:
            r, off = f.addr(i.ops[0])
            if not off.is_const():
                return False
            fo = f.field_of(r, off.c)
        except Undecided:
            return False
        return bool(fo) and fo.split('.')[-1] == 'verbose' and '.' in fo
    by = {}
    for f in fs:
        by.setdefault(f.name, f)
    params, retd = {}, {}
    done = {}
    todo = list(fs)
    # globals used below verbosity only
    gl = {}

    def gl_ok(name):
        return gl.get(name, False)
    for rnd in range(4):
        for f in todo:
            src = is_source
            fl = verb.Flow(f, lambda g, i: src(g, i), params.get(f.name, ()))
            fl.prog_globals = prog.globals
            done[f.name] = fl
        # a global whose every load and store lies in dark regions or is itself only tested there
        acc = {}
        for f in prog.functions:
            fl = done.get(f.name)
            for i in f.ins.values():
                for k, o in enumerate(i.ops):
                    if o.startswith('g:') or o.startswith('go:'):
                        n = o[2:] if o.startswith('g:') else o[3:].rsplit(':', 1)[0]
                        acc.setdefault(n, []).append(fl is not None and (i.blk in fl.inreg or i.op == 'load' and fl.tested_only(i.id)))
        gl = {n: all(l) for n, l in acc.items()}
        new = False
        for n, fl in list(done.items()):
            res = fl.check(mutates, gl_ok)
            fl.res = res
            for i, k in fl.calls:
                t = by.get(i.get('callee'))
                if t is not None:
                    a = 'a%d' % k
                    if a not in params.get(t.name, ()):
                        params.setdefault(t.name, set()).add(a)
                        new = True
        if not new:
            break
        todo = [by[n] for n in params if n in by]
    for n, fl in done.items():
        f = fl.f
        nm = re.sub(r'hif::|std::', '', verb.base(f.dem)) + tag(f)
        nsrc += fl.src
        rep_done = set()
        for kind, text, ins, t in fl.res:
            rule = 'region' if t.op in ('br', 'switch') else 'data'
            what = '%s: %s' % (nm, t.loc if kind == 'ok' else t.loc.split(':')[0] + ' ' + text)
            if kind == 'ok':
                rep.ok(rule, what, text)
            elif kind == 'und':
                rep.und(rule, what, '%s [%s]' % (text, ins.loc))
            else:
                rep.bad(rule, what, text, ins.loc)
        bad = False
        for i, k in fl.calls:
            if i.get('callee') in by:
                continue
            c = verb.base(i.get('cdem') or '?')
            rep.und('data', '%s: argument %d of %s' % (nm, k, c), 'the routine is not analysed [%s]' % i.loc)
            bad = True
        if fl.returned is not None:
            rep.bad('data', nm + ': returned value', 'the result depends on the verbosity', fl.returned.loc)
        elif fl.dark and not bad and not any(k == 'bad' for k, _, _, t in fl.res if t.op not in ('br', 'switch')):
            rep.ok('data', nm, '%d values depend on the verbosity, none is kept' % len(fl.dark))
    # printing and silent kernels
    pairs = {}
    for f in fs:
        if 'StdoutStruct' in f.dem or 'DummyStreamer' in f.dem:
            pairs.setdefault(re.sub('StdoutStruct|DummyStreamer', '@', f.dem), {})['StdoutStruct' if 'StdoutStruct' in f.dem else 'DummyStreamer'] = f
    m = 0
    for k, d in pairs.items():
        if len(d) != 2:
            continue
        a, b = d['StdoutStruct'], d['DummyStreamer']
        nm = re.sub(r'hif::|std::', '', verb.base(a.dem)) + tag(a)
        why = same(a, b)
        m += 1
        if why:
            rep.und('streams', nm, why)
        else:
            rep.ok('streams', nm, '%d blocks' % len(a.blocks))
    rep.extra['sources'] = nsrc
    rep.extra['functions'] = sorted({verb.base(f.dem) for f in fs})
    rep.need('region', nsrc, 40, 'loads of the verbosity')


def tag(f):
    m = re.search(r'<(true|false)', f.dem)
    return (' <%s>' % m.group(1) if m and 'level_factorize<' in f.dem else '') + (' complex' if 'std::complex' in f.dem else ' real') + \
        (', silent' if 'DummyStreamer' in f.dem else ', printing' if 'StdoutStruct' in f.dem else '')


def isprint(c):
    return verb.PRINT.match(c) or verb.PRINT.match(verb.base(c))


def same(a, b):
    """equal up to the streamer calls"""
    def seq(f):
        live, wl = set(), []
        for i in f.ins.values():
            c = i.get('cdem') or ''
            if i.op in ('store', 'br', 'switch', 'ret') or i.op in ('call', 'invoke') and not isprint(c) and not verb.READ.match(c):
                wl.append(i)
        while wl:
            i = wl.pop()
            if i.id in live:
                continue
            live.add(i.id)
            for o in list(i.ops) + ([i.get('base')] + [v for v, _ in i.get('var', [])] if i.op == 'getelementptr' else []):
                if o in f.ins:
                    wl.append(f.ins[o])
        return [r for r in (tuple((i.op, verb.base(i.get('cdem') or '')) for i in f.blocks[b] if i.id in live) for b in sorted(f.blocks)) if r]
    x, y = seq(a), seq(b)
    if len(x) != len(y):
        return 'they have %d and %d blocks' % (len(x), len(y))
    for p, q in zip(x, y):
        if p != q:
            return 'they differ in a block'
    return None


vt.main('P13', body)
