import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import concurrent.futures as cf
import vt, astq

OMP = ('-fopenmp', '-I', os.path.join(vt.VERIF, 'tus', 'omp'))
# the configurations the library documents (src/hif/macros.hpp and the macros tested in the headers)
CONFIGS = [('default', ()), ('threads', OMP), ('HIF_DEBUG', ('-DHIF_DEBUG',)), ('HIF_THROW', ('-DHIF_THROW',)), ('HIF_DENSE_MODE=0', ('-DHIF_DENSE_MODE=0',)),
           ('HIF_HIGH_PRECISION_SOLVE', ('-DHIF_HIGH_PRECISION_SOLVE',)), ('HIF_TQRCP_USE_1NORM', ('-DHIF_TQRCP_USE_1NORM',)),
           ('HIF_DISABLE_SPACE_DROP', ('-DHIF_DISABLE_SPACE_DROP',)), ('HIF_NO_DROP_LE_UF', ('-DHIF_NO_DROP_LE_UF',)), ('C++17', ('-std=c++17',))]
WITNESS = {'tus/all.cpp': 'explicit instantiation of the class templates', 'tus/calls.cpp': 'calls of the member and function templates'}


def body(rep, w):
    rep.rule('instantiate', 'every member of every class template and every function template is well formed for every supported scalar, index and storage type, in every configuration')
    rep.rule('alias', 'an alias template names the type its parameters describe')
    astq.ensure()
    jobs = [(tu, c, f) for c, f in CONFIGS for tu in WITNESS]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: astq.run(j[0], j[2]), jobs))
    inst, meta, seen = {}, {}, set()
    src = {t: open(os.path.join(vt.VERIF, t)).read().split('\n') for t in WITNESS}
    for (tu, c, f), d in zip(jobs, res):
        es = d['errors']
        for i, e in enumerate(es):
            if e['kind'] != 'error':
                continue
            at, m = e['loc'], e['msg']
            if os.path.abspath(at.rsplit(':', 1)[0]) == os.path.join(vt.VERIF, tu):
                # the call itself is rejected: name the declaration it should have matched
                ln = int(at.rsplit(':', 1)[1])
                decl = next((n['loc'] for n in es[i + 1:] if n['kind'] == 'note' and n['loc'].startswith(vt.REPO)), None)
                m = '%s [%s: %s]' % (m, WITNESS[tu], src[tu][ln - 1].strip()[:160])
                rule, at = ('alias' if 'same<' in m else 'instantiate'), decl or at
            else:
                rule = 'instantiate'
                if not at.startswith(vt.REPO):
                    at = next((n['loc'] for n in es[i + 1:] if n['kind'] == 'note' and n['loc'].startswith(vt.REPO)), at)
            if (rule, at) in seen:
                continue
            seen.add((rule, at))
            rep.bad(rule, astq.rel(at), '%s (configuration %s)' % (m, c), astq.rel(at))
        for fn in d['functions']:
            if fn['tmpl'] and fn['body'] and not fn['deleted']:
                meta[fn['loc']] = fn
                if fn['inst']:
                    inst.setdefault(fn['loc'], set()).add(c)
    for l in sorted(meta):
        if l in inst:
            rep.ok('instantiate', meta[l]['name'], '%s, in %d configurations' % (astq.rel(l), len(inst[l])))
        else:
            rep.und('instantiate', meta[l]['name'], '%s: %s' % (astq.rel(l), 'not used by the witness' if meta[l]['pub'] else 'internal, used by nothing the witness calls'))
    n = sum(1 for x in src['tus/calls.cpp'] for _ in re.findall(r'same<[^;]*::ok\(\)', x))
    for k in range(n):
        rep.ok('alias', 'alias %d' % (k + 1), 'in %d configurations, 8 combinations of types' % len(CONFIGS))
    rep.extra['functions of templates'] = len(meta)
    rep.extra['instantiated by the witness'] = len(inst)
    rep.extra['configurations'] = [c for c, _ in CONFIGS]
    rep.need('instantiate', len(meta), 500, 'functions of templates')


if __name__ == '__main__':
    vt.main('P23', body)
