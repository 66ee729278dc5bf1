import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from concurrent import futures
import vt, astq

# the documented process-wide switches: function or object, and what they are
SWITCH = {
    'hif::warn_flag::enabled': 'warning flag',
    'hif::internal::introduced': 'introduction banner printed',
    'hif::mt::get_nthreads::_nthreads': 'number of threads',
    'libhifir_impl::error_msgs': 'error message buffer of the C interface',
}
# calls whose value is not determined by the arguments
SOURCES = re.compile(r'^(std::)?(rand|srand|random|srandom|drand48|lrand48|rand_r|time|clock|clock_gettime|gettimeofday|getenv|secure_getenv|getpid|gettid|'
                     r'omp_get_wtime|pthread_self|arc4random|getrandom|times|getrusage)$|^std::random_device|^std::this_thread::get_id|'
                     r'^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|default_random_engine|mt19937)|::(now)$|^std::hash<.*\*>|^pointer-to-integer conversion$')
# functions that may use them, and for what
USERS = {
    'hif::Timer': 'time measurement (only printed, see P13)',
    'hif::mt::get_nthreads': 'number of threads',
}


def key(v):
    return (v['fn'] + '::' if v['fn'] else '') + v['name']


def body(rep, w):
    rep.rule('static', 'no object of static storage duration is modified, except the documented switches')
    rep.rule('init', 'a constant that is initialised once is initialised from constants only, not from the arguments of the first call')
    rep.rule('source', 'no random number, clock, environment or thread identity is used outside time measurement and the choice of the number of threads')
    n = 0
    seen = {}
    omp = ('-fopenmp', '-I', os.path.join(vt.VERIF, 'tus', 'omp'))
    jobs = [(t, f) for t in ('tus/all.cpp', 'tus/calls.cpp') for f in ((), omp)] + [(vt.REPO + '/libhifir/src/libhifir.cpp', ())]
    astq.ensure()
    with futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda q: astq.run(*q), jobs))
    for d in res:
        n += len(d['functions'])
        uses = {}
        known = {(u['var'], u['loc']) for u in d['uses'] if u['how'] != 'dependent'}
        for u in d['uses']:
            if u['how'] != 'dependent' or (u['var'], u['loc']) not in known:   # the pattern of a use seen in an instantiation
                uses.setdefault(u['var'], []).append(u)
        init = {}
        for v in d['vars'] + d['instvars']:
            init.setdefault(v['loc'], set()).update(v['uses'])
        for v in d['vars']:
            l, k = v['loc'], key(v)
            at = 'at %s' % astq.rel(l)
            if (l, 'v') not in seen or seen[(l, 'v')] is not True:
                if v['const']:
                    seen[(l, 'v')] = True
                    rep.ok('static', k, 'constant, %s' % at)
                elif k in SWITCH:
                    seen[(l, 'v')] = True
                    rep.ok('static', k, '%s, %s' % (SWITCH[k], at))
                else:
                    us = uses.get(l, ())
                    bad = [u for u in us if u['how'] == 'write' or u['how'].startswith('call ')]
                    unk = [u for u in us if not bad and not (u['how'] == 'read' or re.match(r'(extern|const) ', u['how']))]
                    if bad:
                        rep.bad('static', k, '%s of static storage duration is modified by %s%s' % (v['type'], bad[0]['fn'] or 'an initialiser', ' through ' + bad[0]['how'][5:] if bad[0]['how'].startswith('call ') else ''), astq.rel(bad[0]['loc']))
                    elif unk:
                        if seen.get((l, 'v')) != 'und':
                            rep.und('static', k, 'use at %s (%s)' % (astq.rel(unk[0]['loc']), unk[0]['how']))
                        seen[(l, 'v')] = 'und'
                        continue
                    else:
                        rep.ok('static', k, 'only read, %s' % at)
                    seen[(l, 'v')] = True
            if v['const'] and v['kind'] == 'local' and (l, 'i') not in seen:
                seen[(l, 'i')] = True
                us = [u for u in init.get(l, ()) if u.split()[0] in ('parameter', 'local', 'this', 'object')]
                if us:
                    rep.bad('init', k, 'the constant is initialised once from %s of the first call' % ', '.join(sorted(us)), astq.rel(l))
                else:
                    rep.ok('init', k, at)
        for r in d['refs']:
            if not SOURCES.search(r['name']) or (r['loc'], 's') in seen:
                continue
            seen[(r['loc'], 's')] = True
            who = [u for u in USERS if r['fn'] == u or r['fn'].startswith(u + '::')]
            if who:
                rep.ok('source', '%s in %s' % (r['name'], r['fn']), '%s, at %s' % (USERS[who[0]], astq.rel(r['loc'])))
            else:
                rep.bad('source', '%s in %s' % (r['name'], r['fn']), 'the result depends on %s' % r['name'], astq.rel(r['loc']))
    rep.extra['functions analysed'] = n
    rep.need('static', n, 500, 'functions')


if __name__ == '__main__':
    vt.main('P14', body)
