import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, capi


def body(rep, w):
    rep.rule('apply', 'for every family, operation code, refinement count, rank, bounds, storage and status choice, the core operation called, each of its arguments, the statistics and the status are the specified ones')
    rep.rule('solve', 'lhf?Solve is the plain solve of the handle')
    rep.rule('setup', 'the matrix factorized is S if given, else A; the matrix kept is A if given, else S; the options are those of the caller')
    rep.rule('update', 'lhf?Update keeps the matrix given, and reports a size that does not match')
    rep.rule('matrix', 'a matrix handle holds what it was given')
    rep.rule('stats', 'each statistic is that of the core')
    rep.rule('read', 'the readers read the storage of the handle and fill each array from its own')
    rep.rule('create', 'creating sets up a new object, and gives it back unless setup failed; destroying releases it once')
    rep.rule('defined', 'every function of the header is defined in the library')
    src = os.path.join(vt.REPO, 'libhifir', 'src', 'libhifir.cpp')
    hdr = os.path.join(vt.REPO, 'libhifir', 'include')
    p = w.dump(w.lower(src, ['-I', hdr]), open(os.path.join(vt.VERIF, 'cfg', 'capi_n.cfg')).read())
    r = vt.sh([vt.CLANG, '-E', '-P', '-x', 'c', os.path.join(hdr, 'libhifir.h')])
    if r.returncode:
        raise vt.ToolError('the header does not preprocess')
    api = capi.Api(rep, p)
    rep.need('defined', api.check_defined(r.stdout), 60, 'declared functions')
    for rule, least in (('apply', 300), ('solve', 4), ('setup', 24), ('update', 15), ('matrix', 20), ('stats', 20), ('read', 6), ('create', 8)):
        rep.need(rule, getattr(api, 'check_' + rule)(), least, 'instances')


vt.main('P20', body)
