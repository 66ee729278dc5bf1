import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, options


def body(rep, w):
    rep.rule('types', 'entry k of the type table is the type of field k of the option structure')
    rep.rule('names', 'the name table maps the name of field k to k, and nothing else')
    rep.rule('set', 'setting position k stores the value given into field k and no other field; a known name reports success')
    rep.rule('read', 'reading from a stream reads every field once, in declaration order, as its own type')
    rep.rule('default', 'each default is the documented one')
    rep.rule('represent', 'the textual form shows under each name the field of that name')
    rep.rule('verbose', 'each verbosity flag is shown by its own word and set without touching the others')
    rep.rule('reorder', 'each reordering method has its own name')
    rep.rule('c positions', 'the positions of the C parameter array are a permutation of its length')
    rep.rule('c codes', 'the codes of the C interface are those of the core, which passes them through')
    rep.rule('c array', 'the C interface reads and writes each option at its own position')
    cfg = os.path.join(vt.VERIF, 'cfg')
    p = w.dump(w.lower('tus/options.cpp'), open(os.path.join(cfg, 'options.cfg')).read())
    fs = {f.dem.split('(')[0].split('[')[0]: f for f in p.functions}
    fl = options.fields(fs['Opts::set_d'], 2)
    rep.need('types', len(fl), 28, 'option fields')
    n = options.dtypes(rep, p, fl)
    options.tags(rep, p, fl)
    for x in ('set_d', 'set_i', 'setp_d'):
        n += options.setter(rep, fs['Opts::' + x], fl)
    rep.need('set', n, 28, 'setter positions')
    options.reader(rep, fs['Opts::read'], fl)
    for x in ('defaults', 'defaults_p'):
        options.defaults(rep, fs['Opts::' + x], fl)
    options.representation(rep, w, fl, 'tus/options.cpp')
    options.verbose_name(rep, p, fs['Opts::name'])
    options.enable(rep, fs['Opts::verbose'], fl)
    options.reorder_name(rep, p, fs['Opts::reorder'])
    inc = ['-I', vt.REPO, '-I', os.path.join(vt.REPO, 'libhifir', 'include')]
    q = w.dump(w.lower('tus/copts.cpp', inc), open(os.path.join(cfg, 'copts.cfg')).read())
    options.c_array(rep, q, fl)


vt.main('P21', body)
