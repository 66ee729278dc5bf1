import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, capi


def body(rep, w):
    rep.rule('null', 'with a null handle, matrix or an empty matrix, no path reads or writes through it, performs the operation or writes an output, and the value returned is the documented one')
    src = os.path.join(vt.REPO, 'libhifir', 'src', 'libhifir.cpp')
    inc = ['-I', os.path.join(vt.REPO, 'libhifir', 'include')]
    p = w.dump(w.lower(src, inc), open(os.path.join(vt.VERIF, 'cfg', 'capi_n.cfg')).read())
    rep.need('null', capi.Api(rep, p).check_null(), 60, 'function and argument combinations')


vt.main('P19', body)
