import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vt, own


def body(rep, w):
    rep.rule('ownership', 'for every state of the arrays a method sees (owning alone, sharing, wrapping, empty, moved-from, stolen), '
             'after every path through it, normal or exceptional: each buffer and counter is freed exactly when nothing uses it, '
             'each counter equals the number of arrays holding it, wrapped memory is never freed, sizes stay within the buffer, '
             'copies stay inside, and the method has done what it is for')
    prog = w.dump(w.lower('tus/array.cpp', ['-DHIF_THROW']), open(os.path.join(vt.VERIF, 'cfg', 'array.cfg')).read())
    n = own.analyse(rep, prog, 'ownership')
    rep.need('ownership', n, 30, 'methods')


vt.main('P16', body)
