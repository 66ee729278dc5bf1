import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, capi, effects


def body(rep, w):
    rep.rule('escape', 'the exception effect of every exported function is empty: each call that can throw, computed over the call graph, is enclosed by a handler for its types, and no path ends the process')
    rep.rule('report', 'every handler of an exported function saves the message of the exception and gives the error status (a null handle when creating)')
    src = os.path.join(vt.REPO, 'libhifir', 'src', 'libhifir.cpp')
    inc = ['-I', os.path.join(vt.REPO, 'libhifir', 'include')]
    E = effects.Effects(w, src, inc)
    rep.extra['functions_in_call_graph'] = len(E.sites)
    rep.extra['call_sites'] = sum(len(s[0]) for s in E.sites.values())
    p = w.dump(w.lower(src, inc), open(os.path.join(vt.VERIF, 'cfg', 'capi.cfg')).read())
    api = capi.Api.__new__(capi.Api)
    api.rep, api.p = rep, p
    rep.need('escape', api.check_escape(E, p), 60, 'exported functions')
    rep.need('report', api.check_report(p), 20, 'exception handlers')
    rep.assumptions += ['a declaration without body and with C linkage does not throw; the standard library honours its own noexcept']


vt.main('P18', body)
