import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re
import vt, valid, entry


def body(rep, w):
    rep.rule('reject', 'no path of a validating function completes for a matrix with the named defect in its header, in any row or at any entry')
    rep.rule('accept', 'a well-formed matrix is not rejected, including empty rows, rows ending in the last column and arrays of exactly the required length')
    rep.rule('consulted', 'when validation is requested, no path computes a level before the matrix handed to the level loop was validated')
    rep.rule('base', 'matrices with index base 0 are taken as they are, base 1 is shifted by one in every position and index, anything else is rejected')
    bc = w.lower('tus/valid.cpp')
    p = w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'valid.cfg')).read())
    n = 0
    for f in p.find(r'^Valid<'):
        sch = valid.Scheme(f)
        what = '%s<%s>' % (sch.member, re.match(r'Valid<(.*)>::', f.dem).group(1))
        valid.head(rep, f, what, sch)
        valid.rows(rep, p, f, sch, what)
        n += 1
    bc = w.lower('tus/entry.cpp')
    p = w.dump(bc, open(os.path.join(vt.VERIF, 'cfg', 'entry.cfg')).read())
    for f in entry.load(p):
        if entry.member(f) in ('factorize', 'factorize_ccs'):
            valid.front(rep, f, '%s<%s>' % (entry.member(f), entry.tname(f)))
    rep.need('reject', n, 12, 'validating functions')


vt.main('P27', body)
