import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vt, mmread


def body(rep, w):
    rep.rule('input', 'on every path through a reader: no value is used that the scan may not have set, text stays inside its buffer, '
             'scanned types fit their variables, sizes are known nonnegative before they are used, growth of an array is tested '
             'before it is filled, every element written lies inside')
    rep.rule('stream', 'the file is open wherever it is used, closed once, and closed on every exit, normal or failing')
    rep.rule('header', 'a file is accepted only with the banner, object, layout, type and scheme that fit the data it is read into')
    rep.rule('range', 'on every accepting path each stored index is at least zero and below the number of rows or columns')
    rep.rule('content', 'on every accepting path the arrays hold each entry of the file, and its mirrored, conjugated or negated '
             'twin where the scheme says so, and nothing else')
    rep.rule('written', 'a writer produces the banner, the sizes and one line per entry with one-based indices and its value')
    rep.rule('digits', 'values are written with the digits needed to read them back unchanged')
    rep.rule('failure', 'a writer returns only after it has seen that the stream is still sound')
    prog = w.dump(w.lower('tus/mm.cpp', ['-DHIF_THROW']), open(os.path.join(vt.VERIF, 'cfg', 'mm.cfg')).read())
    n = mmread.analyse(rep, prog)
    rep.need('input', n, 8, 'readers')
    n = mmread.writers(rep, prog)
    rep.need('written', n, 12, 'writers')


vt.main('P17', body)
