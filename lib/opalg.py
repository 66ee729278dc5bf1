"""Free non-commutative algebra of the operators of one preconditioner level.

A polynomial is dict word -> Fraction; a word is a tuple of atoms, leftmost
applied last.  Atoms (all n-by-n, block operators embedded):
  ('D', field, e)      diagonal scaling by field**e (real), e=+1/-1
  ('Db', e, c)         the factor's diagonal on the leading block, c=1: conjugated
  ('G', perm)          (G x)[i] = x[perm[i]]
  ('P',)               projection on the leading block; P_hi is 1-P
  ('E',c) ('F',c)      off-diagonal blocks, c = 'N' or 'H'
  ('L',c) ('U',c)      strictly triangular factors of the leading block
  ('Li',c) ('Ui',c)    (I+L)^-1, (I+U)^-1 on the leading block
  ('S',e,c)            Schur complement (next level or dense), e=+1/-1
"""
from fractions import Fraction as Fr

LO = {'Db', 'L', 'U', 'Li', 'Ui'}
PAIR = {'p': 'p_inv', 'p_inv': 'p', 'q': 'q_inv', 'q_inv': 'q'}


def one():
    return {(): Fr(1)}


def word(*w):
    return {tuple(w): Fr(1)}


def add(a, b, k=1):
    r = dict(a)
    for w, c in b.items():
        v = r.get(w, 0) + k * c
        if v:
            r[w] = v
        else:
            r.pop(w, None)
    return r


def mul(a, b):
    r = {}
    for w1, c1 in a.items():
        for w2, c2 in b.items():
            w = w1 + w2
            v = r.get(w, 0) + c1 * c2
            if v:
                r[w] = v
            else:
                r.pop(w, None)
    return r


def scale(a, k):
    return {w: c * k for w, c in a.items()}


P = word(('P',))
PHI = add(one(), P, -1)


def lspace(a):
    """range of atom: 'lo','hi','full'"""
    k = a[0]
    if k in LO or k == 'P':
        return 'lo'
    if k == 'E':
        return 'hi' if a[1] == 'N' else 'lo'
    if k == 'F':
        return 'lo' if a[1] == 'N' else 'hi'
    if k == 'S':
        return 'hi'
    return 'full'


def rspace(a):
    k = a[0]
    if k in LO or k == 'P':
        return 'lo'
    if k == 'E':
        return 'lo' if a[1] == 'N' else 'hi'
    if k == 'F':
        return 'hi' if a[1] == 'N' else 'lo'
    if k == 'S':
        return 'hi'
    return 'full'


def reduce_once(w):
    """returns None if irreducible, else polynomial replacing w"""
    for i in range(len(w) - 1):
        a, b = w[i], w[i + 1]
        rep = None
        if a[0] == 'P' and b[0] == 'D':
            rep = word(b, a)
        elif a[0] == 'P' and lspace(b) == 'lo':
            rep = word(b)
        elif a[0] == 'P' and lspace(b) == 'hi':
            rep = {}
        elif b[0] == 'P' and rspace(a) == 'lo':
            rep = word(a)
        elif b[0] == 'P' and rspace(a) == 'hi':
            rep = {}
        elif rspace(a) != 'full' and lspace(b) != 'full' and rspace(a) != lspace(b):
            rep = {}
        elif a[0] == 'D' and b[0] == 'D':
            if a[1] == b[1] and a[2] == -b[2]:
                rep = one()
            elif repr(a) > repr(b):
                rep = word(b, a)
        elif a[0] == 'Db' and b[0] == 'Db' and a[2] == b[2] and a[1] == -b[1]:
            rep = P
        elif a[0] == 'G' and b[0] == 'G' and PAIR.get(a[1]) == b[1]:
            rep = one()
        elif a[0] in ('L', 'U') and b[0] == a[0] + 'i' and a[1] == b[1]:
            rep = add(P, word(b), -1)
        elif a[0] in ('Li', 'Ui') and b[0] == a[0][0] and a[1] == b[1]:
            rep = add(P, word(a), -1)
        elif a[0] == 'S' and b[0] == 'S' and a[1] == -b[1] and a[2] == b[2]:
            rep = PHI
        if rep is not None:
            return mul(mul({w[:i]: Fr(1)}, rep), {w[i + 2:]: Fr(1)})
    return None


def nf(p, limit=200000):
    out = {}
    work = dict(p)
    n = 0
    while work:
        w, c = work.popitem()
        n += 1
        if n > limit:
            raise RuntimeError('normal form diverges')
        r = reduce_once(w)
        if r is None:
            v = out.get(w, 0) + c
            if v:
                out[w] = v
            else:
                out.pop(w, None)
        else:
            for w2, c2 in r.items():
                v = work.get(w2, 0) + c * c2
                if v:
                    work[w2] = v
                else:
                    work.pop(w2, None)
    return out


def adj_atom(a):
    k = a[0]
    fl = {'N': 'H', 'H': 'N'}
    if k in ('E', 'F', 'L', 'U', 'Li', 'Ui'):
        return (k, fl.get(a[1], a[1]))
    if k == 'S':
        return (k, a[1], fl.get(a[2], a[2]))
    if k == 'Db':
        return (k, a[1], 1 - a[2])
    if k == 'G':
        return (k, PAIR.get(a[1], a[1] + '?inv'))
    return a


def adj(p):
    return {tuple(adj_atom(a) for a in reversed(w)): c for w, c in p.items()}


def astr(a):
    k = a[0]
    if k == 'D':
        return ('' if a[2] == 1 else '1/') + 'diag(%s)' % a[1]
    if k == 'Db':
        return 'D%s%s' % ('^-1' if a[1] < 0 else '', '~' if a[2] else '')
    if k == 'G':
        return 'G[%s]' % a[1]
    if k == 'P':
        return 'P'
    if k == 'S':
        return 'S%s%s' % ('^-1' if a[1] < 0 else '', '^H' if a[2] == 'H' else '')
    if k in ('Li', 'Ui'):
        return '(I+%s)^-1%s' % (k[0], '' if a[1] == 'N' else '^' + a[1])
    if k in ('L', 'U', 'E', 'F'):
        return k + ('' if a[1] == 'N' else '^' + a[1])
    return str(a)


def pstr(p):
    if not p:
        return '0'
    return ' + '.join(('' if c == 1 else '%s*' % c) + ('.'.join(astr(a) for a in w) or 'I')
                      for w, c in sorted(p.items(), key=lambda t: (len(t[0]), repr(t[0]))))
