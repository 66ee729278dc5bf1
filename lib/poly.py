"""Exact complex polynomials over leaves, used to recognise arithmetic on scalars.

A complex value is a dict monomial -> (re, im) Fractions; a monomial is a sorted
tuple of leaves.  Leaf = hashable; conj(leaf) = ('~', leaf) except for leaves
declared real.  A real SSA float is represented by the complex polynomial of the
same value, so re(z) = (z + ~z)/2 and im(z) = (z - ~z)/2i and everything cancels
exactly when the code is complex arithmetic.
"""
from fractions import Fraction as Fr


def skey(x):
    return repr(x)


def const(re, im=0):
    re, im = Fr(re), Fr(im)
    return {(): (re, im)} if (re or im) else {}


def leaf(l):
    return {(l,): (Fr(1), Fr(0))}


def add(a, b, k=1):
    r = dict(a)
    for m, (x, y) in b.items():
        u, v = r.get(m, (Fr(0), Fr(0)))
        u, v = u + k * x, v + k * y
        if u or v:
            r[m] = (u, v)
        else:
            r.pop(m, None)
    return r


def mul(a, b):
    r = {}
    for m1, (x1, y1) in a.items():
        for m2, (x2, y2) in b.items():
            m = tuple(sorted(m1 + m2, key=skey))
            u, v = r.get(m, (Fr(0), Fr(0)))
            u += x1 * x2 - y1 * y2
            v += x1 * y2 + y1 * x2
            if u or v:
                r[m] = (u, v)
            else:
                r.pop(m, None)
    return r


def cleaf(l):
    if isinstance(l, tuple) and l and l[0] == '~':
        return l[1]
    if isinstance(l, tuple) and l and l[0] == 'real':
        return l
    if isinstance(l, tuple) and l and l[0] == 'inv':
        return ('inv', freeze(conj(thaw(l[1]))))
    if isinstance(l, tuple) and len(l) == 4 and l[0] == 'sum':
        return l[:3] + (tuple(sorted((cleaf(x) for x in l[3]), key=skey)),)
    return ('~', l)


def conj(a):
    r = {}
    for m, (x, y) in a.items():
        r[tuple(sorted((cleaf(l) for l in m), key=skey))] = (x, -y)
    return r


def re(a):
    return scale(add(a, conj(a)), Fr(1, 2))


def im(a):
    # (z - ~z) / 2i = -i/2 (z - ~z)
    return mul(const(0, Fr(-1, 2)), add(a, conj(a), -1))


def scale(a, k):
    return {m: (x * k, y * k) for m, (x, y) in a.items()}


def freeze(a):
    return tuple(sorted(a.items(), key=lambda t: skey(t)))


def thaw(f):
    return dict(f)


def inv(a):
    """1/a: monomials invert leaf-wise, anything else becomes an 'inv' leaf"""
    if len(a) == 1:
        (m, (x, y)), = a.items()
        d = x * x + y * y
        r = const(x / d, -y / d)
        for l in m:
            if isinstance(l, tuple) and l and l[0] == 'inv':
                r = mul(r, thaw(l[1]))
            elif isinstance(l, tuple) and len(l) == 2 and l[0] == 'real' and isinstance(l[1], tuple) and l[1][0] == 'inv':
                r = mul(r, thaw(l[1][1]))
            else:
                li = ('inv', freeze(leaf(l)))
                if isinstance(l, tuple) and l and l[0] == 'real':
                    li = ('real', li)
                r = mul(r, leaf(li))
        return r
    return leaf(('inv', freeze(a)))


def pstr(a):
    if not a:
        return '0'
    s = []
    for m, (x, y) in a.items():
        c = str(x) if not y else '(%s%+si)' % (x, y)
        s.append('*'.join(([c] if c != '1' or not m else []) + [lstr(l) for l in m]))
    return ' + '.join(s)


def lstr(l):
    if isinstance(l, tuple):
        if l and l[0] == '~':
            return 'conj(%s)' % lstr(l[1])
        if l and l[0] == 'real':
            return lstr(l[1]) if len(l) == 2 else lstr(l[1:])
        if l and l[0] == 'inv':
            return '1/(%s)' % pstr(thaw(l[1]))
        return '%s[%s]' % (l[0], ','.join(str(x) for x in l[1:]))
    return str(l)
