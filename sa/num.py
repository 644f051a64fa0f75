"""Symbolic integers: polynomials over atoms, bit vectors, and conditions.

Nothing here runs repository code: these are the abstract values the
interpreter (interp.py) propagates.
"""
import itertools


class Atom(object):
    """An indivisible symbolic integer: a named unknown or a non-polynomial term."""
    __slots__ = ('op', 'args', 'key', '_h')
    table = {}

    def __new__(cls, op, *args):
        key = (op,) + args
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.op, a.args, a.key = op, args, key
            a._h = hash(key)
            cls.table[key] = a
        return a

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == 'sym':
            return str(self.args[0])
        if self.op in ('bits', 'sbits'):
            return fmt_bits(self.args[0]) + ('' if self.op == 'bits' else ':signed')
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))

    def skey(self):
        return repr(self.key)


def fmt_bits(bits):
    out, i = [], 0
    while i < len(bits):
        b = bits[i]
        if b in (0, 1):
            out.append(str(b))
            i += 1
            continue
        src, n = b
        j = i
        while j + 1 < len(bits) and bits[j + 1] not in (0, 1) and bits[j + 1][0] == src and bits[j + 1][1] == bits[j][1] + 1:
            j += 1
        out.append('%s[%s]' % (src, n if j == i else '%d:%d' % (n, n + j - i + 1)))
        i = j + 1
    return '{' + ' '.join(out) + '}'


class Poly(object):
    """Immutable integer polynomial over Atoms; never constant (constants are ints)."""
    __slots__ = ('terms', '_h')

    def __init__(self, terms):
        self.terms = terms           # tuple of (monomial, coef) sorted; monomial = tuple of atoms
        self._h = hash(terms)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return isinstance(other, Poly) and self.terms == other.terms

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        out = []
        for mono, c in self.terms:
            m = '*'.join(repr(a) for a in mono)
            if not mono:
                out.append('%+d' % c)
            elif c == 1:
                out.append('+' + m)
            elif c == -1:
                out.append('-' + m)
            else:
                out.append('%+d*%s' % (c, m))
        s = ''.join(out)
        return s[1:] if s.startswith('+') else s

    def atoms(self):
        r = []
        for mono, _ in self.terms:
            for a in mono:
                if a not in r:
                    r.append(a)
        return r

    def as_atom(self):
        if len(self.terms) == 1 and self.terms[0][1] == 1 and len(self.terms[0][0]) == 1:
            return self.terms[0][0][0]
        return None

    def const(self):
        for mono, c in self.terms:
            if not mono:
                return c
        return 0


def mk(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return Poly(tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), [a.skey() for a in mc[0]]))))


def P(a):
    """atom -> value"""
    return Poly((((a,), 1),))


def sym(name):
    return P(Atom('sym', name))


def td(x):
    if isinstance(x, Poly):
        return dict(x.terms)
    return {(): int(x)} if x else {}


def add(x, y):
    d = td(x)
    for m, c in td(y).items():
        d[m] = d.get(m, 0) + c
    return mk(d)


def neg(x):
    return mk({m: -c for m, c in td(x).items()})


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    d = {}
    for m1, c1 in td(x).items():
        for m2, c2 in td(y).items():
            m = tuple(sorted(m1 + m2, key=lambda a: a.skey()))
            d[m] = d.get(m, 0) + c1 * c2
    return mk(d)


def mono_divide(m, d):
    m = list(m)
    for a in d:
        if a in m:
            m.remove(a)
        else:
            return None
    return tuple(m)


def split_div(x, y):
    """x = q*y + r as far as divisibility of terms shows; y int or single monomial poly."""
    if isinstance(y, Poly):
        if len(y.terms) != 1:
            return None
        (dm, dc), = y.terms
    else:
        dm, dc = (), int(y)
    q, r = {}, {}
    for m, c in td(x).items():
        mm = mono_divide(m, dm)
        if mm is not None and c % dc == 0:
            q[mm] = q.get(mm, 0) + c // dc
        elif mm is not None and not isinstance(y, Poly):
            # constant divisor: keep remainder of the coefficient only for the constant term
            if m == ():
                q[()] = q.get((), 0) + c // dc
                if c % dc:
                    r[()] = c % dc
            else:
                r[m] = c
        else:
            r[m] = c
    return mk(q), mk(r)


# ---- bits -------------------------------------------------------------

INF = None


class Dom(object):
    """Domain of a symbol on the current path: an interval or an explicit finite set."""
    __slots__ = ('lo', 'hi', 'vals')

    def __init__(self, lo=None, hi=None, vals=None):
        if vals is not None:
            vals = frozenset(vals)
            lo, hi = min(vals), max(vals)
        self.lo, self.hi, self.vals = lo, hi, vals

    def __repr__(self):
        if self.vals is not None:
            v = sorted(self.vals)
            return '{%s}' % ', '.join(map(str, v)) if len(v) < 8 else '{%d values in %d..%d}' % (len(v), v[0], v[-1])
        return '[%s, %s]' % (self.lo, self.hi)


def iv_add(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def iv_scale(a, c):
    if c == 0:
        return (0, 0)
    lo = None if a[0] is None else a[0] * c
    hi = None if a[1] is None else a[1] * c
    return (lo, hi) if c > 0 else (hi, lo)


def iv_mul(a, b):
    if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
        return (a[0] * b[0], None if a[1] is None or b[1] is None else a[1] * b[1])
    if None in a or None in b:
        return (None, None)
    ps = [x * y for x in a for y in b]
    return (min(ps), max(ps))


class Cond(object):
    """Symbolic boolean: ('ge', p) p>=0; ('eq', p) p==0; ('b', name); with negation flag."""
    __slots__ = ('op', 'arg', 'neg', '_h')

    def __init__(self, op, arg, neg=False):
        self.op, self.arg, self.neg = op, arg, neg
        self._h = hash((op, arg, neg))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.op, self.arg, self.neg) == (o.op, o.arg, o.neg)

    def __repr__(self):
        s = {'ge': '%r >= 0', 'eq': '%r == 0', 'b': '%s', 'and': 'all%r', 'or': 'any%r'}[self.op] % (self.arg,) \
            if self.op in ('ge', 'eq', 'b') else '%s%r' % (self.op, self.arg)
        return ('not (%s)' % s) if self.neg else s

    def negate(self):
        if self.op == 'ge':       # not p>=0  <=> -p-1 >= 0
            return cond_ge(sub(neg(self.arg), 1))
        return Cond(self.op, self.arg, not self.neg)


def cond_ge(p):
    if not isinstance(p, Poly):
        return p >= 0
    return Cond('ge', p)


def cond_eq(p):
    if not isinstance(p, Poly):
        return p == 0
    # canonical sign
    if next(c for m, c in p.terms if m) < 0:
        p = neg(p)
    return Cond('eq', p)


def compare(op, x, y):
    if op == '<':
        return cond_ge(sub(sub(y, x), 1))
    if op == '<=':
        return cond_ge(sub(y, x))
    if op == '>':
        return cond_ge(sub(sub(x, y), 1))
    if op == '>=':
        return cond_ge(sub(x, y))
    c = cond_eq(sub(x, y))
    if op == '==':
        return c
    return (not c) if isinstance(c, bool) else c.negate()
