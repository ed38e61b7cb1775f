"""An exact polynomial algebra for Muchniker / CohenHormander that does not use sympy: integer polynomials in x, y, z
as dictionaries.  It implements the documented AlgebraAPIWrapper operations; sympywrapper's answers are compared with
it operation by operation in check C17, which is what ties results obtained with it to the shipped algebra."""
try:
    long
except NameError:
    long = int
NINF = float('-inf')


class Poly(object):
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = dict((m, c) for m, c in t.items() if c)
        self.h = None

    def __hash__(self):
        if self.h is None:
            if not self.t:
                self.h = hash(0)
            elif len(self.t) == 1 and (0, 0, 0) in self.t:
                self.h = hash(self.t[(0, 0, 0)])
            else:
                self.h = hash(frozenset(self.t.items()))
        return self.h

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        if isinstance(o, (int, long)):
            return self.t == ({(0, 0, 0): o} if o else {})
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __nonzero__(self):
        return bool(self.t)
    __bool__ = __nonzero__

    def __add__(self, o):
        o = mk(o)
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, 0) + c
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly(dict((m, -c) for m, c in self.t.items()))

    def __sub__(self, o):
        return self + (-mk(o))

    def __rsub__(self, o):
        return mk(o) - self

    def __mul__(self, o):
        o = mk(o)
        r = {}
        for (a, b, d), c in self.t.items():
            for (a2, b2, d2), c2 in o.t.items():
                m = (a + a2, b + b2, d + d2)
                r[m] = r.get(m, 0) + c * c2
        return Poly(r)
    __rmul__ = __mul__

    def __pow__(self, n):
        r = mk(1)
        for _ in range(n):
            r = r * self
        return r

    # a polynomial without variables is a number
    def _num(self):
        if any(m != (0, 0, 0) for m in self.t):
            raise TypeError('not a number: %s' % self)
        return self.t.get((0, 0, 0), 0)

    def __lt__(self, o):
        return (self - o)._num() < 0

    def __gt__(self, o):
        return (self - o)._num() > 0

    def __le__(self, o):
        return (self - o)._num() <= 0

    def __ge__(self, o):
        return (self - o)._num() >= 0

    def __int__(self):
        return self._num()

    def expand(self):
        return self

    @property
    def free_symbols(self):
        return set(v for m in self.t for v, e in zip('xyz', m) if e)

    def __str__(self):
        if not self.t:
            return '0'
        out = []
        for m in sorted(self.t, reverse=True):
            c = self.t[m]
            f = [v if e == 1 else '%s**%d' % (v, e) for v, e in zip('xyz', m) if e]
            if abs(c) != 1 or not f:
                f.insert(0, str(abs(c)))
            out.append(('-' if c < 0 else '+') + '*'.join(f))
        s = ' '.join(o[0] + ' ' + o[1:] for o in out)
        return s[2:] if s[0] == '+' else '-' + s[2:]
    __repr__ = __str__


def mk(v):
    return v if isinstance(v, Poly) else Poly({(0, 0, 0): v})


def mono(i, j, k, c):
    return Poly({(i, j, k): c})


class FastAlgebra(object):
    """eliminates x"""

    def degree(self, p):
        return max([m[0] for m in mk(p).t] or [NINF])

    def LC(self, p):
        p = mk(p)
        d = self.degree(p)
        return Poly(dict(((0, m[1], m[2]), c) for m, c in p.t.items() if m[0] == d))

    def LT(self, p):
        p = mk(p)
        d = self.degree(p)
        return Poly(dict((m, c) for m, c in p.t.items() if m[0] == d))

    def LS(self, p):
        p = mk(p)
        return p.t[max(p.t)] if p.t else 0

    def p_tail(self, p):
        return p - self.LT(p)

    def e_var(self):
        return mono(1, 0, 0, 1)

    def has_variable(self, p):
        return any(m != (0, 0, 0) for m in mk(p).t)

    def derivative(self, p):
        return Poly(dict(((m[0] - 1, m[1], m[2]), c * m[0]) for m, c in mk(p).t.items() if m[0]))

    def zero(self):
        return Poly({})

    def sign(self, s):
        s = s._num() if isinstance(s, Poly) else s
        return (s > 0) - (s < 0)

    def pseudo_div(self, p, q):
        """lc(q)^(deg p - deg q + 1) p = quo q + rem, deg rem < deg q"""
        p, q = mk(p), mk(q)
        n = self.degree(q)
        if n == NINF:
            raise ZeroDivisionError('polynomial division')
        quo, rem = Poly({}), p
        d = self.degree(p)
        if d < n:
            return quo, rem
        l = self.LC(q)
        todo = d - n + 1
        while self.degree(rem) >= n:
            t = self.LC(rem) * mono(self.degree(rem) - n, 0, 0, 1)
            todo -= 1
            quo = quo * l + t
            rem = rem * l - t * q
        return quo * l ** todo, rem * l ** todo

    def div(self, p, q):
        """division by a polynomial with a constant leading coefficient 1 or -1 (the procedures divide by x only)"""
        q = mk(q)
        l = self.LC(q)
        if l == 1:
            return self._monic(p, q)
        if l == -1:
            a, b = self._monic(p, -q)
            return -a, b
        raise ValueError('division with fractions')

    def _monic(self, p, q):
        n = self.degree(q)
        quo, rem = Poly({}), mk(p)
        while self.degree(rem) >= n:
            t = self.LC(rem) * mono(self.degree(rem) - n, 0, 0, 1)
            quo = quo + t
            rem = rem - t * q
        return quo, rem
