# Jython 2.7.  The part of Sage (and of matplotlib, numpy, scipy) that GRF uses, in exact arithmetic.
# Everything that is not deterministic in GRF (random numbers, fsolve, ties of the optimiser, raw_input) is asked of
# ENV, so that the checks can enumerate it.
import sys, types, math, os, imp, tokenize, StringIO, itertools
from fractions import Fraction, gcd


class ShimMissing(Exception):
    """the code under test uses something of Sage this stand-in does not have"""


# ---------------------------------------------------------------- numbers

class Integer(int):
    """a Sage Integer: dividing two gives a rational"""
    def __div__(self, o):
        if isinstance(o, (int, long)):
            return Rational(Fraction(int(self), int(o)))
        return NotImplemented
    __truediv__ = __div__

    def _b(f):
        def g(self, o):
            r = f(int(self), o)
            if isinstance(r, (int, long)) and not isinstance(r, bool):
                return Integer(r)
            return r
        return g
    __add__ = _b(int.__add__)
    __radd__ = _b(int.__radd__)
    __sub__ = _b(int.__sub__)
    __rsub__ = _b(int.__rsub__)
    __mul__ = _b(int.__mul__)
    __rmul__ = _b(int.__rmul__)

    def __neg__(self):
        return Integer(-int(self))

    def __hash__(self):
        return hash(int(self))

    def __rdiv__(self, o):
        if isinstance(o, (int, long)):
            return Rational(Fraction(int(o), int(self)))
        return NotImplemented


class Rational(Fraction):
    def __new__(cls, a=0, b=None):
        if isinstance(a, float):
            a = Fraction(a)
        return Fraction.__new__(cls, a, b) if b is not None else Fraction.__new__(cls, a)

    def _w(name):
        f = getattr(Fraction, name)

        def g(self, *o):
            if o and isinstance(o[0], MPolynomial_libsingular):
                return NotImplemented
            r = f(self, *o)
            if isinstance(r, Fraction) and not isinstance(r, Rational):
                return Rational(r)
            return r
        g.__name__ = name
        return g
    for _n in ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'rdiv', 'truediv', 'rtruediv', 'neg', 'abs', 'pow', 'pos']:
        if hasattr(Fraction, '__%s__' % _n):
            locals()['__%s__' % _n] = _w('__%s__' % _n)
    del _n

    def __eq__(self, o):
        if isinstance(o, MPolynomial_libsingular):
            return o == self
        return Fraction.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return Fraction.__hash__(self)

    def __str__(self):
        return str(self.numerator) if self.denominator == 1 else '%s/%s' % (self.numerator, self.denominator)
    __repr__ = __str__

    def exact_rational(self):
        return self

    def floor(self):
        return floor(self)

    def ceil(self):
        return ceil(self)

    def is_constant(self):
        return True

    def sign(self):
        return (self > 0) - (self < 0)


class RealLiteral(object):
    """a real number as Sage reads it from text: keeps the digits"""
    def __init__(self, s):
        self.q = Fraction(s)

    def exact_rational(self):
        return Rational(self.q)


def num(x):
    if isinstance(x, RealLiteral):
        return Rational(x.q)
    if isinstance(x, bool):
        raise TypeError(x)
    if isinstance(x, (int, long, float, Fraction)):
        return Rational(x)
    if isinstance(x, MPolynomial_libsingular):
        if x.is_constant():
            return x.constant_coefficient()
        raise TypeError('not a constant polynomial')
    if isinstance(x, basestring):
        return Rational(Fraction(x))
    raise TypeError('no number: %r' % (x,))


def isnum(x):
    return isinstance(x, (int, long, float, Fraction)) and not isinstance(x, bool)


class _QQ(object):
    def __call__(self, x):
        return num(x)

    def __getitem__(self, name):
        names = [n.strip() for n in name.split(',')] if isinstance(name, basestring) else list(name)
        return Ring(tuple(names), len(names) == 1)

    def __repr__(self):
        return 'Rational Field'

    def __contains__(self, x):
        try:
            num(x)
            return True
        except (TypeError, ValueError):
            return False


QQ = _QQ()


class _RR(object):
    def __call__(self, x):
        return num(x)


RR = _RR()


def ZZ(x):
    q = num(x)
    if q.denominator != 1:
        raise TypeError('no conversion of this rational to integer')
    return Integer(q.numerator)


def floor(x):
    q = num(x)
    return Integer(q.numerator // q.denominator)


def ceil(x):
    q = num(x)
    return Integer(-((-q.numerator) // q.denominator))


def sage_eval(s, *a, **k):
    s = s.strip()
    try:
        if '.' in s or 'e' in s:
            return RealLiteral(s)
        if '/' in s:
            return Rational(Fraction(s))
        return Integer(s)
    except ValueError:
        raise ShimMissing('sage_eval(%r)' % s)


# ---------------------------------------------------------------- polynomials

class Ring(object):
    cache = {}

    def __new__(cls, names, uni=False):
        k = (names, uni)
        if k not in cls.cache:
            r = object.__new__(cls)
            r.names, r.uni = names, uni
            cls.cache[k] = r
        return cls.cache[k]

    def gens(self):
        return tuple(self.gen(i) for i in range(len(self.names)))

    def gen(self, i=0):
        e = [0] * len(self.names)
        e[i] = 1
        return MPolynomial_libsingular(self, {tuple(e): Fraction(1)})

    def ngens(self):
        return len(self.names)

    def variable_names(self):
        return self.names

    def base_ring(self):
        return QQ

    def zero(self):
        return self(0)

    def one(self):
        return self(1)

    def __call__(self, x):
        if isinstance(x, MPolynomial_libsingular):
            if x.ring is self:
                return x
            pos = []
            for i, n in enumerate(x.ring.names):
                if n in self.names:
                    pos.append(self.names.index(n))
                else:
                    pos.append(None)
            t = {}
            for m, c in x.t.items():
                e = [0] * len(self.names)
                for i, k in enumerate(m):
                    if k:
                        if pos[i] is None:
                            raise TypeError('cannot convert %s to %s' % (x, self))
                        e[pos[i]] = k
                t[tuple(e)] = c
            return MPolynomial_libsingular(self, t)
        if isinstance(x, Frac):
            n, d = self(x.n), self(x.d)
            if d.is_constant():
                return n * (Fraction(1) / d.constant_coefficient())
            q, r = divide(n, [d])
            if r.t:
                raise TypeError('denominator must be a unit')
            return q[0]
        if isinstance(x, basestring):
            s = x.strip()
            if s in self.names:
                return self.gen(self.names.index(s))
            try:
                x = Fraction(s)
            except ValueError:
                raise ShimMissing('ring(%r)' % s)
        q = num(x)
        return MPolynomial_libsingular(self, {(0,) * len(self.names): Fraction(q)} if q else {})

    def ideal(self, *ps):
        return ideal(*ps)

    def __contains__(self, x):
        return isinstance(x, MPolynomial_libsingular) and x.ring is self

    def __repr__(self):
        return 'Polynomial Ring in %s over Rational Field' % ', '.join(self.names)


def PolynomialRing(base, names, n=None, order='degrevlex', **kw):
    if order != 'degrevlex':
        raise ShimMissing('order ' + order)
    if n is None:
        ns = [a.strip() for a in names.split(',')] if isinstance(names, basestring) else list(names)
        return Ring(tuple(ns), len(ns) == 1)
    return Ring(tuple('%s%d' % (names, i) for i in range(n)), False)


def parent(x):
    if isinstance(x, MPolynomial_libsingular):
        return x.ring
    if isinstance(x, Fraction):
        return QQ
    return type(x)


def common(a, b):
    if a is b:
        return a
    if set(a.names) <= set(b.names):
        return b
    if set(b.names) <= set(a.names):
        return a
    raise TypeError('no common parent')


def key(m):
    """degrevlex"""
    return (sum(m), tuple(-e for e in reversed(m)))


class Frac(object):
    def __init__(self, n, d):
        self.n, self.d = n, d


class MPolynomial_libsingular(object):
    def __init__(self, ring, t):
        self.ring = ring
        self.t = dict((m, Fraction(c)) for m, c in t.items() if c != 0)
        self._h = self._hh = None

    def parent(self):
        return self.ring

    # arithmetic
    def _co(self, o):
        if isinstance(o, MPolynomial_libsingular):
            r = common(self.ring, o.ring)
            return r(self), r(o)
        if isnum(o) or isinstance(o, RealLiteral):
            return self, self.ring(o)
        return None, None

    def __add__(self, o):
        a, b = self._co(o)
        if a is None:
            return NotImplemented
        t = dict(a.t)
        for m, c in b.t.items():
            t[m] = t.get(m, 0) + c
        return MPolynomial_libsingular(a.ring, t)
    __radd__ = __add__

    def __neg__(self):
        return MPolynomial_libsingular(self.ring, dict((m, -c) for m, c in self.t.items()))

    def __pos__(self):
        return self

    def __sub__(self, o):
        a, b = self._co(o)
        if a is None:
            return NotImplemented
        return a + (-b)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        a, b = self._co(o)
        if a is None:
            return NotImplemented
        t = {}
        for m, c in a.t.items():
            for n, d in b.t.items():
                k = tuple(x + y for x, y in zip(m, n))
                t[k] = t.get(k, 0) + c * d
        return MPolynomial_libsingular(a.ring, t)
    __rmul__ = __mul__

    def __div__(self, o):
        a, b = self._co(o)
        if a is None:
            return NotImplemented
        if not b.t:
            raise ZeroDivisionError('division by zero')
        if b.is_constant():
            return a * (Fraction(1) / b.constant_coefficient())
        return Frac(a, b)
    __truediv__ = __div__

    def __rdiv__(self, o):
        return self.ring(o).__div__(self)
    __rtruediv__ = __rdiv__

    def __floordiv__(self, o):
        a, b = self._co(o)
        return divide(a, [b])[0][0]

    def __mod__(self, o):
        a, b = self._co(o)
        return divide(a, [b])[1]

    def __pow__(self, n):
        r = self.ring(1)
        for _ in range(int(n)):
            r = r * self
        return r

    # identity: by variable names, as Sage's coercion does
    def canon(self):
        if self._h is None:
            self._h = frozenset((tuple((n, e) for n, e in zip(self.ring.names, m) if e), c) for m, c in self.t.items())
        return self._h

    def __hash__(self):
        if self._hh is None:
            self._hh = hash(self.constant_coefficient()) if self.is_constant() else hash(self.canon())
        return self._hh

    def __eq__(self, o):
        if isinstance(o, MPolynomial_libsingular):
            return self.canon() == o.canon()
        if isnum(o):
            return self.is_constant() and self.constant_coefficient() == o
        return False

    def __ne__(self, o):
        return not self == o

    def _cmp(self, o):
        a, b = self._co(o)
        if a is None:
            raise TypeError('cannot compare')
        for m in sorted(set(a.t) | set(b.t), key=key, reverse=True):
            x, y = a.t.get(m, 0), b.t.get(m, 0)
            if x == y:
                continue
            if any(m):                       # not numbers: Sage compares the terms
                if x == 0:
                    return -1
                if y == 0:
                    return 1
            return -1 if x < y else 1
        return 0

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __nonzero__(self):
        return bool(self.t)

    def __float__(self):
        return float(num(self))

    def __int__(self):
        return int(ZZ(num(self)))

    def __abs__(self):
        return abs(num(self))

    def __call__(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], dict):
            return self.substitute(a[0])
        if k:
            return self.substitute(dict((self.ring.gen(self.ring.names.index(n)), v) for n, v in k.items()))
        if len(a) == 1 and isinstance(a[0], (list, tuple)):
            a = a[0]
        return self.substitute(dict(zip(self.ring.gens(), a)))

    # queries
    def is_constant(self):
        return all(not any(m) for m in self.t)

    def is_zero(self):
        return not self.t

    def constant_coefficient(self):
        return Rational(self.t.get((0,) * len(self.ring.names), Fraction(0)))

    def variables(self):
        return tuple(self.ring.gen(i) for i in range(len(self.ring.names)) if any(m[i] for m in self.t))

    def nvariables(self):
        return Integer(len(self.variables()))

    def is_univariate(self):
        return len(self.variables()) <= 1

    def genname(self):
        # the name of the variable this is
        if len(self.t) == 1:
            m, c = list(self.t.items())[0]
            if c == 1 and sum(m) == 1:
                return self.ring.names[m.index(1)]
        raise TypeError('not a generator: %s' % self)

    def _ix(self, v):
        n = v.genname()
        if n in self.ring.names:
            return self.ring.names.index(n)
        raise TypeError('not a generator: %s' % v)

    def degree(self, v=None):
        if not self.t:
            return Integer(-1)
        if v is None:
            return self.total_degree()
        i = self._ix(v)
        return Integer(max(m[i] for m in self.t))

    def degrees(self):
        return tuple(self.degree(v) for v in self.ring.gens())

    def total_degree(self):
        if not self.t:
            return Integer(-1)
        return Integer(max(sum(m) for m in self.t))

    def _ms(self):
        return sorted(self.t, key=key, reverse=True)

    def monomials(self):
        return [MPolynomial_libsingular(self.ring, {m: 1}) for m in self._ms()]

    def coefficients(self):
        return [Rational(self.t[m]) for m in self._ms()]

    def lm(self):
        if not self.t:
            return self
        return MPolynomial_libsingular(self.ring, {self._ms()[0]: 1})

    def lt(self):
        if not self.t:
            return self
        m = self._ms()[0]
        return MPolynomial_libsingular(self.ring, {m: self.t[m]})

    def lc(self):
        return Rational(self.t[self._ms()[0]]) if self.t else Rational(0)
    leading_coefficient = lc

    def coefficient(self, d):
        if isinstance(d, dict):
            want = dict((self._ix(v), int(e)) for v, e in d.items())
        elif isinstance(d, MPolynomial_libsingular) and len(d.t) == 1:
            m = list(self.ring(d).t)[0]
            want = dict((i, e) for i, e in enumerate(m) if e)
            if not want:
                want = dict((i, 0) for i in range(len(m)))
        else:
            raise ShimMissing('coefficient(%r)' % (d,))
        t = {}
        for m, c in self.t.items():
            if all(m[i] == e for i, e in want.items()):
                t[tuple(0 if i in want else e for i, e in enumerate(m))] = c
        return MPolynomial_libsingular(self.ring, t)

    def monomial_coefficient(self, mon):
        return Rational(self.t.get(list(self.ring(mon).t)[0], 0))

    def derivative(self, v=None):
        i = 0 if v is None else self._ix(v)
        t = {}
        for m, c in self.t.items():
            if m[i]:
                e = list(m)
                e[i] -= 1
                t[tuple(e)] = c * m[i]
        return MPolynomial_libsingular(self.ring, t)

    def substitute(self, d=None, **kw):
        d = dict(d or {})
        for n, v in kw.items():
            d[self.ring.gen(self.ring.names.index(n))] = v
        vals = [None] * len(self.ring.names)
        for v, x in d.items():
            if isinstance(v, basestring):
                v = self.ring(v)
            if not isinstance(v, MPolynomial_libsingular):
                raise TypeError('key %r' % (v,))
            vn = v.genname()
            if vn in self.ring.names:
                vals[self.ring.names.index(vn)] = x if isinstance(x, (MPolynomial_libsingular, Rational)) else num(x)
        if all(isinstance(vals[i], Rational) for i in set(i for m in self.t for i, n in enumerate(m) if n)):
            tot = Fraction(0)
            fv = [None if v is None or not isinstance(v, Rational) else (v.numerator if v.denominator == 1 else Fraction(v)) for v in vals]
            for m, c in self.t.items():
                k = c if c.denominator != 1 else c.numerator
                for i, n in enumerate(m):
                    if n:
                        k = k * fv[i] ** n
                tot += k
            return MPolynomial_libsingular(self.ring, {(0,) * len(vals): tot})
        r = self.ring(0)
        for m, c in self.t.items():
            e = [0] * len(m)
            k = self.ring(c)
            for i, n in enumerate(m):
                if n:
                    if vals[i] is None:
                        e[i] = n
                    else:
                        k = k * vals[i] ** n
            r = r + k * MPolynomial_libsingular(self.ring, {tuple(e): 1})
        return r
    subs = substitute

    def univariate_polynomial(self, R=None):
        vs = self.variables()
        if len(vs) > 1:
            raise TypeError('polynomial must involve at most one variable')
        i = self._ix(vs[0]) if vs else 0
        n = self.ring.names[i]
        return Ring((n,), True)(self)

    def polynomial(self, v):
        raise ShimMissing('polynomial')

    def _coeffs(self, i):
        """as a polynomial in variable i, lowest first"""
        r = []
        for m, c in self.t.items():
            while len(r) <= m[i]:
                r.append({})
            e = list(m)
            e[i] = 0
            r[m[i]][tuple(e)] = c
        return [MPolynomial_libsingular(self.ring, t) for t in r]

    def resultant(self, o, v=None):
        a, b = self._co(o)
        i = 0 if v is None else a._ix(v)
        p, q = a._coeffs(i), b._coeffs(i)
        if not p or not q:
            return a.ring(0)
        m, n = len(p) - 1, len(q) - 1
        z = a.ring(0)
        rows = []
        for k in range(n):
            rows.append([z] * k + list(reversed(p)) + [z] * (n - 1 - k))
        for k in range(m):
            rows.append([z] * k + list(reversed(q)) + [z] * (m - 1 - k))
        return det(rows, a.ring)

    def discriminant(self, v=None):
        if v is None:
            v = self.ring.gen(0)
        if self.is_zero():
            return self
        n = int(self.degree(v))
        d = self.derivative(v)
        if d.is_zero():
            return self.ring(0)
        k = int(d.degree(v))
        u = -1 if n % 4 in (2, 3) else 1
        an = self.coefficient({v: n})
        r = self.resultant(d, v) * u
        e = n - k - 2
        for _ in range(e):
            r = r * an
        for _ in range(-e):
            r = self.ring(Frac(r, an))
        return r

    def gcd(self, o):
        a, b = self._co(o)
        return mgcd(a, b)

    def lcm(self, o):
        a, b = self._co(o)
        return a * b // mgcd(a, b)

    def is_squarefree(self):
        return not self.is_zero() and all(e == 1 for _, e in factors(self))

    def dict(self):
        return dict((m, Rational(c)) for m, c in self.t.items())

    def exponents(self):
        return [m for m in self._ms()]

    def leading_coefficient(self):
        return self.lc()

    def is_unit(self):
        return self.is_constant() and not self.is_zero()

    def is_one(self):
        return self == 1

    def change_ring(self, R):
        return R(self)

    def factor(self, *a, **k):
        if self.is_zero():
            raise ArithmeticError('factorization of 0 is not defined')
        return Factorization([(MPolynomial_libsingular(self.ring, t), e) for t, e in factors(self)],
                             Rational(self.lc()))

    def reduce(self, B):
        return divide(self, [self.ring(b) for b in B if self.ring(b).t])[1]

    # univariate
    def list(self):
        p = []
        i = 0 if len(self.ring.names) == 1 else self._ix(self.variables()[0])
        for m, c in self.t.items():
            while len(p) <= m[i]:
                p.append(Fraction(0))
            p[m[i]] += c
        return p

    def __iter__(self):
        if self.ring.uni:
            return iter([Rational(c) for c in self.list()])
        return iter([(c, m) for c, m in zip(self.coefficients(), self.monomials())])

    def roots(self, ring=None, multiplicities=True):
        if ring is not None and ring is not QQ:
            raise ShimMissing('roots(%r)' % (ring,))
        p = self.list()
        if not p:
            raise ValueError('roots of 0 are not defined')
        out = []
        for r in rat_roots(p):
            m = 0
            q = p
            while len(q) > 1 and ev(q, r) == 0:
                q = deflate(q, r)
                m += 1
            out.append((Rational(r), m))
        return out if multiplicities else [r for r, m in out]

    def real_root_intervals(self):
        p = self.list()
        if not p:
            raise ArithmeticError('taking the roots of the zero polynomial')
        return ENV.intervals(p)

    def real_roots(self):
        raise ShimMissing('real_roots')

    def squarefree_decomposition(self):
        by = {}
        for t, e in factors(self):
            by[e] = by.get(e, self.ring(1)) * MPolynomial_libsingular(self.ring, t)
        return Factorization(sorted([(p, e) for e, p in by.items()], key=lambda x: x[1]), Rational(self.lc()))

    def __str__(self):
        if not self.t:
            return '0'
        out = []
        for m in self._ms():
            c = self.t[m]
            mon = '*'.join(n if e == 1 else '%s^%d' % (n, e) for n, e in zip(self.ring.names, m) if e)
            if not mon:
                s = str(Rational(c))
            elif c == 1:
                s = mon
            elif c == -1:
                s = '-' + mon
            else:
                s = str(Rational(c)) + '*' + mon
            if out:
                s = (' - ' + s[1:]) if s[0] == '-' else ' + ' + s
            out.append(s)
        return ''.join(out)
    __repr__ = __str__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise ShimMissing('polynomial.' + n)


class Factorization(list):
    def __init__(self, l, unit):
        list.__init__(self, l)
        self._u = unit

    def unit(self):
        return self._u


FACTORS = {}


def factors(p):
    """monic irreducible factors and multiplicities, by sympy"""
    if p.is_constant():
        return []
    if p.total_degree() == 1:
        return [(monic(p).t, 1)]
    k = (p.ring.names, frozenset(p.t.items()))
    if k not in FACTORS:
        import sympy
        xs = sympy.symbols(' '.join(p.ring.names) + ' zz')[:-1]
        e = sympy.Poly(dict((m, sympy.Rational(c.numerator, c.denominator)) for m, c in p.t.items()), *xs, domain='QQ')
        out = []
        for f, n in e.factor_list()[1]:
            t = dict((tuple(int(i) for i in m), Fraction(int(sympy.Rational(c).p), int(sympy.Rational(c).q))) for m, c in f.terms())
            out.append((monic(MPolynomial_libsingular(p.ring, t)).t, int(n)))
        FACTORS[k] = out
    return FACTORS[k]


def det(rows, R):
    """fraction-free elimination (Bareiss)"""
    n = len(rows)
    if n == 0:
        return R(1)
    a = [list(r) for r in rows]
    sign, prev = 1, R(1)
    for k in range(n - 1):
        if not a[k][k].t:
            for i in range(k + 1, n):
                if a[i][k].t:
                    a[k], a[i] = a[i], a[k]
                    sign = -sign
                    break
            else:
                return R(0)
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                a[i][j] = R(Frac(a[i][j] * a[k][k] - a[i][k] * a[k][j], prev))
        prev = a[k][k]
    return a[n - 1][n - 1] * sign


def divide(p, bs):
    """multivariate division: quotients and remainder"""
    R = p.ring
    qs = [{} for _ in bs]
    lead = [(b._ms()[0], b) for b in bs]
    rem = {}
    t = dict(p.t)
    while t:
        m = max(t, key=key)
        c = t[m]
        for i, (l, b) in enumerate(lead):
            if all(x >= y for x, y in zip(m, l)):
                s = tuple(x - y for x, y in zip(m, l))
                f = c / b.t[l]
                qs[i][s] = qs[i].get(s, 0) + f
                for n, d in b.t.items():
                    k = tuple(x + y for x, y in zip(n, s))
                    v = t.get(k, 0) - f * d
                    if v:
                        t[k] = v
                    else:
                        t.pop(k, None)
                break
        else:
            rem[m] = c
            del t[m]
    return [MPolynomial_libsingular(R, q) for q in qs], MPolynomial_libsingular(R, rem)


def monic(p):
    return p * (Fraction(1) / p.t[p._ms()[0]])


def groebner(ps):
    g = []
    for p in ps:
        r = divide(p, g)[1] if g else p
        if r.t:
            g.append(monic(r))
    pairs = [(i, j) for j in range(len(g)) for i in range(j)]
    while pairs:
        i, j = pairs.pop(0)
        a, b = g[i]._ms()[0], g[j]._ms()[0]
        l = tuple(max(x, y) for x, y in zip(a, b))
        R = g[i].ring
        s = g[i] * MPolynomial_libsingular(R, {tuple(x - y for x, y in zip(l, a)): 1}) - \
            g[j] * MPolynomial_libsingular(R, {tuple(x - y for x, y in zip(l, b)): 1})
        r = divide(s, g)[1]
        if r.t:
            g.append(monic(r))
            pairs += [(k, len(g) - 1) for k in range(len(g) - 1)]
    # reduced basis
    g = sorted(g, key=lambda p: key(p._ms()[0]))
    out = []
    for i, p in enumerate(g):
        lm = p._ms()[0]
        if any(all(x >= y for x, y in zip(lm, q._ms()[0])) for q in out):
            continue
        out.append(p)
    red = []
    for i, p in enumerate(out):
        others = out[:i] + out[i + 1:]
        red.append(monic(divide(p, others)[1]) if others else monic(p))
    return sorted(red, key=lambda p: key(p._ms()[0]), reverse=True)


class Ideal(object):
    def __init__(self, ps):
        R = ps[0].ring
        for p in ps[1:]:
            R = common(R, p.ring)
        self.R = R
        self._g = [R(p) for p in ps]

    def gens(self):
        return list(self._g)

    def ring(self):
        return self.R

    def groebner_basis(self, *a, **k):
        g = groebner([p for p in self._g if p.t])
        return g if g else [self.R(0)]

    def reduce(self, p):
        return self.R(p).reduce(self.groebner_basis())

    def __contains__(self, p):
        return not self.reduce(p).t


def ideal(*ps):
    if len(ps) == 1 and isinstance(ps[0], (list, tuple)):
        ps = ps[0]
    ps = [p for p in ps]
    if not ps or not all(isinstance(p, MPolynomial_libsingular) for p in ps):
        raise ShimMissing('ideal(%r)' % (ps,))
    return Ideal(ps)


def mgcd(a, b):
    if a.is_zero():
        return monic(b) if not b.is_zero() else b
    if b.is_zero():
        return monic(a)
    r = a.ring(1)
    fb = dict((frozenset(t.items()), e) for t, e in factors(b))
    for t, e in factors(a):
        for _ in range(min(e, fb.get(frozenset(t.items()), 0))):
            r = r * MPolynomial_libsingular(a.ring, t)
    return r


def gcd(a, b=None):
    l = list(a) if b is None else [a, b]
    if any(isinstance(p, MPolynomial_libsingular) for p in l):
        R = [p for p in l if isinstance(p, MPolynomial_libsingular)][0].ring
        return reduce(mgcd, [R(p) for p in l])
    from fractions import gcd as g
    return reduce(g, l)


def flatten(l, ltypes=(list, tuple)):
    return sum([flatten(x, ltypes) if isinstance(x, ltypes) else [x] for x in l], [])


def srange(a, b=None, step=1):
    a, b = (0, a) if b is None else (a, b)
    r = []
    while a < b if step > 0 else a > b:
        r.append(a)
        a = a + step
    return r


# univariate, lists of Fractions lowest first

def ev(p, x):
    r = Fraction(0)
    for c in reversed(p):
        r = r * x + c
    return r


def deflate(p, r):
    q = [Fraction(0)] * (len(p) - 1)
    c = Fraction(0)
    for i in range(len(p) - 1, 0, -1):
        c = p[i] + c * r
        q[i - 1] = c
    return q


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def umod(p, q):
    p = trim(p)
    while len(p) >= len(q):
        c = p[-1] / q[-1]
        s = len(p) - len(q)
        for i, b in enumerate(q):
            p[s + i] -= c * b
        p = trim(p[:-1])
    return p


def udiv(p, q):
    p = trim(p)
    out = [Fraction(0)] * max(0, len(p) - len(q) + 1)
    while len(p) >= len(q):
        c = p[-1] / q[-1]
        s = len(p) - len(q)
        out[s] = c
        for i, b in enumerate(q):
            p[s + i] -= c * b
        p = trim(p[:-1])
    return out


def ugcd(p, q):
    p, q = trim(p), trim(q)
    while q:
        p, q = q, umod(p, q)
    return [c / p[-1] for c in p]


def squarefree(p):
    d = [i * c for i, c in enumerate(p)][1:]
    if not trim(d):
        return p
    g = ugcd(p, d)
    return udiv(p, g) if len(g) > 1 else p


def sturm(p):
    s = [p, trim([i * c for i, c in enumerate(p)][1:])]
    while s[-1]:
        s.append([-c for c in umod(s[-2], s[-1])])
    s.pop()
    return s


def variations(s, x):
    v = [ev(p, x) for p in s]
    v = [a for a in v if a]
    return sum(1 for a, b in zip(v, v[1:]) if (a < 0) != (b < 0))


def divisors(n):
    n = abs(n)
    return [d for d in range(1, min(n, 200000) + 1) if n % d == 0]


def rat_roots(p):
    out = []
    p = list(p)
    if p[0] == 0:
        out.append(Fraction(0))
        while p[0] == 0:
            p = p[1:]
    if len(p) > 1:
        l = 1
        for c in p:
            l = l * c.denominator // gcd(l, c.denominator)
        q = squarefree(p)
        l = 1
        for c in q:
            l = l * c.denominator // gcd(l, c.denominator)
        z = [int(c * l) for c in q]
        g = 0
        for c in z:
            g = gcd(g, c)
        z = [c // g for c in z]
        # isolate the real roots, refine to less than half the gap between two rationals with that denominator
        den = abs(z[-1])
        for a, b in isolate([Fraction(c) for c in z]):
            if a == b:
                out.append(a)
                continue
            while (b - a) * den >= Fraction(1, 2):
                a, b = halve([Fraction(c) for c in z], a, b)
                if a == b:
                    break
            if a == b:
                out.append(a)
                continue
            k = (a * den)
            n = -((-k.numerator) // k.denominator)
            for cand in (Fraction(n, den), Fraction(n + 1, den)):
                if a < cand < b and ev(q, cand) == 0:
                    out.append(cand)
    return sorted(set(out))


def halve(p, a, b):
    m = (a + b) / 2
    v = ev(p, m)
    if v == 0:
        return m, m
    if (v < 0) != (ev(p, b) < 0):
        return m, b
    return a, m


def isolate(p):
    """disjoint open intervals (a, b) with one root each and ends that are no roots, or (r, r); p squarefree"""
    p = trim(p)
    if len(p) <= 1:
        return []
    s = sturm(p)
    B = 1 + max(abs(c / p[-1]) for c in p[:-1])
    k = Fraction(1)
    while k < B:
        k *= 2
    out = []
    todo = [(-k, k)]
    while todo:
        a, b = todo.pop()
        n = variations(s, a) - variations(s, b)
        if n == 0:
            continue
        if n == 1:
            out.append((a, b))
            continue
        m = (a + b) / 2
        if ev(p, m) == 0:
            out.append((m, m))
            d = (b - a) / 4
            while variations(s, m - d) - variations(s, m + d) > 1 or ev(p, m - d) == 0 or ev(p, m + d) == 0:
                d /= 2
            todo += [(a, m - d), (m + d, b)]
        else:
            todo += [(a, m), (m, b)]
    return sorted(out)


# ---------------------------------------------------------------- the environment

class Env(object):
    """every source of nondeterminism; pattern = list of outcomes in [0, 1], cycled"""
    def __init__(self):
        self.reset()

    def reset(self, draws=(Fraction(1, 2),), moves=('stay',), tie='first', width=Fraction(1, 4), script=()):
        self.draws, self.moves, self.tie, self.width = [Fraction(d) for d in draws], list(moves), tie, Fraction(width)
        self.nd = self.nm = 0
        self.script = list(script)
        self.n = 0

    def draw(self):
        self.n += 1
        if self.n > 20000:
            raise RuntimeError('more than 20000 random draws')
        d = self.draws[self.nd % len(self.draws)]
        self.nd += 1
        return d

    def uniform(self, a, b):
        a, b = num(a), num(b)
        return Rational(a + (b - a) * self.draw())

    def random(self):
        d = self.draw()
        return d if d < 1 else Fraction(1023, 1024)

    def choice(self, xs):
        xs = list(xs)
        if not xs:
            raise IndexError('Cannot choose from an empty sequence')
        return xs[min(int(self.draw() * len(xs)), len(xs) - 1)]

    def fsolve(self, f, x0, *a, **k):
        x = [num(v) for v in x0]
        r = f(list(x))
        if len(r) != len(x):
            raise TypeError('fsolve: there is a mismatch between the input and output shape of the func argument')
        [float(v) for v in r]
        m = self.moves[self.nm % len(self.moves)]
        self.nm += 1
        if m == 'stay':
            return x
        if m == 'zero':
            return [Rational(0) for v in x]
        if m == 'neg':
            return [Rational(-v) for v in x]
        if m == 'up':
            return [Rational(v + 1) for v in x]
        if m == 'down':
            return [Rational(v - 1) for v in x]
        raise ValueError(m)

    def intervals(self, p):
        """isolating intervals, of any width up to self.width when asked"""
        mult = lambda a, b: 1
        q = squarefree(p)
        out = []
        for a, b in isolate(q):
            while a != b and b - a > self.width:
                a, b = halve(q, a, b)
            out.append(((Rational(a), Rational(b)), 1))
        return out

    def raw_input(self, prompt=''):
        if not self.script:
            raise EOFError('no more input')
        return self.script.pop(0)


ENV = Env()


# ---------------------------------------------------------------- 0-1 programs

class MIPSolverException(Exception):
    pass


class Lin(object):
    def __init__(self, c, k=0):
        self.c, self.k = c, k

    def __add__(self, o):
        if isnum(o):
            return Lin(dict(self.c), self.k + o)
        c = dict(self.c)
        for v, a in o.c.items():
            c[v] = c.get(v, 0) + a
        return Lin(c, self.k + o.k)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, a):
        return Lin(dict((v, x * a) for v, x in self.c.items()), self.k * a)
    __rmul__ = __mul__

    def __ge__(self, o):
        return ('>=', self - o)

    def __le__(self, o):
        return ('<=', self - o)

    def __eq__(self, o):
        return ('==', self - o)

    def __ne__(self, o):
        raise ShimMissing('!=')

    def __hash__(self):
        return id(self)


class MIPVariable(object):
    def __init__(self):
        self.v = {}

    def __getitem__(self, i):
        if i not in self.v:
            self.v[i] = Lin({i: 1})
        return self.v[i]


class MixedIntegerLinearProgram(object):
    def __init__(self, maximization=True, **kw):
        self.max = maximization
        self.cons, self.obj, self.var, self.sol = [], Lin({}), None, None

    def new_variable(self, binary=False, **kw):
        if not binary or self.var is not None:
            raise ShimMissing('variables that are not binary')
        self.var = MIPVariable()
        return self.var

    def add_constraint(self, con, min=None, max=None):
        if isinstance(con, Lin):
            if min is not None:
                self.cons.append(('>=', con - min))
            if max is not None:
                self.cons.append(('<=', con - max))
            return
        if isinstance(con, bool):
            raise TypeError('constraint %r' % con)
        self.cons.append(con)

    def set_objective(self, o):
        self.obj = o if isinstance(o, Lin) else Lin({}, o or 0)

    def show(self):
        print 'objective %r, %d constraints' % (self.obj.c, len(self.cons))

    def solve(self, *a, **k):
        vs = sorted(self.var.v)
        if len(vs) > 14:
            raise ShimMissing('more than 14 binary variables')
        best = None
        order = itertools.product((0, 1), repeat=len(vs))
        if ENV.tie == 'last':
            order = itertools.product((1, 0), repeat=len(vs))
        for x in order:
            s = dict(zip(vs, x))
            val = lambda l: sum(c * s[v] for v, c in l.c.items()) + l.k
            if all(val(l) >= 0 if r == '>=' else val(l) <= 0 if r == '<=' else val(l) == 0 for r, l in self.cons):
                o = val(self.obj) * (-1 if self.max else 1)
                if best is None or o < best[0]:
                    best = (o, s)
        if best is None:
            raise MIPSolverException('the problem has no feasible solution')
        self.sol = best[1]
        return best[0]

    def get_values(self, *vs):
        if len(vs) == 1 and vs[0] is self.var:
            return dict((i, float(v)) for i, v in self.sol.items())
        if len(vs) == 1 and isinstance(vs[0], Lin):
            return float(sum(c * self.sol[v] for v, c in vs[0].c.items()) + vs[0].k)
        raise ShimMissing('get_values')

    def __getattr__(self, n):
        raise ShimMissing('MixedIntegerLinearProgram.' + n)


# ---------------------------------------------------------------- loading

class Absent(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__') or n == '*':
            raise AttributeError(n)
        raise ShimMissing('%s.%s' % (self.__name__, n))


def module(name, **attrs):
    m = Absent(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    sys.modules[name] = m
    if '.' in name:
        up, last = name.rsplit('.', 1)
        if up not in sys.modules:
            module(up)
        setattr(sys.modules[up], last, m)
    return m


def join(l, sep=' '):
    return sep.join(l)


def preparse(src):
    """Sage's reading of a .sage file: ^ is **, integer literals are Integers"""
    out = []
    for t in tokenize.generate_tokens(StringIO.StringIO(src).readline):
        ty, s, (sr, sc), (er, ec), line = t
        if ty == tokenize.OP and s == '^':
            out.append((ty, '**', (sr, sc), (er, ec)))
        elif ty == tokenize.NUMBER and s.isdigit():
            out.append((ty, 'Integer(%s)' % s, (sr, sc), (er, ec)))
        else:
            out.append((ty, s, (sr, sc), (er, ec)))
    # put the tokens back at their places
    res, row, col, shift = [], 1, 0, 0
    lines = src.split('\n')
    for ty, s, (sr, sc), (er, ec) in out:
        if ty in (tokenize.INDENT, tokenize.DEDENT, tokenize.ENDMARKER):
            continue
        if sr > row:
            gap = lines[row - 1][col:]
            # continuation lines
            res.append(gap + '\n')
            for r in range(row + 1, sr):
                res.append(lines[r - 1] + '\n')
            row, col = sr, 0
        res.append(lines[row - 1][col:sc])
        if ty in (tokenize.NEWLINE, tokenize.NL):
            res.append('\n' if s else '')
            row, col = row + 1, 0
            continue
        res.append(s)
        row, col = er, ec
    return ''.join(res)


def load(repo):
    """the names GRF/README.txt's session has after load('grf.sage') and load('smt2.py')"""
    import random, pipes, tempfile, pyparsing
    real_random = random
    random.seed(1)
    module('random', uniform=ENV.uniform, choice=ENV.choice, random=ENV.random, seed=lambda *a: None)
    module('sage.rings.polynomial.real_roots').__all__ = []
    module('sage.rings.polynomial.multi_polynomial_libsingular', MPolynomial_libsingular=MPolynomial_libsingular)
    module('sage.numerical.optimize', minimize=None)
    module('sage.all')
    module('numpy', array=list)
    module('scipy.optimize', fsolve=ENV.fsolve)
    m = module('matplotlib')
    sys.modules['matplotlib.pyparsing_py2'] = pyparsing
    m.pyparsing_py2 = pyparsing
    d = os.path.join(repo, 'GRF')
    sys.path.insert(0, d)
    ns = {'__name__': 'grf_session', 'QQ': QQ, 'RR': RR, 'ZZ': ZZ, 'Integer': Integer, 'PolynomialRing': PolynomialRing,
          'parent': parent, 'ideal': ideal, 'true': True, 'false': False, 'floor': floor, 'ceil': ceil,
          'sage_eval': sage_eval, 'join': join, 'MixedIntegerLinearProgram': MixedIntegerLinearProgram,
          'raw_input': ENV.raw_input, 'Rational': Rational, 'gcd': gcd, 'flatten': flatten, 'srange': srange, 'xsrange': srange, 'prod': lambda l, *z: reduce(lambda a, b: a * b, l, 1), 'Ideal': ideal}
    for f in ('grf.sage', 'smt2.py'):
        p = os.path.join(d, f)
        src = open(p).read()
        if not src.endswith('\n'):
            src += '\n'
        if f.endswith('.sage'):
            src = preparse(src)
        exec compile(src, p, 'exec') in ns
    sys.modules['random'] = real_random          # sympy's own
    return ns
