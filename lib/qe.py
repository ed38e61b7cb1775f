"""Exact decision of  exists x: signs  at a parameter point (real or complex); independent of /repo.

A system polynomial is a list of terms [i, j, k, c]: c x^i y^j z^k.
Parameter points: Fraction or poly.Alg (one parameter y), or (Fraction, Fraction) for (y, z)."""
import itertools
from fractions import Fraction as F
from . import poly as P


def xcoefs(p, z=0):
    """coefficients in x, lowest first, each a polynomial in y (z substituted)"""
    n = max([t[0] for t in p] or [-1]) + 1
    r = [[] for _ in range(n)]
    for i, j, k, c in p:
        r[i] = P.add(r[i], [F(0)] * j + [F(c) * F(z) ** k])
    return r


def at(p, y, z=0):
    return P.norm([P.ev(c, y) if c else 0 for c in xcoefs(p, z)])


# ---------------------------------------------------------------- reals, rational point
def real_rational(le, eq, ge, y, z=0):
    ps = [(at(p, y, z), s) for ps_, s in ((le, -1), (eq, 0), (ge, 1)) for p in ps_]
    for pt in P.cells([p for p, _ in ps]):
        if all(P.sign_at(p, pt) == s for p, s in ps):
            return True
    return False


# ---------------------------------------------------------------- reals, algebraic point (coefficients in Q[y])
class Field:
    """polynomials in x over Q[y] evaluated at the algebraic number y0; only signs of coefficients are used"""

    def __init__(self, y0):
        self.y0 = y0
        self.memo = {}

    def sgn(self, c):
        k = tuple(c)
        if k not in self.memo:
            self.memo[k] = self.y0.sign(c)
        return self.memo[k]

    def red(self, c):
        return P.rem(c, self.y0.f) if len(c) >= len(self.y0.f) else c

    def norm(self, p):
        p = list(p)
        while p and self.sgn(p[-1]) == 0:
            p.pop()
        return p

    def mul(self, p, q):
        if not p or not q:
            return []
        r = [[] for _ in range(len(p) + len(q) - 1)]
        for i, a in enumerate(p):
            for j, b in enumerate(q):
                r[i + j] = P.add(r[i + j], P.mul(a, b))
        return self.norm([self.red(c) for c in r])

    def add(self, p, q):
        n = max(len(p), len(q))
        g = lambda l, i: l[i] if i < len(l) else []
        return self.norm([P.add(g(p, i), g(q, i)) for i in range(n)])

    def neg(self, p):
        return [P.neg(c) for c in p]

    def der(self, p):
        return self.norm([P.mul([F(i)], c) for i, c in enumerate(p)][1:])

    def srem(self, p, q):
        """a positive multiple of the remainder"""
        p = list(p)
        l, s = q[-1], self.sgn(q[-1])
        while len(p) >= len(q):
            c = p[-1]
            d = len(p) - len(q)
            # |l| p - sign(l) c x^d q
            m = l if s > 0 else P.neg(l)
            cc = c if s > 0 else P.neg(c)
            p = [self.red(P.mul(m, a)) for a in p]
            for i, b in enumerate(q):
                p[d + i] = P.sub(p[d + i], self.red(P.mul(cc, b)))
            p = self.norm(p[:-1])
        return p

    def taq(self, p, q):
        """sum over the real roots of p of the sign of q"""
        p = self.norm(p)
        if len(p) <= 1:
            return 0
        a, b = p, self.mul(self.der(p), q)
        seq = [a]
        # first step: b may have larger degree; Cauchy index of b/a = of rem(b, a)/a
        b = self.srem(b, a) if len(b) >= len(a) else b
        while b:
            seq.append(b)
            a, b = b, self.neg(self.srem(a, b))
        v = lambda ss: sum(1 for s, t in zip(ss, ss[1:]) if s != t)
        pos = [self.sgn(s[-1]) for s in seq]
        ne = [s * (-1) ** (len(t) - 1) for s, t in zip(pos, seq)]
        return v(ne) - v(pos)

    def count_pos(self, p, qs):
        """number of real roots of p where all qs are positive"""
        tot = F(0)
        for e in itertools.product((1, 2), repeat=len(qs)):
            q = [[F(1)]]
            for f, n in zip(qs, e):
                for _ in range(n):
                    q = self.mul(q, f)
            tot += self.taq(p, q) if q else 0
        return tot / 2 ** len(qs)


def real_algebraic(le, eq, ge, y0):
    K = Field(y0)
    E = [p for p in (K.norm(xcoefs(q)) for q in eq) if p]
    S = [K.neg(K.norm(xcoefs(q))) for q in le] + [K.norm(xcoefs(q)) for q in ge]
    if any(not s for s in S):
        return False
    if E:
        p = []
        for e in E:
            p = K.add(p, K.mul(e, e))
        return K.count_pos(p, S) > 0
    if all(K.sgn(s[-1]) > 0 for s in S) or all(K.sgn(s[-1]) * (-1) ** (len(s) - 1) > 0 for s in S):
        return True
    q = [[F(1)]]
    for s in S:
        q = K.mul(q, s)
    return K.count_pos(K.der(q), S) > 0


def real(le, eq, ge, pt):
    if isinstance(pt, tuple):
        return real_rational(le, eq, ge, *pt)
    if isinstance(pt, P.Alg):
        if pt.lo == pt.hi:
            return real_rational(le, eq, ge, pt.lo)
        return real_algebraic(le, eq, ge, pt)
    return real_rational(le, eq, ge, pt)


# ---------------------------------------------------------------- complex: dynamic evaluation over Q[y]/(f)
class Split(Exception):
    pass


class Res:
    """Q[y]/(f), f squarefree; raises Split(g) with a proper factor when an element is neither zero nor a unit"""

    def __init__(self, f):
        self.f = P.monic(P.norm(f))

    def red(self, c):
        return P.rem(c, self.f) if len(c) >= len(self.f) else c

    def zero(self, c):
        c = self.red(c)
        if not c:
            return True
        g = P.gcd(c, self.f)
        if len(g) > 1:
            raise Split(g)
        return False

    def inv(self, c):
        # extended Euclid
        a, b, s, t = self.f, self.red(c), [], [F(1)]
        while len(b) > 1:
            q, r = P.divmod_(a, b)
            a, b, s, t = b, r, t, P.sub(s, P.mul(q, t))
        return [v / b[0] for v in t]

    def norm(self, p):
        p = [self.red(c) for c in p]
        while p and self.zero(p[-1]):
            p.pop()
        return p

    def rem(self, p, q):
        li = self.inv(q[-1])
        p = list(p)
        while len(p) >= len(q):
            c = self.red(P.mul(p[-1], li))
            d = len(p) - len(q)
            for i, b in enumerate(q):
                p[d + i] = P.sub(p[d + i], self.red(P.mul(c, b)))
            p = self.norm(p[:-1])
        return p

    def gcd(self, p, q):
        while q:
            p, q = q, self.rem(p, q)
        return p

    def quo(self, p, q):
        li = self.inv(q[-1])
        p, out = list(p), [[] for _ in range(max(0, len(p) - len(q) + 1))]
        while len(p) >= len(q):
            c = self.red(P.mul(p[-1], li))
            d = len(p) - len(q)
            out[d] = c
            for i, b in enumerate(q):
                p[d + i] = P.sub(p[d + i], self.red(P.mul(c, b)))
            p = self.norm(p[:-1])
        return self.norm(out)


def _complex_in(R, eq, ne, z=0):
    E = [R.norm(xcoefs(p, z)) for p in eq]
    N = [R.norm(xcoefs(p, z)) for p in ne]
    if any(not n for n in N):
        return False
    g = []
    for e in E:
        g = R.gcd(g, e) if g else e
    if not g:
        return True
    for n in N:
        while True:
            h = R.gcd(g, n)
            if len(h) <= 1:
                break
            g = R.quo(g, h)
    return len(g) > 1


def complex_on(eq, ne, formula, f):
    """list of (factor of f, truth, formula value), together covering all complex roots of f"""
    out, todo = [], [P.monic(P.norm(f))]
    while todo:
        f = todo.pop()
        if len(f) <= 1:
            continue
        R = Res(f)
        try:
            t = _complex_in(R, eq, ne)
            v = any(all(R.zero(ypoly(p)) for p in zs) and not any(R.zero(ypoly(p)) for p in ns) for zs, ns in formula)
            out.append((f, t, v))
        except Split as s:
            todo += [s.args[0], P.quo(f, s.args[0])]
    return out


def ypoly(ts, z=0):
    """answer polynomial [[j, k, c], ...] as a polynomial in y"""
    r = []
    for j, k, c in ts:
        r = P.add(r, [F(0)] * j + [F(c) * F(z) ** k])
    return r


# ---------------------------------------------------------------- cells of the parameter line
def det(m):
    if not m:
        return [F(1)]
    r = []
    for j, a in enumerate(m[0]):
        if a:
            t = P.mul(a, det([row[:j] + row[j + 1:] for row in m[1:]]))
            r = P.add(r, t) if j % 2 == 0 else P.sub(r, t)
    return r


def resultant(p, q):
    m, n = len(p) - 1, len(q) - 1
    if m < 0 or n < 0:
        return []
    if m + n > 6:
        return []
    rows = []
    for i in range(n):
        rows.append([[]] * i + p[::-1] + [[]] * (n - 1 - i))
    for i in range(m):
        rows.append([[]] * i + q[::-1] + [[]] * (m - 1 - i))
    return det(rows)


def projection(ps):
    """polynomials in y outside whose roots the real and complex root pattern of the system does not change"""
    out = []
    cs = [xcoefs(p) for p in ps]
    red = []
    for c in cs:
        c = list(c)
        while c:
            while c and not c[-1]:
                c.pop()
            if c:
                out.append(c[-1])
                red.append(list(c))
                c.pop()
    for c in red:
        d = [P.mul([F(i)], a) for i, a in enumerate(c)][1:]
        if len(d) > 1:
            out.append(resultant(c, d))
    for a, b in itertools.combinations(red, 2):
        if len(a) > 1 and len(b) > 1:
            out.append(resultant(a, b))
    return [p for p in out if len(p) > 1]


def holds_real(formula, pt):
    """value of a returned list of (<0, =0, >0) at a parameter point"""
    def s(ts):
        if isinstance(pt, tuple):
            y, z = pt
            return P.sgn(P.ev(ypoly(ts, z), y))
        return P.sign_at(ypoly(ts), pt)
    return any(all(s(p) == w for part, w in zip(conj, (-1, 0, 1)) for p in part) for conj in formula)
