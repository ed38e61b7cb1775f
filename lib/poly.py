"""Exact univariate real algebra over the rationals (the oracle; independent of /repo and of sympy/z3).

Polynomials are lists of Fractions (or ints), lowest power first, no trailing zeros; [] is zero.
"""
from fractions import Fraction as F


def norm(p):
    p = [F(c) for c in p]
    while p and p[-1] == 0:
        p.pop()
    return p


def deg(p):
    return len(p) - 1


def add(p, q):
    n = max(len(p), len(q))
    return norm([(p[i] if i < len(p) else 0) + (q[i] if i < len(q) else 0) for i in range(n)])


def neg(p):
    return [-c for c in p]


def sub(p, q):
    return add(p, neg(q))


def mul(p, q):
    if not p or not q:
        return []
    r = [F(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        if a:
            for j, b in enumerate(q):
                r[i + j] += a * b
    return norm(r)


def power(p, n):
    r = [F(1)]
    for _ in range(n):
        r = mul(r, p)
    return r


def divmod_(p, q):
    p, q = norm(p), norm(q)
    if not q:
        raise ZeroDivisionError
    quo = [F(0)] * max(0, len(p) - len(q) + 1)
    while len(p) >= len(q):
        c = p[-1] / q[-1]
        s = len(p) - len(q)
        quo[s] = c
        for i, b in enumerate(q):
            p[s + i] -= c * b
        assert p[-1] == 0
        p = norm(p)
    return norm(quo), p


def rem(p, q):
    return divmod_(p, q)[1]


def quo(p, q):
    return divmod_(p, q)[0]


def monic(p):
    return [c / p[-1] for c in p] if p else []


def gcd(p, q):
    p, q = norm(p), norm(q)
    while q:
        p, q = q, rem(p, q)
    return monic(p)


def der(p):
    return norm([i * c for i, c in enumerate(p)][1:])


def ev(p, x):
    r = 0
    for c in reversed(p):
        r = r * x + c
    return r


def sgn(v):
    return (v > 0) - (v < 0)


def squarefree(p):
    p = norm(p)
    if len(p) <= 1:
        return monic(p)
    return monic(quo(p, gcd(p, der(p))))


def sturm(p):
    p = norm(p)
    seq = [p, der(p)]
    while seq[-1]:
        r = rem(seq[-2], seq[-1])
        seq.append(neg(r))
    seq.pop()
    return seq


def var_at(seq, x):
    s = [sgn(ev(p, x)) for p in seq]
    s = [v for v in s if v]
    return sum(1 for a, b in zip(s, s[1:]) if a != b)


def root_bound(p):
    return 1 + max([abs(c / p[-1]) for c in p[:-1]] or [0])


def isolate(p):
    """sorted isolating data of the distinct real roots: list of (lo, hi), lo == hi for an exact rational root,
    else p(lo), p(hi) != 0 and exactly one root strictly between."""
    p = squarefree(p)
    if deg(p) < 1:
        return []
    seq = sturm(p)
    b = root_bound(p) + 1
    out = []
    stack = [(-b, b, var_at(seq, -b), var_at(seq, b))]
    while stack:
        lo, hi, vl, vh = stack.pop()
        n = vl - vh
        if n == 0:
            continue
        if n == 1:
            out.append((lo, hi))
            continue
        mid = (lo + hi) / 2
        k = 3
        while ev(p, mid) == 0:      # split next to, not on, a root
            mid = lo + (hi - lo) * F(k, 2 * k + 1)
            k += 1
        vm = var_at(seq, mid)
        stack.append((lo, mid, vl, vm))
        stack.append((mid, hi, vm, vh))
    return sorted(out)


class Alg:
    """one real root of a squarefree polynomial"""
    __slots__ = ('f', 'lo', 'hi')

    def __init__(self, f, lo, hi):
        self.f, self.lo, self.hi = f, lo, hi

    def refine(self):
        if self.lo == self.hi:
            return
        mid = (self.lo + self.hi) / 2
        s = sgn(ev(self.f, mid))
        if s == 0:
            self.lo = self.hi = mid
        elif s == sgn(ev(self.f, self.lo)):
            self.lo = mid
        else:
            self.hi = mid

    def sign(self, q):
        """exact sign of q at this root"""
        q = norm(q)
        if not q:
            return 0
        if self.lo == self.hi:
            return sgn(ev(q, self.lo))
        g = gcd(self.f, q)
        if deg(g) >= 1:
            a, b = ev(g, self.lo), ev(g, self.hi)
            if a == 0 or b == 0 or sgn(a) != sgn(b):
                # g divides f: f(lo), f(hi) != 0 so a, b != 0; one sign change <=> the root is a root of g
                return 0
        seq = sturm(q) if deg(q) >= 1 else None
        while True:
            if self.lo == self.hi:
                return sgn(ev(q, self.lo))
            if seq is None:
                return sgn(q[0])
            a, b = ev(q, self.lo), ev(q, self.hi)
            if a != 0 and b != 0 and var_at(seq, self.lo) == var_at(seq, self.hi):
                return sgn(a)
            self.refine()


def roots(p):
    f = squarefree(p)
    return [Alg(f, lo, hi) for lo, hi in isolate(f)]


def sign_right(alg, q):
    """sign of q just to the right of alg"""
    q = norm(q)
    while q:
        s = alg.sign(q)
        if s:
            return s
        q = der(q)
    return 0


def basis(polys):
    """pairwise coprime squarefree polynomials with the same real roots in total"""
    out = []
    for p in polys:
        p = squarefree(norm(p))
        if deg(p) < 1:
            continue
        todo = [p]
        while todo:
            p = todo.pop()
            if deg(p) < 1:
                continue
            for i, b in enumerate(out):
                g = gcd(p, b)
                if deg(g) >= 1:
                    out.pop(i)
                    rest = quo(b, g)
                    for r in (g, rest):
                        if deg(r) >= 1:
                            out.append(monic(r))
                    todo.append(quo(p, g))
                    break
            else:
                out.append(monic(p))
    return out


def cells(polys):
    """sample points of every cell of the real line cut by the roots of the polynomials: Fractions for open
    intervals, Alg for roots, in increasing order"""
    rs = []
    for b in basis(polys):
        rs += roots(b)
    # refine until the closed intervals are pairwise disjoint
    while True:
        rs.sort(key=lambda r: (r.lo, r.hi))
        bad = [(a, b) for a, b in zip(rs, rs[1:]) if a.hi >= b.lo]
        if not bad:
            break
        for a, b in bad:
            a.refine()
            b.refine()
    if not rs:
        return [F(0)]
    pts = [rs[0].lo - 1]
    for a, b in zip(rs, rs[1:]):
        pts += [a, (a.hi + b.lo) / 2]
    pts += [rs[-1], rs[-1].hi + 1]
    return pts


def sign_at(p, point):
    if isinstance(point, Alg):
        return point.sign(p)
    return sgn(ev(p, point))


class Universe:
    """sign vectors of a set of polynomials on all cells of the line; constraints become bit masks"""

    def __init__(self, polys):
        self.polys = [norm(p) for p in polys]
        self.pts = cells(self.polys)
        self.signs = [[sign_at(p, c) for c in self.pts] for p in self.polys]
        self.all = (1 << len(self.pts)) - 1
        ok = {'le': (-1, 0), 'lt': (-1,), 'eq': (0,), 'ne': (-1, 1), 'ge': (0, 1), 'gt': (1,)}
        self.mask = [{r: sum(1 << i for i, s in enumerate(v) if s in ok[r]) for r in ok} for v in self.signs]

    def sat(self, cons):
        """cons: (poly index, relation) pairs"""
        m = self.all
        for i, r in cons:
            m &= self.mask[i][r]
        return m != 0
