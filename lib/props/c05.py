"""C05: Tarski queries, Cauchy indices, signed pseudo-remainders and coefficient-list arithmetic, on every pair of
polynomials of a bounded coefficient box."""
import itertools
from ..driver import Check, Pool
from .. import poly as P
from .vtsdec import STRUCT, HIGH, LOW, small_polys, prod, L, replay


def pos_multiple(a, b):
    """a = k b with k > 0 (both zero allowed)"""
    a, b = P.norm(a), P.norm(b)
    if not a or not b:
        return a == b
    k = a[-1] / b[-1]
    return k > 0 and a == [k * x for x in b]


def cauchy(p, q):
    p, q = P.norm(p), P.norm(q)
    if not q:
        return 0
    g = P.gcd(p, q)
    p, q = P.quo(p, g), P.quo(q, g)
    tot = 0
    for r in P.roots(p):
        right = P.sign_right(r, p) * r.sign(q)
        # left: p(-x), mirrored
        m = [c if i % 2 == 0 else -c for i, c in enumerate(p)]
        lr = P.Alg([c if i % 2 == 0 else -c for i, c in enumerate(r.f)], -r.hi, -r.lo)
        left = P.sign_right(lr, m) * r.sign(q)
        if left < 0 < right:
            tot += 1
        if right < 0 < left:
            tot -= 1
    return tot


# degrees up to 8, long remainder sequences, coefficients to 10^30
BIG = HIGH + LOW + [prod(*[L(k) for k in range(1, 8)]), prod([-1], *[L(k) for k in (-3, -2, -1, 1, 2, 3, 4, 5)]), [3, -1, 4, -1, 5, -9, 2, 6], [2, 7, -1, 8, -2, -8, 1, 8],
                    [1, 4, -1, 4, 2, 1], [-1, 7, 3, -2, 0, -5, 0, 8], [10 ** 12, 3 * 10 ** 11, -7 * 10 ** 10, 10 ** 10], [10 ** 10, -10 ** 10, 10 ** 10 + 1],
                    [-10 ** 30, 10 ** 25 + 1, 10 ** 20], [6 * 10 ** 9, -9 * 10 ** 9, 3 * 10 ** 9], [-5 * 10 ** 11, 0, 10 ** 11, 0, -5 * 10 ** 10, 10 ** 10],
                    prod([10 ** 10], L(1), L(2), L(2), L(3)), prod([-10 ** 12], [-2, 0, 1], [-2, 0, 1], L(0)), [2 ** 63, -2 ** 64, 2 ** 62], [-2 ** 32, 1, 2 ** 31]]


_roots = {}
def roots_of(p):
    k = tuple(p)
    if k not in _roots:
        _roots[k] = P.roots(P.norm(p))
    return _roots[k]


def run(tier):
    c = Check('C05', tier, 'model_checking')
    small = small_polys(3, (-1, 0, 1))
    nonc = [p for p in small if len(p) >= 2]
    nz = [p for p in small if p]
    st = [p for p in STRUCT if len(p) >= 2]
    wide = small_polys(3, (-2, 0, 1, 3)) if tier == 'quick' else small_polys(3, (-2, -1, 0, 1, 3))
    if tier != 'quick':
        nonc4 = [p for p in small_polys(4, (-1, 0, 1)) if len(p) >= 2]
        nz4 = [p for p in small_polys(4, (-1, 0, 1)) if p]
    sets = [('taq', nonc, nz), ('taq', st, st + nz), ('taq', nonc[::2], st), ('cauchy', nonc, nz + [[]]), ('cauchy', st, st),
            ('rem', wide, [p for p in wide if p]), ('srs', nonc, nz), ('srs', st, st), ('mul', wide, wide), ('mul', st, st)]
    sets += [(op, BIG, BIG) for op in ('taq', 'cauchy', 'srs', 'rem', 'mul')]
    if tier != 'quick':
        sets += [('taq', nonc4, nz4), ('cauchy', nonc4, nz4), ('srs', nonc4, nz4)]
    cases = []
    for op, ps, qs in sets:
        for p in ps:
            for i in range(0, len(qs), 90):
                cases.append([op, p, qs[i:i + 90]])
    der = small_polys(4, (-2, 0, 1)) + st
    for i in range(0, len(der), 100):
        cases.append(['deriv', der[i:i + 100]])
    pl = [[1], [0, 1], [-1, 1], [1, 0, 1], [2, -3, 1], [-2]]
    for k in range(0, 4 if tier == 'quick' else 5):
        for t in itertools.product(pl if k < 4 else pl[1:4], repeat=k):
            cases.append(['prods', list(t)])
    with Pool('vts', batch=10) as pool:
        ans = pool.answers(cases)
    counts, dist = {}, {}
    total = 0
    for case, a in zip(cases, ans):
        op = case[0]
        if not isinstance(a, list):
            c.violation('no answer', case, None, a)
            continue
        if op == 'deriv':
            for p, r in zip(case[1], a):
                total += 1
                if P.norm(r) != P.der(P.norm(p)):
                    c.violation('derivative', ['deriv', [p]], P.der(P.norm(p)), r)
            continue
        if op == 'prods':
            total += 1
            want = []
            for e in itertools.product((0, 1, 2), repeat=len(case[1])):
                z = [1]
                for p, k in zip(case[1], e):
                    z = P.mul(P.norm(z), P.power(P.norm(p), k))
                want.append(P.norm(z))
            if [P.norm(r) for r in a] != want:
                c.violation('product list', case, [[str(x) for x in w] for w in want], a)
            continue
        p = case[1]
        for q, r in zip(case[2], a):
            total += 1
            counts[op] = counts.get(op, 0) + 1
            one = [op, p, [q]]
            if op == 'taq':
                want = sum(z.sign(q) for z in roots_of(p))
                ok = want == r
                dist[('taq', want)] = dist.get(('taq', want), 0) + 1
            elif op == 'cauchy':
                want = cauchy(p, q)
                ok = want == r
                dist[('cauchy', want)] = dist.get(('cauchy', want), 0) + 1
            elif op == 'rem':
                want = P.rem(p, q)
                ok = pos_multiple(r, want)
            elif op == 'mul':
                want = P.mul(P.norm(p), P.norm(q))
                ok = P.norm(r) == want
            else:
                want = 'every element a positive multiple of minus the remainder of the two before it, ending before zero'
                ok = len(r) >= 2 and P.norm(r[0]) == P.norm(p) and P.norm(r[1]) == P.norm(q)
                for x, y, z in zip(r, r[1:], r[2:]):
                    ok = ok and bool(P.norm(z)) and pos_multiple(z, P.neg(P.rem(x, y)))
                ok = ok and P.rem(r[-2], r[-1]) == []
            if not ok:
                c.violation(op, one, str(want), r)
    c.sample({"case": cases[0][:2] + [cases[0][2][:5]], "answer": ans[0][:5]})
    c.sample({"case": cases[len(cases) // 2], "answer": str(ans[len(cases) // 2])[:400]})
    c.cov.update(states=total, transitions=sum(counts.values()), traces_validated_against_impl=total, exhaustive=True,
                 pairs_by_operation=counts, distinct_outcomes=len(dist), outcomes={'%s=%d' % k: v for k, v in sorted(dist.items())})
    c.assumptions = ["state = tuple of operand polynomials from the stated coefficient boxes (all polynomials of degree <= 3 with coefficients -1,0,1, etc.); every pair is executed on the real code"]
    return c.finish()
