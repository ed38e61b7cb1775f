import itertools
from ..driver import Check, Pool
from .. import poly as P
from fractions import Fraction as F

RELS = ('le', 'lt', 'eq', 'ne')


def prod(*fs):
    r = [F(1)]
    for f in fs:
        r = P.mul(r, P.norm(f))
    return [int(c) for c in r]


def small_polys(maxdeg, coefs):
    out = []
    for n in range(0, maxdeg + 2):
        for c in itertools.product(coefs, repeat=n):
            if n and c[-1] == 0:
                continue
            out.append(list(c))
    return out


L = lambda a: [-a, 1]
STRUCT = [
    prod(L(1), L(2), L(3), L(4)), prod(L(-2), L(-1), L(1), L(2)), prod(L(-1), L(0), L(1)), [1, -3, 0, 1],
    prod(L(1), L(1)), prod(L(1), L(1), L(1)), prod([-1], L(1), L(1)), prod(L(1), L(1), L(-1)), [0, 0, 0, 0, 1],
    [0, 0, 0, -1], [-2, 0, 1], [2, 0, -1], [-2, 0, 0, 1], prod([-2, 0, 1], [-2, 0, 1]), [1, 0, 0, 0, 1],
    prod([-2, 0, 1], [-3, 0, 1]), prod(L(0), L(0), L(0), L(1)), prod(L(1), L(1), L(2), L(2)), [0, -1, 0, 0, 0, 1],
    [2, -3, 1], [-1000003, 7], [-7, 3, 5], [-1, 1], [1, -1], [0, 1], [5], [-5], [],
    prod([-1], L(0), L(1), L(1)), prod([-2], [-2, 0, 1], L(1)),
]
CORE = [[-1, 1], [1, -1], [0, 1], [-1, 0, 1], [1, 0, -1], [1, -2, 1], [0, 0, -1], [-2, 0, 1]]
TINY = [[-1, 1], [1, 0, -1], [0, 0, 1], [-2, 0, 1], [0, -1]]


# degrees up to 8, near-equal large coefficients, roots close together: all roots are small
HIGH = [[-1, 0, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, 0, 0, -1], prod(*[L(1)] * 6), [0, 0, 0, 0, 0, 0, 1], prod([-1], *[L(1)] * 7), prod(*[[-2, 0, 1]] * 3),
        [1, 0, 0, 0, 0, 0, 0, 0, 1], [-1000001, 1000003], [-1000002, 1000003], [1000001, -1000003], [-1000000, 0, 1000001], [-1, 0, 64],
        [-1, 10 ** 9], [-2, 10 ** 9], [0, -1, 10 ** 9], [1, -10 ** 9], prod(L(0), L(0), L(0), L(0), L(1), L(1)),
        prod(*[L(k) for k in (-2, -1, 0, 1, 2)]), prod([-1], *[L(k) for k in (-1, 0, 1, 2, 3, 4)])]
LOW = [[-1, 1], [0, 1], [1, 0, -1], [-2, 0, 1]]
# each of these below zero is a lower bound, and the strongest is the last
BOUNDS = [[a, -1] for a in (-3, -2, -1, 0, 1, 2)]


def long_lists(n, rels):
    """every assignment of a relation or none to each of n polynomials, in both orders"""
    for t in itertools.product((None,) + tuple(rels), repeat=n):
        st = tuple((i, r) for i, r in enumerate(t) if r)
        if len(st) > 2:
            yield st
            yield st[::-1]


def states(npolys, depth, ordered=True):
    """all constraint lists of exactly `depth` constraints: order matters only within a relation"""
    cons = [(i, r) for r in RELS for i in range(npolys)]
    if ordered:
        for idx in itertools.combinations_with_replacement(range(4), depth):
            for ps in itertools.product(range(npolys), repeat=depth):
                yield tuple((p, RELS[r]) for p, r in zip(ps, idx))
    else:
        for cs in itertools.combinations_with_replacement(cons, depth):
            yield cs


def to_case(op, polys, st):
    d = {r: [] for r in RELS}
    for i, r in st:
        d[r].append(polys[i])
    return [op] + [d[r] for r in RELS]


def eps_families():
    """(poly with eps coefficients as {"e": [[c, i, j]...]}) lists; the oracle evaluates with two tiny rational pairs"""
    e = lambda *ts: {"e": [list(t) for t in ts]}
    one = (1, 0, 0)
    fam = [
        [e((-1, 1, 0)), 1],                                  # x - e0
        [e((-1, 0, 1)), 1],                                  # x - e1
        [e((1, 1, 1)), e((-1, 1, 0), (-1, 0, 1)), 1],        # (x - e0)(x - e1)
        [e((-1, 0, 0), (-1, 1, 0)), 1],                      # x - 1 - e0
        [e((-1, 0, 0), (1, 1, 0)), 1],                       # x - 1 + e0
        [0, 1], [-1, 1], [1, -1], [1, -2, 1],
        [e((-1, 1, 0)), 0, 1],                               # x^2 - e0
        [e((1, 1, 0)), 0, 1],                                # x^2 + e0
        [e((1, 0, 0)), e((-1, 1, 0))],                       # 1 - e0 x  (infinite root)
    ]
    return fam


def eval_eps(p, e0, e1):
    out = []
    for c in p:
        if isinstance(c, dict):
            out.append(sum(F(a) * e0 ** i * e1 ** j for a, i, j in c['e']))
        else:
            out.append(F(c))
    return P.norm(out)


class EpsUniverse:
    def __init__(self, fam):
        # the later infinitesimal is infinitely smaller than the earlier one
        self.us = [P.Universe([eval_eps(p, e0, e1) for p in fam])
                   for e0, e1 in ((F(1, 10 ** 6), F(1, 10 ** 30)), (F(1, 10 ** 9), F(1, 10 ** 45)))]

    def sat(self, st):
        a = [u.sat(st) for u in self.us]
        assert a[0] == a[1], st
        return a[0]


def forms(p):
    """syntactically different sympy inputs of the same polynomial (times a positive rational)"""
    return [[str(F(c, 6)) for c in p], ['*', p, ['2/3']], ['+', ['1', '1'], ['-', p, ['1', '1']]]]


def spaces(op, tier):
    """(name, op, polys for the code, oracle, iterator of states)"""
    small = small_polys(2, (-1, 0, 1))
    out = []
    u = P.Universe(small)
    out.append(('all constraint lists of length <= 2 over all polynomials of degree <= 2 with coefficients -1,0,1', op, small, u,
                itertools.chain([()], states(len(small), 1), states(len(small), 2))))
    u = P.Universe(STRUCT)
    out.append(('all constraint lists of length <= 2 over %d polynomials of degree <= 5 with multiple, common and irrational roots' % len(STRUCT),
                op, STRUCT, u, itertools.chain(states(len(STRUCT), 1), states(len(STRUCT), 2, ordered=(tier != 'quick')))))
    u = P.Universe(CORE)
    out.append(('all constraint multisets of size 3 over 8 core polynomials', op, CORE, u, states(len(CORE), 3, ordered=False)))
    u = P.Universe(TINY)
    out.append(('one constraint of each relation over 5 polynomials', op, TINY, u,
                (tuple(zip(ps, RELS)) for ps in itertools.product(range(len(TINY)), repeat=4))))
    hl = HIGH + LOW
    u = P.Universe(hl)
    nh = len(HIGH)
    out.append(('lists of length <= 2 over %d polynomials of degree <= 8, with large, tiny and nearly equal coefficients' % nh, op, hl, u,
                (s for s in itertools.chain(states(len(hl), 1), states(len(hl), 2, ordered=False)) if len(s) == 1 or tier != 'quick' or s[0][0] >= nh or s[1][0] >= nh
                 or (7 <= s[0][0] < 16 and 7 <= s[1][0] < 16) or s[0][0] == s[1][0])))
    b = BOUNDS[1:5] + [[-5, 0, 1]]
    out.append(('every assignment of a relation or none to 5 polynomials, in both orders', op, b, P.Universe(b), long_lists(5, RELS)))
    b = BOUNDS + [[-7, 0, 1]]
    out.append(('every assignment of <, != or none to 7 polynomials, in both orders', op, b, P.Universe(b), long_lists(7, ('lt', 'ne'))))
    many = [prod([s], *[L(k) for k in r]) for s, r in ((1, range(-2, 3)), (-1, range(-2, 3)), (1, range(-2, 4)), (-1, range(-2, 4)), (1, [-2, -1, -1, 0, 1, 1, 2, 3]))]
    lows = [[k, -2] for k in range(-5, 8, 2)]
    ups = [[-k, 2] for k in range(-3, 10, 4)]
    b = many + lows + ups
    nm, nl = len(many), len(lows)
    out.append(('polynomials with five to eight roots between every lower and upper bound', op, b, P.Universe(b),
                (((i, r), (nm + j, 'lt')) + (((nm + nl + k, 'le'),) if k is not None else ()) for i in range(nm) for r in RELS for j in range(nl) for k in [None] + list(range(len(ups))))))
    fam = eps_families()
    if op == 'ts':
        fam = fam[:-1]      # z3 cannot print an infinite point, which the procedure does before evaluating
    u = EpsUniverse(fam)
    out.append(('all constraint multisets of size <= 2 over %d polynomials with infinitesimal coefficients' % len(fam), op, fam, u,
                itertools.chain(states(len(fam), 1), states(len(fam), 2, ordered=False))))
    base = [[-1, 1], [1, 0, -1], [1, -2, 1], [-2, 0, 1], [0, 0, 0, 1], [3], []]
    fs, src = [], []
    for p in base:
        for f in forms(p):
            fs.append(f)
            src.append(p)
    u = P.Universe(src)
    out.append(('symbolic front end: size <= 2 over 7 polynomials in 3 written forms with rational coefficients', 'i' + op, fs, u,
                itertools.chain(states(len(fs), 1), states(len(fs), 2, ordered=False))))
    if tier != 'quick':
        med = small_polys(2, (-2, -1, 0, 1, 2))
        out.append(('size 2 over all polynomials of degree <= 2 with coefficients -2..2', op, med, P.Universe(med), states(len(med), 2, ordered=False)))
        cub = [p for p in small_polys(3, (-1, 0, 1)) if len(p) == 4] + small_polys(1, (-1, 0, 1))
        out.append(('size <= 2 over all cubics and lines with coefficients -1,0,1', op, cub, P.Universe(cub),
                    itertools.chain(states(len(cub), 1), states(len(cub), 2, ordered=False))))
        out.append(('all ordered lists of length 3 over 8 core polynomials', op, CORE, P.Universe(CORE), states(len(CORE), 3, ordered=True)))
        out.append(('multisets of size 4 over 5 polynomials', op, TINY, P.Universe(TINY), states(len(TINY), 4, ordered=False)))
        big = STRUCT[:9] + STRUCT[15:19]
        out.append(('multisets of size 3 over 13 structured polynomials', op, big, P.Universe(big), states(len(big), 3, ordered=False)))
    return out


def run_decision(pid, tier, op):
    c = Check(pid, tier, 'model_checking')
    nst = ntr = nsat = 0
    per = {}
    with Pool('vts') as pool:
        for name, o, polys, u, sts in spaces(op, tier):
            sts = list(sts)
            cases = [to_case(o, polys, s) for s in sts]
            ans = pool.answers(cases)
            sat = 0
            for s, case, a in zip(sts, cases, ans):
                want = u.sat(s)
                sat += want
                if a is not want:
                    c.violation('wrong verdict' if isinstance(a, bool) else 'no verdict', case, want, a)
            nst += len(sts)
            ntr += sum(len(s) for s in sts)
            nsat += sat
            per[name] = {"states": len(sts), "satisfiable": sat, "unsatisfiable": len(sts) - sat}
            c.sample({"space": name, "case": cases[len(cases) // 2], "verdict": ans[len(cases) // 2]}, 20)
    c.cov.update(states=nst, transitions=ntr, traces_validated_against_impl=nst, exhaustive=True,
                 verdict_true=nsat, verdict_false=nst - nsat, spaces=per)
    c.assumptions = ["state = constraint list; transition = appending a constraint; every state within the stated spaces was decided by the real procedure and by an exact cell decomposition of the real line",
                     "z3's real closed field arithmetic and sympy are trusted as the code under test uses them",
                     "infinitesimals are evaluated in the oracle at two pairs of tiny rationals that must agree"]
    return c.finish()


def replay(case):
    with Pool('vts', n=1) as pool:
        return pool.answers([case])[0]
