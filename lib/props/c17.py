"""C17: the plain algebra is exact."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool

Z = []
COEF = [[], [[0, 0, 0, 1]], [[0, 0, 0, -2]], [[0, 1, 0, 1]], [[0, 1, 0, 1], [0, 0, 0, -1]], [[0, 1, 1, -3]]]


def shift(c, i):
    return [[i, j, k, v] for _, j, k, v in c]


def poly(cs):
    return [t for i, c in enumerate(cs) for t in shift(c, i)]


UNARY = ['LT', 'LC', 'degree', 'p_tail', 'derivative', 'has_variable']


# --- independent arithmetic on term lists (dictionaries), used to judge divisions
def D(ts):
    d = {}
    for i, j, k, c in ts:
        d[(i, j, k)] = d.get((i, j, k), 0) + F(c)
    return {m: c for m, c in d.items() if c}


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            t = (m[0] + n[0], m[1] + n[1], m[2] + n[2])
            r[t] = r.get(t, 0) + c * e
    return {m: c for m, c in r.items() if c}


def add(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
    return {m: c for m, c in r.items() if c}


def deg(d):
    return max([m[0] for m in d] or [-1])


def lc(d):
    n = deg(d)
    return {(0, m[1], m[2]): c for m, c in d.items() if m[0] == n}


def want_unary(op, d):
    n = deg(d)
    out = lambda e: ['poly', sorted([list(m) + [int(c)] for m, c in e.items()])]
    if op == 'degree':
        return ['inf', '-oo'] if not d else ['poly', [[0, 0, 0, n]] if n else []]
    if op == 'LC':
        return out(lc(d))
    if op == 'LT':
        return out({m: c for m, c in d.items() if m[0] == n})
    if op == 'p_tail':
        return out({m: c for m, c in d.items() if m[0] != n})
    if op == 'derivative':
        return out({(m[0] - 1, m[1], m[2]): c * m[0] for m, c in d.items() if m[0]})
    if op == 'has_variable':
        return ['bool', any(m != (0, 0, 0) for m in d)]


def run(tier):
    c = Check('C17', tier, 'model_checking')
    q = tier == 'quick'
    polys = [poly(cs) for cs in itertools.product(COEF, repeat=3)]
    if not q:
        polys += [poly((a, b, cc, d)) for a in COEF for b in COEF[:4] for cc in COEF[:3] for d in COEF[1:]]
    calls = [['x', op, [p]] for p in polys for op in UNARY]
    forms = [p for p in polys if len(p) > 1]
    calls += [['x', op, [['f', p]]] for p in forms[::3 if q else 1] for op in ('LC', 'degree', 'derivative', 'LT', 'p_tail')]
    ls = [['x', 'LS', [p]] for p in polys]
    sg = [['x', 'sign', [[[0, 0, 0, n]] if n else []]] for n in range(-5, 6)] + [['x', 'zero', []], ['x', 'e_var', []]]
    C4 = COEF[:5]
    P1 = [poly(cs) for cs in itertools.product(C4 if not q else C4[:4], repeat=3)]
    Q1 = [poly(cs) for cs in itertools.product(C4 if not q else [COEF[0], COEF[1], COEF[2], COEF[3]], repeat=3) if any(cs)]
    if q:
        Q1 = [p for p in Q1 if len(p) <= 2] + [p for p in Q1 if len(p) > 2][::4]
    pd = [['x', 'pseudo_div', [a, b]] for a in P1 for b in Q1]
    dv = [['x', 'div', [a, b]] for a in P1 for b in ([[1, 0, 0, 1]], [[1, 0, 0, 1], [0, 1, 0, 1]], [[2, 0, 0, 1], [0, 0, 0, -3]])]
    every = calls + ls + sg + pd + dv
    B = 60
    with Pool('hs', batch=4) as pool:
        ans = pool.answers([['plainops', every[i:i + B]] for i in range(0, len(every), B)])
        fcalls = [k for k in calls if k[2][0][:1] != ['f']] + pd
        fans = pool.answers([['fastops', fcalls[i:i + B]] for i in range(0, len(fcalls), B)])
    flat = []
    for i, a in zip(range(0, len(every), B), ans):
        n = len(every[i:i + B])
        flat += a if isinstance(a, list) else [a] * n
    fflat = []
    for i, a in zip(range(0, len(fcalls), B), fans):
        fflat += a if isinstance(a, list) else [a] * len(fcalls[i:i + B])
    fast = {str(k): r for k, r in zip(fcalls, fflat)}
    mismatch = 0
    for call, r in zip(every, flat):
        _, op, args = call
        bad = None
        if op in UNARY:
            a = args[0]
            d = D(a[1] if a[:1] == ['f'] else a)
            w = want_unary(op, d)
            if r != w:
                bad = w
        elif op == 'LS':
            d = D(args[0])
            if not (isinstance(r, list) and r[0] == 'poly' and (r[1] == [] if not d else len(r[1]) == 1 and r[1][0][:3] == [0, 0, 0] and r[1][0][3] in d.values())):
                bad = 'the coefficient of one of the terms'
            elif d and all(m[1:] == (0, 0) for m in d) and r[1][0][3] != d[(deg(d), 0, 0)]:
                bad = 'the leading coefficient'
        elif op == 'sign':
            n = args[0][0][3] if args[0] else 0
            w = ['poly', [[0, 0, 0, (n > 0) - (n < 0)]] if n else []]
            if r != w:
                bad = w
        elif op == 'zero':
            if r != ['poly', []]:
                bad = 0
        elif op == 'e_var':
            if r != ['poly', [[1, 0, 0, 1]]]:
                bad = 'x'
        else:
            a, b = D(args[0]), D(args[1])
            ok = isinstance(r, list) and len(r) == 2 and isinstance(r[0], list) and r[0][0] == r[1][0] == 'poly'
            if ok:
                quo, rem = D(r[0][1]), D(r[1][1])
                left = a
                if op == 'pseudo_div' and deg(a) >= deg(b):
                    for _ in range(deg(a) - deg(b) + 1):
                        left = mul(left, lc(b))
                ok = left == add(mul(quo, b), rem) and (deg(rem) < deg(b))
            if not ok:
                bad = '%s * p = quo * q + rem with deg rem < deg q' % ('lc(q)^(deg p - deg q + 1)' if op == 'pseudo_div' else '1')
        if bad is not None:
            c.violation('plain algebra: %s' % op, call, bad, r)
        elif str(call) in fast and fast[str(call)] != r:
            mismatch += 1
    if mismatch and not c.violations:
        raise AssertionError('harness: fastalg differs from the plain algebra on %d calls' % mismatch)
    c.sample({"call": every[100], "answer": flat[100]})
    c.sample({"call": pd[777], "answer": flat[len(calls) + len(ls) + len(sg) + 777]})
    c.cov.update(states=len(polys), transitions=len(every), traces_validated_against_impl=len(fcalls), exhaustive=True, pseudo_divisions=len(pd), divisions=len(dv))
    c.assumptions = ["state = polynomial of x-degree <= 2 (thorough: some of degree 3) with coefficients from %d polynomials in y, z; transition = one operation" % len(COEF),
                     "plain division is judged for monic divisors only (the procedures divide by the eliminated variable); sympy 0.7.6.1 itself is wrong for others, e.g. y*x^2 by 3",
                     "traces_validated_against_impl counts calls where jy/fastalg.py, the algebra used by C13-C15, was also found equal to the shipped one"]
    return c.finish()


def replay(case):
    with Pool('hs', n=1) as pool:
        return pool.answers([['plainops', [case]]])[0]
