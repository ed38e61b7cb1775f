"""C11: making relations univariate."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool
from .. import poly as P

RELS = ['<=', '<', '=', '!=', '>=', '>']
# terms [coef, ex, ey, ez, ew]
TERMS = [[], [[1, 0, 0, 0, 0]], [['-3/2', 0, 0, 0, 0]], [[1, 1, 0, 0, 0]], [[1, 0, 1, 0, 0]], [[-1, 0, 0, 1, 0]], [[1, 1, 1, 0, 0]], [[1, 1, 0, 0, 0], [1, 0, 1, 0, 0]],
         [[1, 1, 0, 0, 0], [-1, 0, 1, 0, 0]], [[2, 2, 0, 0, 0], [-1, 0, 1, 0, 1]], [['1/3', 0, 3, 0, 0], [1, 0, 0, 1, 0], [5, 0, 0, 0, 0]],
         [[1, 1, 1, 1, 1], [-1, 0, 0, 0, 2]], [[1, 0, 0, 0, 1], [1, 0, 0, 0, 0]], [[1, 2, 0, 0, 0], [-2, 1, 1, 0, 0], [1, 0, 2, 0, 0]]]
HOLD = {'<=': lambda a: a <= 0, '<': lambda a: a < 0, '=': lambda a: a == 0, '!=': lambda a: a != 0, '>=': lambda a: a >= 0, '>': lambda a: a > 0}


def diag(t):
    r = []
    for m in t:
        r = P.add(r, P.norm([0] * sum(m[1:]) + [F(m[0])]))
    return r


def run(tier):
    c = Check('C11', tier, 'model_checking')
    rels = [(k, a, b) for k in RELS for a in TERMS for b in TERMS]
    names = [['x', 'y', 'z', 'w'], ['a', 'x', 'b', 'c'], ['y1', 'y2', 'y3', 'x']]
    if tier != 'quick':
        names += [list(p) for p in itertools.permutations(['x', 'y', 'X', 'u'])]
    cases = []
    for nm in names:
        for i in range(0, len(rels), 14):
            cases.append(['univariate', [list(r) for r in rels[i:i + 14]], nm])
            if i % 5 == 0:
                cases.append(['univariate', [list(r) for r in reversed(rels[i:i + 14])], nm])
        for r in rels[::17]:
            cases.append(['univariate', [list(r)], nm])
            cases.append(['univariate', [list(r), list(r)], nm])
    cases.append(['univariate', [], names[0]])
    with Pool('parse', batch=10) as pool:
        ans = pool.answers(cases)
    n = 0
    for case, a in zip(cases, ans):
        if not isinstance(a, list):
            c.violation('no answer', case, None, a)
            continue
        if a[0] != a[1]:
            c.violation('number of relations', case, a[0], a)
            continue
        for (k, l, r), g in zip(case[1], a[2]):
            if g is None:       # sympy itself folded the input relation
                continue
            n += 1
            d = P.sub(diag(l), diag(r))
            if g in ('T', 'F'):
                good = len(d) <= 1 and HOLD[k](d[0] if d else 0) == (g == 'T')
            else:
                good = g[0] == k and isinstance(g[1][0], list) and P.norm([F(x) for x in g[1][0]]) == d and g[2] == '0' and len(g[1][1]) <= 1
            if not good:
                c.violation('univariate version of %s' % [k, l, r], ['univariate', [[k, l, r]], case[2]], [k, [str(x) for x in d], 0], g)
    c.sample({"case": cases[3], "answer": str(ans[3])[:500]})
    c.cov.update(states=len(cases), transitions=n, traces_validated_against_impl=len(cases), exhaustive=True)
    c.assumptions = ["state = list of relations; all 6 relations x all ordered pairs of 14 polynomials in four variables, under %d namings" % len(names),
                     "a relation sympy folds to True/False on construction is left out (there is no relation to convert)"]
    return c.finish()


def replay(case):
    with Pool('parse', n=1) as pool:
        return pool.answers([case])[0]
