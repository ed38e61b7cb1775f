"""C18: GRF's atoms and goals: evaluation, negation, moving a hypothesis to the goal."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool
from . import grf as G

# equations and inequalities whose Groebner simplification interacts
PROM = [[[[1, 1, 0, 0]], '='], [[[1, 1, 0, 0], [1, 0, 1, 0]], '='], [[[1, 1, 0, 0], [-1, 0, 1, 0]], '='], [[[1, 1, 1, 0], [-1, 0, 0, 1]], '='],
        [[[1, 2, 0, 0], [-1, 0, 1, 0]], '='], [[[2, 1, 0, 0], [-2, 0, 1, 0]], '='], [[[1, 1, 0, 0], [-1, 0, 0, 0]], '='], [[[1, 0, 1, 0], [-1, 0, 0, 1]], '='],
        [[[1, 0, 2, 0], [-1, 0, 0, 0]], '='],
        [[[1, 1, 0, 0]], '>'], [[[1, 1, 1, 0]], '>='], [[[1, 1, 0, 0], [1, 0, 1, 0], [-1, 0, 0, 1]], '<'], [[[1, 2, 0, 0], [-1, 0, 0, 1]], '!='],
        [[[1, 1, 1, 0], [-1, 0, 0, 0]], '<=']]
MAIN = [[[[1, 1, 0, 0]], '>'], [[[1, 1, 1, 0], [-1, 0, 0, 1]], '<='], [[[1, 2, 0, 0], [1, 0, 2, 0]], '='], [[[1, 0, 0, 1], [-1, 0, 0, 0]], '!=']]
GRID = [[a, b, d] for a in (-1, 0, 1, 2) for b in (-1, 0, 1, 2) for d in (-1, 0, 1, 2)]


def partial(pt, n):
    for k in range(n + 1):
        for s in itertools.combinations(range(n), k):
            yield [x if i in s else None for i, x in enumerate(pt)]


def atom_truth(a, pt):
    """None: not all variables given"""
    if any(pt[i] is None for i in G.needs(a)):
        return None
    return G.holds(a, [0 if x is None else x for x in pt])


def goal_truths(main, prom, pt):
    """acceptable answers for main holding under the promoted hypotheses at a (partial) point"""
    if all(x is not None for x in pt):
        return [not all(G.holds(h, pt) for h in prom) or G.holds(main, pt)]
    # True only if it is true however the point is completed; anything that is not True means "not decided"
    return None


def run(tier):
    c = Check('C18', tier, 'model_checking')
    cases, kind = [], []
    # atoms
    polys = [(1, G.pad(p, 1)) for p in G.UNI] + [(2, p) for p in G.BI]
    pts1 = [[F(k, 2)] for k in range(-5, 6)]
    pts2 = [[F(a, 2), F(b, 2)] for a in range(-4, 5) for b in range(-4, 5)]
    for n, p in polys:
        for op in G.OPS:
            for rhs in ([], [[1] + [0] * n], [['-1/2', 1] + [0] * (n - 1)]):
                pts = [q for pt in (pts1 if n == 1 else pts2) for q in ([pt] if n == 1 else [pt, [pt[0], None], [None, pt[1]]])]
                pts = [list(x) for x in dict.fromkeys(tuple(q) for q in pts)]
                cases.append(['atom', n, [p, op, rhs], [[None if x is None else str(x) for x in q] for q in pts]])
    for op in ['>', '<', '<=', '>=', '=', '!=', '==', '=>', '', '<>', '>>', None]:
        cases.append(['badop', op])
    for p in G.UNI[:6]:
        for op in G.OPS:
            for m in (2, 3):
                cases.append(['ring', 1, m, [p, op, []], [[str(x)] + ['1'] * (m - 1) for x in (-2, -1, 0, F(1, 2), 1, 2)]])
    # goals: all sequences of promotions
    depth = 3 if tier == 'quick' else 4
    full = [[str(x) for x in q] for q in GRID]
    part = [list(q) for q in dict.fromkeys(tuple(r) for pt in ([1, 2, -1], [0, 1, 2], [-1, 0, 0], [2, 2, 4], [1, -1, -1]) for r in partial(pt, 3) if any(x is not None for x in r))]
    pts = full + [[None if x is None else str(x) for x in q] for q in part]
    proms = [s for k in range(1, depth + 1) for s in itertools.permutations(range(len(PROM)), k)]
    proms = [s for s in proms if len(s) == depth or len(s) < 2]           # prefixes are seen on the way
    if tier == 'quick':
        mains = lambda i: [MAIN[i % len(MAIN)]]
    else:
        mains = lambda i: [MAIN[i % len(MAIN)]]
    for i, s in enumerate(proms):
        for m in mains(i):
            for g in ((True, False) if i % 7 == 0 else (True,)):
                cases.append(['goal', 3, m, [PROM[j] for j in s], g, pts])
    # a hypothesis promoted twice
    for j in range(len(PROM)):
        cases.append(['goal', 3, MAIN[j % len(MAIN)], [PROM[j], PROM[j]], True, pts])
    with Pool('grf', batch=40) as pool:
        ans = pool.answers(cases)
    n = 0
    memo = {}

    def T(a, pt):
        k = (str(a), tuple(pt))
        if k not in memo:
            memo[k] = atom_truth(a, [None if x is None else F(x) for x in pt])
        return memo[k]
    for case, a in zip(cases, ans):
        if not G.split(c, case, a):
            continue
        if case[0] == 'atom':
            for i, pt in enumerate(case[3]):
                n += 1
                t = T(case[2], pt)
                want = [t, None if t is None else not t, t]
                got = [a[0][i], a[1][i], a[2][i]]
                if got != want:
                    c.violation('atom at %s' % pt, ['atom', case[1], case[2], [pt]], want, got)
        elif case[0] == 'badop':
            n += 1
            if a != ('accepted' if case[1] in G.OPS else 'refused'):
                c.violation('relation symbol', case, None, a)
        elif case[0] == 'ring':
            for i, pt in enumerate(case[4]):
                n += 1
                t = T(case[3], pt[:1])
                if [a[0][i], a[1][i]] != [t, t]:
                    c.violation('atom in a bigger ring', ['ring'] + case[1:4] + [[pt]], [t, t], [a[0][i], a[1][i]])
        else:
            for k, row in enumerate(a):
                ps = case[3][:k]
                for pt, got in zip(case[5], row):
                    n += 1
                    if None in pt:
                        # True promises the goal on the whole fibre
                        if got is True:
                            fibre = [q for q in full if all(x is None or F(x) == F(y) for x, y in zip(pt, q))]
                            bad = [q for q in fibre if all(T(h, q) for h in ps) and not T(case[2], q)]
                            if bad:
                                c.violation('goal called true at a partial point', ['goal', 3, case[2], ps, case[4], [pt] + bad[:1]], False, got)
                    else:
                        t = not all(T(h, pt) for h in ps) or T(case[2], pt)
                        if got is not t:
                            c.violation('goal after %d promotions at %s' % (k, pt), ['goal', 3, case[2], ps, case[4], [pt]], t, got)
    c.sample({"case": cases[0], "answer": ans[0]})
    c.cov.update(states=len(cases), transitions=n, traces_validated_against_impl=len(cases), exhaustive=True)
    c.assumptions = ["atoms: %d polynomials x 6 relations x 3 right-hand sides x all points of a half-integer grid, with every subset of the variables given" % len(polys),
                     "goals: every sequence of %d promotions out of %d hypotheses, with Groebner simplification, judged at 64 full and %d partial points after every step" % (depth, len(PROM), len(part)),
                     "Sage itself is replaced by jy/sageshim.py (exact arithmetic, degrevlex Groebner bases); Sage is trusted to do the same"]
    G.notes(c)
    return c.finish()


def replay(case):
    with Pool('grf', n=1) as pool:
        return pool.answers([case])[0]
