"""C20: GRF's bad subsets of hypotheses, and the hypotheses it suggests from them."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool
from . import grf as G

A1 = [[[[1, 1]], '>'], [[[1, 1], [-1, 0]], '>='], [[[1, 1], [1, 0]], '<'], [[[1, 2], [-1, 0]], '='], [[[1, 1]], '!='], [[[1, 2], [-2, 0]], '<=']]
G1 = [[[[1, 1]], '>'], [[[1, 1], [-2, 0]], '>='], [[[1, 2], [-1, 0]], '<'], [[[1, 1]], '=']]
A2 = [[[[1, 1, 0]], '>'], [[[1, 0, 1]], '>'], [[[1, 1, 1], [-1, 0, 0]], '>='], [[[1, 1, 0], [-1, 0, 1]], '='], [[[1, 2, 0], [1, 0, 2], [-2, 0, 0]], '<']]
G2 = [[[[1, 1, 1]], '>'], [[[1, 1, 0], [1, 0, 1]], '>='], [[[1, 0, 1]], '!=']]
# hypotheses of different weight over x0..x2; the goal is over x0
W = [[[[1, 1, 0, 0]], '>'], [[[1, 2, 0, 0], [-1, 0, 0, 0]], '>'], [[[1, 1, 1, 0]], '>'], [[[1, 0, 1, 0]], '>'], [[[1, 0, 1, 1]], '<='], [[[1, 1, 1, 1]], '='], [[[1, 3, 0, 0]], '!='], [[[1, 0, 0, 1]], '<']]


def run(tier):
    c = Check('C20', tier, 'model_checking')
    quick = tier == 'quick'
    envs = [{'draws': d, 'moves': m} for d in (['0'], ['1/2'], ['1'], ['0', '1'], ['1/4', '3/4', '1/2']) for m in (['stay'], ['neg'], ['up', 'down'], ['zero'])]
    cases = []
    k = 0
    for n, A, Gs, pts in ((1, A1, G1, [[F(i, 2)] for i in range(-4, 5)]), (2, A2, G2, [[F(i), F(j)] for i in (-2, -1, 0, 1, 2) for j in (-1, 0, 1)])):
        for m in (0, 1, 2, 3):
            for hs in itertools.permutations(range(len(A)), m) if m < 3 else itertools.combinations(range(len(A)), m):
                for g in Gs:
                    for pr in ([], [0]) if m else ([],):
                        for pt in pts:
                            k += 1
                            if quick and k % 5 and m > 1:
                                continue
                            cases.append(['bads', n, [A[i] for i in hs], g, pr, [str(x) for x in pt], envs[k % len(envs)]])
    nb = len(cases)
    # suggestions: every collection of proper subsets of three hypotheses, and of pairs of subsets of four
    for hs in itertools.combinations(range(len(W)), 3):
        subs = [list(s) for r in range(3) for s in itertools.combinations(range(3), r)]
        for i in range(1, 1 << len(subs)):
            if quick and (i + sum(hs)) % 4:
                continue
            cases.append(['good', 3, [W[j] for j in hs], [[[1, 1, 0, 0], [-1, 0, 0, 0]], '>'], [s for b, s in enumerate(subs) if i >> b & 1], {'tie': 'first' if i % 2 else 'last'}])
    for hs in itertools.combinations(range(len(W)), 4):
        subs = [list(s) for r in range(4) for s in itertools.combinations(range(4), r)]
        for p, q in itertools.combinations(subs, 2):
            cases.append(['good', 3, [W[j] for j in hs], [[[1, 1, 0, 0], [-1, 0, 0, 0]], '>'], [p, q], {}])
    # ... and after a hypothesis has been promoted, which makes its variables variables of the goal
    for j in range(len(W)):
        if W[j][1] == '=':
            continue
        for hs in itertools.permutations([i for i in range(len(W)) if i != j], 2):
            for b in ([[]], [[0]], [[1]], [[0], [1]], [[], [1]]):
                cases.append(['good', 3, [W[i] for i in (j,) + hs], [[[1, 1, 0, 0], [-1, 0, 0, 0]], '>'], b, {'tie': 'last'}, [0]])
    with Pool('grf', batch=60) as pool:
        ans = pool.answers(cases)
    n = 0
    ncex = 0
    for case, a in zip(cases, ans):
        if not G.split(c, case, a):
            continue
        n += 1
        if case[0] == 'bads':
            hyps, goal, pr, pt = case[2:6]
            promoted = [hyps[i] for i in pr]
            rest = [h for i, h in enumerate(hyps) if i not in pr]
            f = lambda p: [F(x) for x in p]
            false = lambda p: all(G.holds(h, p) for h in promoted) and not G.holds(goal, p)
            S = lambda p: [i for i, h in enumerate(rest) if G.holds(h, p)]
            here = f(pt)
            seen = [here] + [f(p) for p in a[2] if None not in p]
            bad = [p for p in seen if false(p)]
            if a[0] == 'counterexample':
                ncex += 1
                if not any(len(S(p)) == len(rest) for p in bad):
                    c.violation('reported counterexample is none', case, None, a)
                continue
            if (a[1] is None) != (not false(here)):
                c.violation('goal %s at the point' % ('false' if false(here) else 'true'), case, None, a)
                continue
            if a[1] is None:
                continue
            if any(len(S(p)) == len(rest) for p in bad):
                c.violation('counterexample among the sampled points is not reported', case, None, a)
                continue
            got = [sorted(s) for s in a[1]]
            if not any(set(S(here)) <= set(s) for s in got):
                c.violation('the hypotheses true at the point are not ruled out', case, S(here), a)
            if a[2]:
                for p in bad:
                    n += 1
                    if not any(set(S(p)) <= set(s) for s in got):
                        c.violation('the hypotheses true at %s are not ruled out' % [str(x) for x in p], case, S(p), a[1])
                        break
                for s in got:
                    if not any(S(p) == s for p in bad):
                        c.violation('bad subset %s is not the set of hypotheses true at a point where the goal fails' % s, case, None, a[1])
        else:
            hyps, goal, bads = case[2:5]
            gv = G.needs(goal)
            if len(case) > 6:
                gv = gv.union(*[G.needs(hyps[i]) for i in case[6]])
                hyps = [h for i, h in enumerate(hyps) if i not in case[6]]
            out, w = a[0], [F(x) for x in a[1]]
            if any(x < 1 for x in w):
                c.violation('weight below 1', case, None, w)
            rel = [x for x, h in zip(w, hyps) if G.needs(h) & gv]
            irr = [x for x, h in zip(w, hyps) if not G.needs(h) & gv]
            if rel and irr and max(rel) >= min(irr):
                c.violation('a hypothesis without a variable of the goal is not the heavier one', case, None, a[1])
            best = None
            for r in range(len(hyps) + 1):
                for s in itertools.combinations(range(len(hyps)), r):
                    if all(any(i not in b for i in s) for b in bads):
                        t = sum(w[i] for i in s)
                        best = t if best is None or t < best else best
            if not all(any(i not in b for i in out) for b in bads):
                c.violation('suggested hypotheses lie inside a bad subset', case, None, a)
            elif sum(w[i] for i in out) != best or len(set(out)) != len(out) or not set(out) <= set(range(len(hyps))):
                c.violation('suggested hypotheses are not of minimal weight', case, str(best), a)
    c.sample({"case": cases[nb - 1], "answer": ans[nb - 1]})
    c.sample({"case": cases[-1], "answer": ans[-1]})
    c.cov.update(states=len(cases), transitions=n, traces_validated_against_impl=len(cases), exhaustive=True)
    c.assumptions = ["bad subsets: ordered lists of up to 3 hypotheses x goals x points in one and two variables, under 20 environment schedules (random draws, fsolve results)",
                     "suggestions: collections of proper subsets of 3 of %d hypotheses, all pairs of proper subsets of 4, collections over 2 after promoting a third" % len(W),
                     "%d of the runs reported a counterexample" % ncex,
                     "Sage, scipy and the random source are replaced by jy/sageshim.py; the optimiser returns any optimum (ties both ways)"]
    G.notes(c)
    return c.finish()


def replay(case):
    with Pool('grf', n=1) as pool:
        return pool.answers([case])[0]
