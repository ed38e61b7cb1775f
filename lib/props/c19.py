"""C19: GRF's sample points reach every open cell."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool
from .. import poly as P
from . import grf as G

TRI = [[[1, 1, 0, 0], [-1, 0, 1, 0]], [[1, 0, 1, 0], [-1, 0, 0, 1]], [[1, 1, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1]], [[1, 1, 1, 0], [-1, 0, 0, 1]], [[1, 1, 0, 0]],
       [[1, 0, 0, 1], [-1, 0, 0, 0]], [[1, 2, 0, 0], [1, 0, 2, 0], [1, 0, 0, 2], [-3, 0, 0, 0]], [[1, 0, 1, 1], [1, 0, 0, 0]]]
# pairs with a common factor, and squares
A, B, C_, D = [[1, 1, 0], [-1, 0, 1]], [[1, 1, 0], [1, 0, 1]], [[1, 1, 0], [2, 0, 1], [-3, 0, 0]], [[1, 0, 1], [-2, 0, 0]]
E, H = [[1, 1, 1], [-1, 0, 0]], [[1, 2, 0], [-1, 0, 1]]


def times(p, q):
    r = {}
    for m in p:
        for n in q:
            k = tuple(x + y for x, y in zip(m[1:], n[1:]))
            r[k] = r.get(k, 0) + F(m[0]) * F(n[0])
    return [[int(v) if v.denominator == 1 else str(v)] + list(k) for k, v in sorted(r.items()) if v]


COMMON = [[times(A, B), times(A, C_), D], [times(A, A), times(A, B)], [times(times(A, A), C_), D], [times(A, B), times(B, C_), times(A, C_)],
          [times(A, E), times(A, D)], [times(H, A), times(H, B), D], [times(H, H), times(H, C_), D], [times(E, B), times(E, C_), D],
          [times(times(A, A), times(B, C_)), D]]


def dense(t):
    r = []
    for m in t:
        r = P.add(r, P.norm([0] * m[1] + [F(m[0])]))
    return r


def sgn(x):
    return (x > 0) - (x < 0)


def vec(ps, pt):
    return tuple(sgn(G.ev(p, pt)) for p in ps)


def run(tier):
    c = Check('C19', tier, 'model_checking')
    quick = tier == 'quick'
    cases = []
    envs1 = [{'draws': d, 'width': w} for w in ('1/4', '8', '1/64') for d in (['1/1024'], ['1/2'], ['1023/1024'])]
    for k in (1, 2, 3):
        for i, s in enumerate(itertools.combinations(range(len(G.UNI)), k)):
            for e in (envs1 if k < 3 else envs1[(i % 3) * 3 + 1:(i % 3) * 3 + 2] if quick else envs1):
                cases.append(['cad', 1, [G.UNI[j] for j in s], None, [], e])
    envs2 = [{'draws': ['1/2'], 'width': '1/4'}, {'draws': ['1/1024'], 'width': '8'}, {'draws': ['1023/1024'], 'width': '1/64'}, {'draws': ['1/8', '7/8'], 'width': '1/4'}]
    for k in (1, 2, 3):
        for i, s in enumerate(itertools.combinations(range(len(G.BI)), k)):
            ps = [G.BI[j] for j in s]
            if k == 3 and quick and i % 3:
                continue
            for e in (envs2 if k == 1 or not quick else [envs2[i % 4], envs2[(i + 1) % 4]] if k == 2 else [envs2[i % 4]]):
                cases.append(['cad', 2, ps, None, [], e])
            # with a goal: cells on which it is true may be left out
            for g, amb in (((ps[0], '>'), []), ((ps[-1], '<'), [[[[1, 1, 0]], '>'], [[[1, 0, 1]], '<']])):
                if k == 2 or not quick:
                    cases.append(['cad', 2, ps, list(g), amb, envs2[i % 4], 1 + i % 2])
    for k in (1, 2):
        for i, s in enumerate(itertools.combinations(range(len(TRI)), k)):
            cases.append(['cad', 3, [TRI[j] for j in s], None, [], envs2[i % 4]])
    for ps in COMMON:
        for e in envs2:
            cases.append(['cad', 2, ps, None, [], e])
    with Pool('grf', batch=20) as pool:
        ans = pool.answers(cases)
    n = 0
    step = 8
    grid2 = [(F(a, step), F(b, step)) for a in range(-6 * step + 1, 6 * step, 2) for b in range(-6 * step + 1, 6 * step, 2)]
    grid3 = [(F(a, 4), F(b, 4), F(d, 4)) for a in range(-15, 16, 3) for b in range(-14, 15, 3) for d in range(-13, 16, 3)]
    table = {}

    def signs(p, nv):
        k = (nv, str(p))
        if k not in table:
            table[k] = [sgn(G.ev(p, q)) for q in (grid2 if nv == 2 else grid3)]
        return table[k]
    uni = {}
    for case, a in zip(cases, ans):
        if not G.split(c, case, a):
            continue
        nv, ps, goal = case[1:4]
        if any(None in q for q in a):
            c.violation('a sample point lacks a coordinate', case, None, a)
            continue
        pts = [[F(x) for x in q] for q in a]
        if nv == 1:
            k = str(ps)
            if k not in uni:
                u = P.Universe([dense(p) for p in ps])
                open_ = [(pt, tuple(u.signs[j][i] for j in range(len(ps)))) for i, pt in enumerate(u.pts) if all(u.signs[j][i] for j in range(len(ps)))]
                rat = [F(k, 2) for k in range(-12, 13) if any(P.ev(dense(p), F(k, 2)) == 0 for p in ps)]
                uni[k] = (u, open_, rat)
            u, open_, rat = uni[k]
            xs = sorted(q[0] for q in pts)
            have = {cell_of(u, x) for x in xs}
            want = {cell_of(u, pt) for pt, _ in open_}
            n += len(want)
            if not want <= have:
                c.violation('an interval between roots has no sample point', case, len(want), a)
            for r in rat:
                n += 1
                if r not in xs:
                    c.violation('rational root %s is no sample point' % r, case, str(r), a)
        else:
            tabs = [signs(p, nv) for p in ps]
            gt = None
            if goal is not None:
                gs = signs(goal[0], nv)
                gt = [G.HOLD[goal[1]](s) for s in gs]
            want = set()
            for i, v in enumerate(zip(*tabs)):
                if 0 not in v and not (gt and gt[i]):
                    want.add(v)
            have = {vec(ps, q) for q in pts}
            n += len(want)
            if not want <= have:
                c.violation('open cells without a sample point: signs %s' % sorted(want - have)[:4], case, len(want), a)
    c.sample({"case": cases[5], "answer": ans[5]})
    c.cov.update(states=len(cases), transitions=n, traces_validated_against_impl=len(cases), exhaustive=True)
    c.assumptions = ["state = set of polynomials and the outcomes of the environment (isolating-interval width, position of the random points)",
                     "one variable: every set of up to 3 out of %d polynomials, exact cells; two variables: sets of up to 3 out of %d, three variables: up to 2 out of %d, sign vectors of open cells found on a rational grid" % (len(G.UNI), len(G.BI), len(TRI)),
                     "Sage is replaced by jy/sageshim.py; isolating intervals have ends that are not roots"]
    G.notes(c)
    return c.finish()


def cell_of(u, x):
    """cell of a rational: 2k = between the k-th root and the next, 2k + 1 = on a root"""
    k = 0
    for pt in u.pts:
        if isinstance(pt, P.Alg):
            g = pt.sign([-x, F(1)])          # sign of root - x
            if g == 0:
                return 2 * k + 1
            if g < 0:
                k += 1
    return 2 * k


def replay(case):
    with Pool('grf', n=1) as pool:
        return pool.answers([case])[0]
