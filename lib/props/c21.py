"""C21: a whole GRF run: a genuine counterexample, or a list of formulas to hide that leaves a sequent without one."""
import itertools, re
from fractions import Fraction as F
from ..driver import Check, Pool
from .. import poly as P
from . import grf as G
from .c19 import dense

A1 = [[[[1, 1]], '>'], [[[1, 1], [-1, 0]], '>'], [[[1, 1], [1, 0]], '<'], [[[1, 2], [-2, 0]], '>'], [[[1, 1], [-2, 0]], '<='], [[[1, 2], [-1, 0]], '!='], [[[1, 3], [-2, 1]], '>']]
S1 = [[[[[1, 1]], '>']], [[[[1, 1], [-2, 0]], '>']], [[[[1, 2], [1, 0]], '>']], [[[[1, 2], [-2, 0]], '>=']], [[[[1, 1], [1, 0]], '<'], [[[1, 1]], '>']],
      [[[[1, 1], [-1, 0]], '>='], [[[1, 1]], '>'], [[[1, 2], [-2, 0]], '<']], [[[[1, 1]], '<='], [[[1, 1]], '>']]]
A2 = [[[[1, 1, 0]], '>'], [[[1, 0, 1]], '>'], [[[1, 0, 1], [-1, 0, 0]], '>'], [[[1, 1, 0], [-1, 0, 1]], '>'], [[[1, 1, 1], [-1, 0, 0]], '>'], [[[1, 1, 0], [1, 0, 1]], '=']]
S2 = [[[[[1, 1, 1]], '>']], [[[[1, 1, 0], [1, 0, 1]], '>']], [[[[1, 0, 1]], '<='], [[[1, 1, 0]], '>']], [[[[1, 2, 0], [1, 0, 2], [1, 0, 0]], '>'], [[[1, 2, 0], [1, 0, 2], [2, 0, 0]], '>']]]


def cex_point(msg, varmap, names):
    """the point in the message, by variable of the sequent; None if it cannot be read"""
    m = re.search(r'\{(.*)\}', msg)
    if not m:
        return None
    d = {}
    for part in m.group(1).split(','):
        k, _, v = part.partition(':')
        try:
            d[k.strip()] = F(v.strip())
        except (ValueError, ZeroDivisionError):
            return None
    back = {r: s for s, r in varmap}
    pt = {back[k]: v for k, v in d.items() if k in back}
    return [pt.get(n) for n in names]


def run(tier):
    c = Check('C21', tier, 'model_checking')
    quick = tier == 'quick'
    envs = [{'draws': ['1/2'], 'moves': ['stay']}, {'draws': ['1/8', '7/8'], 'moves': ['neg', 'up']}, {'draws': ['1/1024'], 'moves': ['down'], 'tie': 'last', 'width': '1/64'},
            {'draws': ['1/3', '2/3', '1/5'], 'moves': ['zero', 'up'], 'width': '8'}]
    cases, what = [], []
    k = 0
    for n, A, S, names in ((1, A1, S1, ['u']), (2, A2, S2, ['u', 'v'])):
        for m in range(0, 4):
            for hs in itertools.permutations(range(len(A)), m) if m < 3 else itertools.combinations(range(len(A)), m):
                for si, s in enumerate(S):
                    k += 1
                    if quick and n == 2 and m > 1 and k % 2:
                        continue
                    ant = [A[i] for i in hs]
                    e = envs[k % len(envs)]
                    cases.append(['run', [G.sequent(ant, s, names, 'q%d' % k)], e])
                    what.append([(n, ant, s, names, 'q%d' % k)])
    # several sequents one after another in one session, over different variables
    one = (1, [A1[0], A1[1]], S1[0], ['u'], 'p1')
    two = (2, [A2[0], A2[1]], S2[0], ['v', 'w'], 'p2')
    bad = (1, [A1[0]], S1[1], ['u'], 'p3')
    big = (2, [A2[3], A2[1], A2[4]], S2[2], ['a', 'u'], 'p4')
    for seq in itertools.product([one, two, bad, big], repeat=3):
        cases.append(['run', [G.sequent(*q[1:]) for q in seq], envs[1]])
        what.append(list(seq))
    # interactive: every command sequence
    cmds = ['s', 'b', 'p', '0', '1', '7', 'zz', '-1', '', '0.5']
    for r in (0, 1, 2, 3):
        for scr in itertools.product(cmds if r < 3 else ['0', '1', '-1', '-2'], repeat=r):
            for q in (one, two, bad, big):
                cases.append(['run', [G.sequent(*q[1:])], dict(envs[0], script=list(scr) + ['go']), True])
                what.append([q])
    with Pool('grf', batch=25) as pool:
        ans = pool.answers(cases)
    n = nok = ncex = 0
    grid2 = [(F(a, 4), F(b, 4)) for a in range(-15, 16, 2) for b in range(-15, 16, 2)] + [(F(a), F(b)) for a in (-9, -1, 0, 1, 9) for b in (-9, -1, 0, 1, 9)]
    unis = {}

    def points(nv, polys):
        """points where none of the polynomials vanishes, one per interval in one variable"""
        if nv == 2:
            return [q for q in grid2 if all(G.ev(p, q) for p in polys)]
        key = str(polys)
        if key not in unis:
            unis[key] = [[pt] for pt in P.cells([dense(p) for p in polys if dense(p)]) if not isinstance(pt, P.Alg)]
        return unis[key]
    for case, a, w in zip(cases, ans, what):
        if not G.split(c, case, a):
            continue
        for (nv, ant, suc, names, label), r in zip(w, a):
            n += 1
            if r[0] == 'exc':
                if 'ounterexample' not in r[1]:
                    c.violation('the run fails: %s' % r[1], case, None, r)
                    continue
                ncex += 1
                pt = cex_point(r[1], r[2], names)
                if pt is None:
                    continue
                pt = [F(0) if x is None else x for x in pt]
                if not (all(G.holds(h, pt) for h in ant) and not any(G.holds(g, pt) for g in suc)):
                    c.violation('reported counterexample %s is none' % pt, case, None, r)
                continue
            nok += 1
            if r[1] is None:
                c.violation('no hiding list', case, None, r)
                continue
            ha, hs = r[1]
            if sorted(set(ha)) != ha or sorted(set(hs)) != hs or not set(ha) <= set(range(len(ant))) or not set(hs) <= set(range(len(suc))):
                c.violation('hiding list names formulas the sequent does not have', case, [len(ant), len(suc)], r[1])
                continue
            if len(hs) == len(suc):
                c.violation('the whole succedent is hidden', case, None, r[1])
                continue
            if r[2] != label:
                c.violation('name of the sequent', case, label, r[2])
            ka = [h for i, h in enumerate(ant) if i not in ha]
            ks = [g for i, g in enumerate(suc) if i not in hs]
            pts = points(nv, [h[0] for h in ka + ks])
            for pt in pts:
                if all(G.holds(h, pt) for h in ka) and not any(G.holds(g, pt) for g in ks):
                    c.violation('what is left after hiding %s fails at %s' % (r[1], [str(x) for x in pt]), case, None, r)
                    break
            # nothing is kept when the goal needs nothing
            if len(ks) + len(ka) > 1 and suc[-1][0] in ([[1, 2], [1, 0]], [[1, 2, 0], [1, 0, 2], [2, 0, 0]]) and suc[-1][1] == '>' and not (len(case) > 3):
                c.violation('formulas are kept although the goal holds everywhere', case, None, r)
    c.sample({"case": cases[10], "answer": ans[10]})
    c.sample({"case": cases[-1], "answer": ans[-1]})
    c.cov.update(states=len(cases), transitions=n, traces_validated_against_impl=len(cases), exhaustive=True)
    c.assumptions = ["sequents: all ordered pairs and all triples of hypotheses out of %d (one variable) and %d (two), with %d succedents of 1-3 formulas; all sessions of 3 sequents out of 4; all interactive command sequences of length <= 2 over 10 commands, and of length 3 over 4, followed by 'go'" % (len(A1), len(A2), len(S1) + len(S2)),
                     "%d runs ended with a hiding list, %d with a counterexample" % (nok, ncex),
                     "what is left after hiding is judged where none of its polynomials vanishes (GRF samples full-dimensional cells): exactly in one variable, on a rational grid in two",
                     "Sage, scipy, the optimiser and the random source are replaced by jy/sageshim.py"]
    G.notes(c)
    return c.finish()


def replay(case):
    with Pool('grf', n=1) as pool:
        return pool.answers([case])[0]
