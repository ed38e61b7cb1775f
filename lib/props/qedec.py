"""shared by C13, C14, C15: systems, parameter cells, comparison with the exact oracle"""
import itertools, json, multiprocessing, re
from fractions import Fraction as F
from ..driver import Check, Pool
from .. import poly as P
from .. import qe


def T(s):
    """'2*x^2*y-1' -> terms"""
    out = []
    if s == '0':
        return []
    for t in re.findall(r'[+-]?[^+-]+', s.replace(' ', '')):
        c, e = 1, [0, 0, 0]
        if t[0] == '-':
            c, t = -1, t[1:]
        elif t[0] == '+':
            t = t[1:]
        for f in t.split('*'):
            if f[0] in 'xyz':
                e['xyz'.index(f[0])] += int(f[2:]) if '^' in f else 1
            else:
                c *= int(f)
        out.append(e + [c])
    return out


def text(p):
    return '+'.join('%s*x^%d*y^%d*z^%d' % (c, i, j, k) for i, j, k, c in p) or '0'


def grid():
    v = [F(-2), F(-1), F(-1, 2), F(0), F(1, 2), F(1), F(2)]
    return [(a, b) for a in v for b in v]


def points(ps, formula):
    if any(t[2] for p in ps for t in p):
        return grid()
    if not any(t[1] for p in ps for t in p):
        return [F(0)]
    return P.cells(qe.projection(ps) + [qe.ypoly(p) for con in formula for part in con for p in part])


def show(pt):
    if isinstance(pt, P.Alg):
        return 'root of %s in [%s, %s]' % ([str(c) for c in pt.f], pt.lo, pt.hi)
    return str(pt)


def judge_real(job):
    """-> (number of parameter points, number where true, first disagreement or None)"""
    args, r, how = job
    formula, sat = r
    ps = [p for a in args for p in a]
    pts = points(ps, formula)
    closed = not any(t[1] or t[2] for p in ps for t in p)
    n = 0
    for pt in pts:
        want = qe.real(*args, pt)
        n += want
        if closed and how == 'line':
            got = {'Satisfiable': True}.get(sat, False if sat else None)
        else:
            got = qe.holds_real(formula, pt)
        if want != got:
            return len(pts), n, [show(pt), want, got]
    return len(pts), n, None


def judge_complex(job):
    args, r, how = job
    eq, ne = args
    formula, sat = r
    ps = eq + ne
    if any(t[2] for p in ps for t in p):
        # two parameters: the rational grid, as the roots of y - a over Q
        n = 0
        pts = grid()
        for a, b in pts:
            R = qe.Res([-a, F(1)])
            want = qe._complex_in(R, eq, ne, b)
            n += want
            val = lambda p: P.ev(qe.ypoly(p, b), a) == 0
            got = any(all(val(p) for p in zs) and not any(val(p) for p in ns) for zs, ns in formula)
            if want != got:
                return len(pts), n, [str((a, b)), want, got]
        return len(pts), n, None
    if not any(t[1] for p in ps for t in p):
        want = qe._complex_in(qe.Res([F(0), F(1)]), eq, ne)
        got = {'Satisfiable': True}.get(sat, False if sat else None)
        return 1, int(want), None if want == got else ['-', want, got]
    crit = [p for p in qe.projection(ps) + [qe.ypoly(p) for con in formula for part in con for p in part] if len(p) > 1]
    base = P.basis(crit)
    y0 = F(7)
    while any(P.ev(b, y0) == 0 for b in base):
        y0 += 1
    n = tot = 0
    for f in [[-y0, F(1)]] + base:
        for g, want, got in qe.complex_on(eq, ne, formula, f):
            tot += 1
            n += want
            if want != got:
                return tot, n, ['roots of %s' % [str(c) for c in g], want, got]
    return tot, n, None


def systems(polys, sizes, signs, perms=False):
    """all systems with the given numbers of requirements over polys; each requirement = (poly, sign list index)"""
    out = []
    for k in sizes:
        for ps in (itertools.permutations if perms else itertools.combinations)(range(len(polys)), k):
            for ss in itertools.product(range(signs), repeat=k):
                if perms and any(ss[i] == ss[i + 1] and False for i in range(k - 1)):
                    continue
                args = [[] for _ in range(signs)]
                for p, s in zip(ps, ss):
                    args[s].append(polys[p])
                out.append(args)
    return out


def dedup(cases):
    seen, out = set(), []
    for c in cases:
        k = json.dumps(c)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def weight(ps):
    """number of constants with a parameter in the closure of ps under tail, derivative and pseudo-remainder: the
    Muchnik procedures enumerate 3 (real) or 2 (complex) to this power sign assignments; None if above 12"""
    import os, sys
    jy = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'jy')
    if jy not in sys.path:
        sys.path.append(jy)
    import fastalg as fa
    A = fa.FastAlgebra()
    todo = []
    for p in ps:
        r = fa.Poly({})
        for i, j, k, c in p:
            r = r + fa.mono(i, j, k, c)
        todo.append(r)
    done = set()
    while todo:
        h = todo.pop(0)
        if h in done or h == 0:
            continue
        d = A.degree(h)
        if d > 0:
            todo += [A.p_tail(h), A.derivative(h)]
            for q in list(done):
                e = A.degree(q)
                if e > 0 and e <= d:
                    todo.append(A.pseudo_div(h, q)[1])
                if e > 0 and e >= d:
                    todo.append(A.pseudo_div(q, h)[1])
        done.add(h)
        if sum(1 for q in done if A.degree(q) == 0 and A.has_variable(q)) > 12 or len(done) > 60:
            return None
    return sum(1 for q in done if A.degree(q) == 0 and A.has_variable(q))


def _w(args):
    return weight([p for a in args for p in a])


def light(cases, limit):
    with multiprocessing.Pool(8) as mp:
        ws = mp.map(_w, cases, chunksize=16)
    return [c for c, w in zip(cases, ws) if w is not None and w <= limit]


def quads(args):
    """number of polynomials with a parameter and x-degree 2 or more"""
    return sum(1 for a in args for p in a if any(t[0] >= 2 for t in p) and any(t[1] or t[2] for t in p))


def small(args):
    """a parametric quadratic only next to linear polynomials and constants"""
    return quads(args) == 0 or sum(1 for a in args for p in a if any(t[0] >= 2 for t in p)) == 1


def decide(c, opname, cases, judge, how, plain=(), silence=None):
    """runs every system on an exact algebra without sympy (fastalg), and those in plain also on the shipped algebras;
    compares in every parameter cell.  A disagreement is reported only if the shipped algebra shows it as well."""
    silence = silence or (200 if c.tier == 'quick' else 600)
    cases = dedup(cases)
    calls = [[opname] + args + ['fast'] for args in cases]
    pcalls = [[opname] + args + [alg] for args in dedup(plain) for alg in ('plain', 'cached')]
    allc = [a[1:-1] for a in calls + pcalls]
    with Pool('hs', silence=silence, batch=10, go_on=True) as pool:
        ans = pool.answers(pcalls + calls, batch=5)
        ans = ans[len(pcalls):] + ans[:len(pcalls)]
        calls = calls + pcalls
        good = [i for i, r in enumerate(ans) if not isinstance(r, dict)]
        with multiprocessing.Pool(8) as mp:
            res = dict(zip(good, mp.map(judge, [(allc[i], ans[i], how) for i in good], chunksize=8)))

            bad = [i for i in range(len(calls)) if (i not in res and 'skipped' not in ans[i]) or (i in res and res[i][2])]
            sure = [i for i in bad if calls[i][-1] != 'fast']
            doubt = sorted([i for i in bad if calls[i][-1] == 'fast'], key=lambda i: len(json.dumps(calls[i])))[:16]
            dcalls = [calls[i][:-1] + ['plain'] for i in doubt]
            dans = pool.answers(dcalls, batch=1)
            dgood = [k for k, r in enumerate(dans) if not isinstance(r, dict)]
            dres = dict(zip(dgood, mp.map(judge, [(allc[doubt[k]], dans[k], how) for k in dgood])))
    for i in sure:
        report(c, opname, calls[i], ans[i], res.get(i))
    for k, i in enumerate(doubt):
        if k in dres:
            if dres[k][2]:
                report(c, opname, dcalls[k], dans[k], dres[k])
        elif 'noanswer' in dans[k] or 'skipped' in dans[k]:
            if i in res or 'noanswer' in ans[i]:      # a wrong formula, or silence, with the exact algebra
                report(c, opname, calls[i], ans[i], res.get(i))
        else:
            report(c, opname, dcalls[k], dans[k], None)
    pts = sum(r[0] for i, r in res.items() if calls[i][-1] == 'fast')
    true = sum(r[1] for i, r in res.items() if calls[i][-1] == 'fast')
    for i in (len(cases) // 3, len(cases) * 2 // 3, len(calls) - 1):
        if i in res:
            c.sample({"system": [[text(p) for p in a] for a in allc[i]], "algebra": calls[i][-1], "conjunctions": len(ans[i][0]), "said": ans[i][1],
                      "cells": res[i][0], "true_in": res[i][1]})
    return len(cases), pts, true, len(pcalls)


def report(c, opname, call, r, res):
    if res is None:
        c.violation('%s gave no answer' % opname, call, 'a formula', r)
    else:
        c.violation('%s: the returned formula differs from the truth at parameter %s' % (opname, res[2][0]), call, res[2][1],
                    {"value": res[2][2], "returned": str(r)[:400]})


def replay(case):
    with Pool('hs', n=1, silence=600) as pool:
        return pool.answers([case])[0]
