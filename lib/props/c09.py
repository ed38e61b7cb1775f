"""C09: every term / relation / sequent text up to the bounds, parsed by the real grammar and compared in value with
prefix arithmetic on exact fractions."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool

POINTS = [{'x': F(3), 'y': F(-2), 'long_name1': F(5, 7), '_a': F(11, 3), 'E': F(2, 9), 'sympy': F(13, 4), 'X': F(-7, 2), 'x1': F(19), 'sin': F(4, 11)},
          {'x': F(-5, 3), 'y': F(7, 2), 'long_name1': F(-4), '_a': F(1, 6), 'E': F(-3), 'sympy': F(-2, 5), 'X': F(8, 3), 'x1': F(-1, 8), 'sin': F(6)}]
RELS = ['<=', '<', '=', '!=', '>=', '>']


def ev(t, p):
    """t: leaf string or [op, a, (b)]"""
    if isinstance(t, str):
        if t[0].isalpha() or t[0] == '_':
            return p[t]
        return F(t[:-1] if t.endswith('.') else t)
    if t[0] == 'neg':
        return -ev(t[1], p)
    a, b = ev(t[1], p), ev(t[2], p)
    return a + b if t[0] == '+' else a - b if t[0] == '-' else a * b if t[0] == '*' else a / b


def text(t, sep=' '):
    if isinstance(t, str):
        return t
    if t[0] == 'neg':
        return '(-%s%s)' % (sep, text(t[1], sep))
    return '(%s%s%s%s%s)' % (t[0], sep, text(t[1], sep), sep, text(t[2], sep))


def ok(t):
    try:
        return [ev(t, p) for p in POINTS] is not None
    except ZeroDivisionError:
        return False


def isdec(t):
    if isinstance(t, str):
        return '.' in t and not t.endswith('.')
    return any(isdec(x) for x in t[1:])


def grow(ts):
    out = [['neg', t] for t in ts]
    for o in '+-*/':
        out += [[o, a, b] for a in ts for b in ts]
    return out


def close(got, want):
    if got.startswith('f'):
        return abs(float(got[1:]) - float(want)) <= 1e-9 * max(1.0, abs(float(want)))
    n, d = got.split('/')
    return F(int(n), int(d)) == want


HOLD = {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '=': lambda a, b: a == b, '!=': lambda a, b: a != b, '>=': lambda a, b: a >= b, '>': lambda a, b: a > b}


def rel_ok(r, spec, strict_int):
    k, a, b = spec
    if r in ('T', 'F'):
        return all(HOLD[k](ev(a, p), ev(b, p)) == (r == 'T') for p in POINTS)
    if not isinstance(r, list) or r[0] != k:
        return False
    for side, vals in ((a, r[1]), (b, r[2])):
        for v, p in zip(vals, POINTS):
            if not isdec(side) and v.startswith('f'):
                return False           # no decimal literal: must stay exact
            if not close(v, ev(side, p)):
                return False
    return True


def run(tier):
    c = Check('C09', tier, 'model_checking')
    leaves = ['x', 'y', 'long_name1', '_a', 'E', 'X', 'x1', 'sin', '0', '1', '7', '12', '-3', '-1', '4.', '-4.', '2.5', '-0.125', '10.50', '0.1']
    few = ['x', '2', '-1.']
    d1 = [t for t in grow(leaves) if ok(t)]
    t1 = few + [t for t in grow(few) if ok(t)]
    d2 = [t for t in grow(t1) if ok(t)]
    terms = leaves + d1 + d2
    if tier != 'quick':
        two = ['x', '-2']
        a1 = two + [t for t in grow(two) if ok(t)]
        a2 = [t for t in grow(a1) if ok(t)]
        terms += [t for s in a2 for t in (['neg', s], ['-', s, 'x'], ['-', 'x', s], ['/', s, '-2'], ['*', ['neg', s], s], ['+', s, ['-', s, 'x']]) if ok(t)]
    # deep nests
    deep = 'x'
    for i in range(12):
        deep = ['+-*'[i % 3], deep, str(i - 5)] if i % 2 else ['neg', ['-', '1', deep]]
        terms.append(deep)
    items = []                     # (relation spec, text)
    for i, t in enumerate(terms):
        k = RELS[i % 6]
        other = ['y', '0', '-5', ['+', 'x', 'y']][i % 4]
        items.append((k, t, other) if i % 2 else (k, other, t))
    rt = ['x', '0', '-2', '1.5', ['neg', 'x'], ['-', 'x', 'y'], ['*', 'x', 'x'], ['/', 'y', '3']]
    for k in RELS:
        for a in rt:
            for b in rt:
                items.append((k, a, b))
    wr = lambda s, sep=' ': '(%s%s%s%s%s)' % (s[0], sep, text(s[1], sep), sep, text(s[2], sep))
    cases, expect = [], []
    G = 12
    for i in range(0, len(items), G):
        g = items[i:i + G]
        h = len(g) // 2
        cases.append('(sequent "q%d" (antecedent %s) (succedent %s))' % (i, ' '.join(wr(s) for s in g[:h]), ' '.join(wr(s) for s in g[h:])))
        expect.append([('q%d' % i, g[:h], g[h:])])
    # shapes: numbers of relations, several sequents, white space, names
    base = [('<=', 'x', '0'), ('<', ['neg', 'y'], '-3'), ('!=', ['-', 'x', 'y'], '2.5'), ('>', ['/', 'x', '2'], ['*', '-1', 'y']), ('=', 'x', 'y'), ('>=', '4.', 'x')]
    seps = [' ', '  ', '\n', '\t', ' \n\t ']
    for na in range(0, 4):
        for ns in range(0, 4):
            for si, sep in enumerate(seps):
                for rot in range(3):
                    b = base[rot:] + base[:rot]
                    A, S = b[:na], b[na:na + ns] if na + ns <= 6 else b[:ns]
                    nm = 'name %d-%s' % (na, 'ab\nc' if si == 2 else 'it')
                    cases.append('(sequent%s"%s"%s(antecedent%s%s)%s(succedent%s%s))' % (sep, nm, sep, sep, sep.join(wr(s, sep) for s in A), sep, sep, sep.join(wr(s, sep) for s in S)))
                    expect.append([(nm, A, S)])
    one = lambda n, A, S: '(sequent "%s" (antecedent %s) (succedent %s))' % (n, ' '.join(map(wr, A)), ' '.join(map(wr, S)))
    for k in range(0, 5):
        seqs = [('s%d' % j, base[j % 6:j % 6 + 2], base[(j + 3) % 6:(j + 3) % 6 + 1]) for j in range(k)]
        for glue in ('\n', '', '\n\n; comment 12 (not a sequent)\n'):
            cases.append(glue.join(one(*s) for s in seqs))
            expect.append(seqs)
    # names the parser itself uses must not disturb later texts
    for v in ('sympy', 'term', 'number', 'doInt', 'int', 'real', 'pyp', 'x', 'S', 'I'):
        POINTS[0].setdefault(v, F(3, 5)); POINTS[1].setdefault(v, F(-9, 4))
        s = ('v_' + v, [('<', v, '1'), ('<=', ['+', v, '2'], ['neg', '2.5'])], [('>', ['*', v, 'x'], '-7')])
        cases.append(one(*s) + '\n' + one(*s))
        expect.append([s, s])
    pts = [{k: str(v) for k, v in p.items()} for p in POINTS]
    with Pool('parse', batch=20) as pool:
        ans = pool.answers([['parse', t, pts] for t in cases])
    nrel = 0
    for t, e, a in zip(cases, expect, ans):
        case = ['parse', t, pts]
        if not isinstance(a, list):
            c.violation('parse failed', case, None, a)
            continue
        if len(a) != len(e):
            c.violation('number of sequents', case, len(e), len(a))
            continue
        for (nm, A, S), (gn, ga, gs) in zip(e, a):
            if gn != nm:
                c.violation('name', case, nm, gn)
            for side, want, got in (('antecedent', A, ga), ('succedent', S, gs)):
                if len(want) != len(got):
                    c.violation('number of relations in the ' + side, case, len(want), got)
                    continue
                for w, g in zip(want, got):
                    nrel += 1
                    if not rel_ok(g, w, True):
                        c.violation('relation %s' % wr(w), ['parse', one('q', [w], [w]), pts], [[str(ev(w[1], p)) for p in POINTS], [str(ev(w[2], p)) for p in POINTS]], g)
    c.sample({"text": cases[100], "parsed": str(ans[100])[:500]})
    c.sample({"text": cases[-20]})
    c.cov.update(states=len(terms) + len(cases), transitions=nrel, traces_validated_against_impl=len(cases), exhaustive=True, terms=len(terms), texts=len(cases))
    c.assumptions = ["state = term / relation / sequent text; transition = one grammar production on top of it",
                     "all terms of depth 1 over 20 leaves and of depth 2 over 3 leaves (both minus signs, all literal shapes), all relations over 8 terms, all sequents with 0-3 antecedent and succedent relations in 5 white-space styles",
                     "values compared exactly at two rational points (within 1e-9 when a decimal literal is involved); terms that divide by zero there are left out"]
    return c.finish()


def replay(case):
    with Pool('parse', n=1) as pool:
        return pool.answers([case])[0]
