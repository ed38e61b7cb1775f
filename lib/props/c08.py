"""C08: conversion between symbolic polynomials and coefficient lists."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool
from .. import poly as P
from .vtsdec import small_polys, replay
from .c05 import pos_multiple

COEF = ['0', '1', '-1', '2', '1/2', '-2/3', '5/6', '-3']


def run(tier):
    c = Check('C08', tier, 'model_checking')
    items = []          # (expression, exact value)
    for n in range(0, 4 if tier == 'quick' else 5):
        for cs in itertools.product(COEF if n < 4 else COEF[:5], repeat=n):
            items.append((list(cs), P.norm([F(x) for x in cs])))
    base = [['1', '1'], ['-1/2', '1'], ['0', '0', '1'], ['2/3'], ['0', '-3'], ['1', '0', '1/4'], ['0']]
    val = lambda e: P.norm([F(x) for x in e])
    for a, b in itertools.product(base, repeat=2):
        items.append((['*', a, b], P.mul(val(a), val(b))))
        items.append((['-', a, b], P.sub(val(a), val(b))))
        for d in base:
            items.append((['+', ['*', a, b], d], P.add(P.mul(val(a), val(b)), val(d))))
            items.append((['-', ['*', a, b], ['*', b, d]], P.sub(P.mul(val(a), val(b)), P.mul(val(b), val(d)))))
            items.append((['*', ['+', a, b], d], P.mul(P.add(val(a), val(b)), val(d))))
    for a in base:
        for k in (2, 3, 5):
            items.append((['^', a, k], P.power(val(a), k)))
            items.append((['-', ['^', a, k], ['^', a, k]], []))
    for cs in (['1000000007', '0', '-999999999999999999999'], ['1/1000003', '1/999983'], ['0'] * 12 + ['1/7'], ['1', '0', '0', '0', '0', '0', '0', '0', '-1/2'],
               ['123456789012345678901234567890', '1/3']):
        items.append((cs, P.norm([F(x) for x in cs])))
    # many terms, many denominators, coefficients beyond 64 bits
    row = ['1/3', '-7/4', '11/5', '0', '2/7', '-13/11', '10000000000000000000001', '1/13', '-18446744073709551617/17', '0', '9223372036854775808', '4/9', '-1/8', '5/25', '6',
           '-35/3', '1/19', '12/23', '-4294967297', '3/29']
    for n in range(4, 15 if tier == 'quick' else 21):
        for i in range(len(row)):
            cs = [row[(i + 7 * j) % len(row)] for j in range(n)]
            items.append((cs, P.norm([F(x) for x in cs])))
    # common factors of numerators and denominators
    for cs in itertools.product(['6', '-12', '3/2', '9/4', '-15/10'], repeat=3):
        items.append((list(cs), P.norm([F(x) for x in cs])))
    cases = [['convert', [e for e, _ in items[i:i + 40]]] for i in range(0, len(items), 40)]
    lists = small_polys(3, (-2, 0, 1, 5)) + [[0] * 9 + [1], [10 ** 20, -1]]
    cases2 = [['convert_back', lists[i:i + 40]] for i in range(0, len(lists), 40)]
    names = ['y', 'x1', 'alpha']
    cases3 = [['refuse']] + [['convert_var', n, ['1/2', '0', '-3']] for n in names]
    with Pool('vts', batch=4) as pool:
        ans = pool.answers(cases + cases2 + cases3)
    tot = 0
    k = 0
    for case, a in zip(cases, ans):
        for e in case[1]:
            v = items[k][1]
            assert items[k][0] == e
            k += 1
            tot += 1
            if not isinstance(a, list):
                c.violation('no answer', case, None, a)
                break
            r = a[case[1].index(e)] if False else a[(k - 1) % 40]
            ok = isinstance(r, list) and all(x.lstrip('-').isdigit() for x in r)
            if ok:
                ints = [int(x) for x in r]
                ok = pos_multiple(ints, v) and (not ints or ints[-1] != 0)
            if not ok:
                c.violation('conversion is not a positive integer multiple', ['convert', [e]], [str(x) for x in v], r)
    for case, a in zip(cases2, ans[len(cases):]):
        for l, r in zip(case[1], a if isinstance(a, list) else [a] * len(case[1])):
            tot += 1
            if not isinstance(r, list) or P.norm([F(x) for x in r]) != P.norm(l):
                c.violation('back conversion', ['convert_back', [l]], l, r)
    for case, a in zip(cases3, ans[len(cases) + len(cases2):]):
        if case[0] == 'refuse':
            if not isinstance(a, dict) or 'exc' in a:
                c.violation('no answer', case, None, a)
                continue
            for what, r in sorted(a.items()):
                tot += 1
                if r != 'refused':
                    c.violation('not refused: ' + what, case, 'refused', r)
        else:
            tot += 1
            if not isinstance(a, list) or not pos_multiple([int(x) for x in a], [F(1, 2), F(0), F(-3)]):
                c.violation('variable name', case, None, a)
    c.sample({"expression": items[300][0], "coefficients": ans[300 // 40][300 % 40]})
    c.sample({"expression": items[-20][0], "value": [str(x) for x in items[-20][1]]})
    c.cov.update(states=tot, transitions=len(items), traces_validated_against_impl=tot, exhaustive=True)
    c.assumptions = ["state = expression; all coefficient tuples of length <= %d over %s and all sums, differences, products and powers of 7 base expressions" % (3 if tier == 'quick' else 4, COEF)]
    return c.finish()
