"""C10: sequent checking."""
import itertools, re
from ..driver import Check, Pool
from .. import poly as P
from .vtsdec import TINY, prod, L

RELS = {'<=': 'le', '<': 'lt', '=': 'eq', '!=': 'ne', '>=': 'ge', '>': 'gt'}


def valid(u, ante, succ):
    m = u.all
    for k, i in ante:
        m &= u.mask[i][RELS[k]]
    for k, i in succ:
        if m & ~u.mask[i][RELS[k]]:
            return False
    return True


def run(tier):
    c = Check('C10', tier, 'model_checking')
    polys = TINY
    u = P.Universe(polys)
    R = [(k, i) for i in range(len(polys)) for k in RELS]
    R4 = [(k, i) for i in (0, 1, 3) for k in RELS]
    seqs = [([a], [b]) for a in R for b in R]
    R2 = [(k, i) for i in (1, 3) for k in RELS]
    RS = [(k, 1) for k in RELS] + [('<', 3), ('=', 3), ('>=', 3)]
    seqs += [([a, a2], [b]) for a in RS for a2 in RS for b in RS]
    seqs += [([a], [b, b2]) for a in RS for b in RS for b2 in RS if b != b2]
    RT = [('<=', 1), ('!=', 1), ('>', 3), ('<', 0)]
    seqs += [([a, a2], [b, b2]) for a in RT for a2 in RT for b in RT for b2 in RT]
    if tier != 'quick':
        seqs += [([a, a2], [b]) for a in R4 for a2 in R4 for b in R4]
        seqs += [([a], [b, b2]) for a in R4 for b in R4 for b2 in R4 if b != b2]
        seqs += [([a, a2], [b, b2]) for a, a2 in itertools.combinations(R2, 2) for b, b2 in itertools.combinations(R2, 2)]
        seqs += [(list(a), [b]) for a in itertools.combinations(R, 2) for b in R]
        seqs += [([a], list(b)) for a in R for b in itertools.combinations(R, 2)]
        seqs += [(list(a), [b]) for a in itertools.combinations(R4, 3) for b in R4]
        seqs += [([b], list(a)) for a in itertools.combinations(R4, 3) for b in R4]
    which = ['vts', 'ts']
    cases = [['sequent', [[k, polys[i]] for k, i in a], [[k, polys[i]] for k, i in s], which] for a, s in seqs]
    # the driver over a store: every file partition of small batches of examples
    runs = []
    one = [([a], [b]) for a in R[::4] for b in R[1::5]]
    for i in range(0, len(one), 6):
        g = one[i:i + 6]
        for split in ([6], [3, 3], [1, 2, 3], [2, 0, 4]):
            files, k = [], 0
            for j, n in enumerate(split):
                files.append(['f%d.txt.pkl' % j, g[k:k + n]])
                k += n
            runs.append((files, bool(i % 2 == 0)))
            if split == [1, 2, 3]:
                runs.append((files, not bool(i % 2 == 0)))
    if tier == 'quick':
        runs = runs[:30]
    # every sequent with several relations also goes through the driver, in files of 60
    multi = [q for q in seqs if len(q[0]) + len(q[1]) > 2]
    for i in range(0, len(multi), 60):
        runs.append(([['m%d.txt.pkl' % j, multi[i + 20 * j:i + 20 * j + 20]] for j in range(3)], i // 60 % 2 == 0))
    js = lambda a: [[k, polys[i]] for k, i in a]
    rcases = [['checkrun', [[n, [[js(a), js(s)] for a, s in exs]] for n, exs in files], v] for files, v in runs]
    with Pool('parse') as pool:
        # quick: every other sequent with several relations only through the driver
        skip = set(range(900, len(cases), 2)) if tier == 'quick' else set()
        part = pool.answers([x for i, x in enumerate(cases) if i not in skip])
        it = iter(part)
        ans = [None if i in skip else next(it) for i in range(len(cases))]
        rans = pool.answers(rcases, batch=2)
    nv = nseq = 0
    for (a, s), case, r in zip(seqs, cases, ans):
        w = valid(u, a, s)
        nv += w
        if r is None:
            continue
        if r != [w, w]:
            c.violation('sequent verdict [vts, ts]', case, [w, w], r)
    for (files, v), case, r in zip(runs, rcases, rans):
        if not isinstance(r, str):
            c.violation('check_examples failed', case, 'a report', r)
            continue
        got = re.findall(r'formula value: (True|False)', r)
        # files may be visited in any order; within a file the order is the stored one
        want = [[str(valid(u, a, s)) for a, s in exs] for n, exs in files]
        nseq += sum(map(len, want))
        if not any(sum(p, []) == got for p in itertools.permutations(want)):
            c.violation('reported formula values', case, want, got)
        bad = sum(x == 'False' for w in want for x in w)
        tail = r[r.rfind('formula value:'):]
        listed = len(re.findall(r'- False', tail))
        if listed != bad:
            c.violation('number of invalid examples listed', case, bad, tail[-400:])
    c.sample({"case": cases[777], "verdicts": ans[777]})
    c.sample({"case": rcases[3], "output": rans[3][-300:] if isinstance(rans[3], str) else rans[3]})
    c.cov.update(states=len(cases), transitions=sum(len(a) + len(s) for a, s in seqs), traces_validated_against_impl=len(cases) + len(rcases), exhaustive=True,
                 valid=nv, invalid=len(cases) - nv, store_runs=len(rcases), sequents_through_the_driver=nseq)
    c.assumptions = ["state = sequent; transition = adding a relation; all sequents with the stated numbers of relations over %d polynomials x 6 relations, both decision procedures" % len(polys),
                     "relations are non-degenerate (sympy does not fold them), as the statement says"]
    return c.finish()


def replay(case):
    with Pool('parse', n=1) as pool:
        return pool.answers([case])[0]
