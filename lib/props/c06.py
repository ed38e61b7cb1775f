"""C06: explicit-state search over the contents of the disk cache.  State = set of files in the cache directory (with
contents); transitions = start a process and make every request sequence up to the bound, or lose one file."""
import itertools, threading
from ..driver import Check, Pool


def key(files):
    return tuple(sorted(files.items()))


def show(files):
    return sorted('%s (%d bytes)' % (k, len(v)) for k, v in files.items())


def run(tier):
    c = Check('C06', tier, 'model_checking')
    big = {}

    def heavy():
        # the largest size takes minutes: alone, in parallel with everything else
        with Pool('cache', n=1, silence=700) as pool:
            o = 'big_session' if tier == 'quick' else 'session'
            r = pool.answers([[o, {}, ['i5', 'g5', 'g4', 'i4']]])[0]
            big['cold'] = r
            if isinstance(r, list):
                big['warm'] = pool.answers([[o, r[1], ['g5', 'i5', 'i4', 'g3']]])[0]
    t = threading.Thread(target=heavy)
    t.start()
    small = ['g1', 'g2', 'i1', 'i2']
    full = small + ['g3', 'i3']
    seqs = [[a] for a in full] + [[a, b] for a in small for b in small] + [['i3', 'g3'], ['g2', 'i3'], ['i2', 'g3'], ['g2', 'E', 'i2'], ['g1', 'E', 'g2'], ['i2', 'E', 'i1'],
            ['i2', 'E', 'i3'], ['g3', 'i2', 'i3', 'g2']]
    if tier != 'quick':
        seqs = [list(x) for n in (1, 2, 3) for x in itertools.product(small + ['E'], repeat=n)] + [[a, b] for a in full for b in full] + \
            [list(x) for x in itertools.permutations(['g3', 'i3', 'g2'])]
    seen = {}
    start = {}
    frontier = [start]
    seen[key(start)] = start
    ntrans = 0
    nsess = 0
    limit = 80 if tier == 'quick' else 400
    with Pool('cache', n=7 if tier == 'quick' else 8, batch=4) as pool:
        refuse = pool.answers([['refuses']])[0]
        if not isinstance(refuse, dict) or 'exc' in refuse:
            c.violation('no answer', ['refuses'], None, refuse)
        else:
            for k, v in sorted(refuse.items()):
                if v != 'refused':
                    c.violation('unsupported size answered: ' + k, ['refuses'], 'refused', v)
        while frontier:
            # quick: sympy's own inv() in the sessions on an empty directory, the known inverse otherwise
            sess = 'session' if tier != 'quick' else 'big_session'
            cases = [[sess, f, s] for f in frontier for s in seqs]
            if sess != 'session' and len(seen) == 1:
                cases += [['session', f, s] for f in frontier for s in seqs]
            ans = pool.answers(cases)
            nxt = []

            def add(f):
                if key(f) not in seen and len(seen) < limit:
                    seen[key(f)] = f
                    nxt.append(f)
            for case, a in zip(cases, ans):
                nsess += 1
                ntrans += len(case[2])
                brief = case
                if not isinstance(a, list):
                    c.violation('request failed in cache state %s' % show(case[1]), brief, 'exact matrices', a)
                    continue
                for r, bad in zip(case[2], a[0]):
                    if bad:
                        c.violation('request %s in cache state %s: %s' % (r, show(case[1]), bad), brief, 'exact matrix', bad)
                if case[0] == sess:
                    add(a[1])
                if len(c.samples) < 4 and len(a[1]) > 3:
                    c.sample({"cache_before": show(case[1]), "requests": case[2], "cache_after": show(a[1])})
            for f in list(frontier) + list(nxt):
                for p in f:
                    ntrans += 1
                    if p.endswith('/'):
                        if any(q != p and q.startswith(p) for q in f):
                            continue
                    g = dict(f)
                    del g[p]
                    add(g)
            frontier = nxt
    t.join()
    for name in ('cold', 'warm'):
        a = big.get(name)
        nsess += 1
        case = ['session', {}, ['i5', 'g5', 'g4', 'i4']] if name == 'cold' else 'second process on the cache the first one left'
        if not isinstance(a, list):
            c.violation('sizes 4 and 5, %s cache' % name, case, 'exact matrices', a)
            continue
        ntrans += len(a[0])
        for bad in a[0]:
            if bad:
                c.violation('sizes 4 and 5, %s cache' % name, case, 'exact matrices', a[0])
                break
    c.cov.update(states=len(seen), transitions=ntrans, traces_validated_against_impl=nsess, exhaustive=len(seen) < limit,
                 request_sequences_per_state=len(seqs), largest_size=5)
    c.assumptions = ["quick: except in one set of sessions on an empty directory, sympy's inv() of a matrix that is exactly the expected one is replaced by the known inverse (thorough: the real inv())",
                     "state = files in the cache directory; from every reachable state every listed request sequence in a new process, and the loss of each file; closure reached if exhaustive is true",
                     "a new process is a new execution of the module in the same interpreter with all of the repository's modules dropped",
                     "expected matrices: Kronecker powers of the 3x3 sign matrix and of its inverse, computed with exact fractions"]
    return c.finish()


def replay(case):
    with Pool('cache', n=1) as pool:
        a = pool.answers([case])[0]
        return a[0] if isinstance(a, list) else a
