"""C03 / C04: encodings of roots and signs at / just right of them."""
import itertools
from ..driver import Check, Pool
from .. import poly as P
from .vtsdec import STRUCT, HIGH, small_polys, prod, L


def enc_need(p):
    """number of polynomials the sign determination at the roots of p needs at most: the derivatives that split
    the roots, as any correct encoding by successive derivative signs uses them, plus the goal"""
    p = P.norm(p)
    rs = P.roots(p)
    best = 0

    def go(idx, q, used):
        nonlocal best
        if len(idx) <= 1 or not q:
            best = max(best, used)
            return
        d = P.der(q)
        groups = {}
        for i in idx:
            groups.setdefault(rs[i].sign(d), []).append(i)
        for g in groups.values():
            go(g, d, used + (len(groups) > 1))
    go(list(range(len(rs))), p, 0)
    return best + 1


GOALS = small_polys(1, (-1, 1)) + [[0, 1], [0, -1], [-1, 0, 1], [1, 0, 1], [-2, 0, 1], [2, 0, -1], [1, -2, 1], [-1, 2, -1],
         [0, 0, 1], [0, -1, 1], [1, 1, 1], [-5, 2], [-2, 0, 0, 1], [0, -1, 0, 1], [1, -3, 0, 1], prod(L(1), L(2), L(3), L(4)),
         [-2, 0, 3], [-4, 0, 3], [7, -5, 0, 2], [0, 0, 0, 0, 0, 0, 0, 1], [-3, 1, -4, 1, -5, 9, 2, -6], [-10 ** 10 - 1, 10 ** 10, 1], [10 ** 30, -1, 10 ** 20]]


# goals whose derivative is the origin polynomial
ANTI = [prod(L(1), L(1), L(-1)), [0, 0, 0, 0, 1], [0, 0, 0, 0, -1], prod([-1, 0, 1], [-1, 0, 1]), prod([-1], L(0), L(0), L(2), L(2)), prod(L(1), L(1), L(1), L(0)),
        prod(L(-1), L(-1), L(1), L(1), L(1)), [0] * 6 + [1], prod([-2, 0, 1], [-2, 0, 1]), prod(L(0), L(0), [1, 0, 1])]


def origins(tier):
    ps = [[int(x) for x in P.der(P.norm(g))] for g in ANTI]
    ps += [p for p in small_polys(3, (-1, 0, 1)) if len(p) >= 2] + [p for p in STRUCT if len(p) >= 2]
    ps += [prod(L(-1), L(0), L(1), L(2)), prod([-1], L(-1), L(0), L(1), L(2)), prod(L(0), L(0), L(1), L(1)), [2, 0, -4, 0, 1],
           prod(L(0), [-2, 0, 1], L(3)), prod([3], L(1), L(1), L(1), L(2)), prod(L(-1), L(-1), L(1), L(1), L(0))]
    # every multiplicity pattern of up to 5 roots
    for k in (3, 4, 5):
        for c in itertools.combinations_with_replacement([-2, 0, 1], k):
            ps.append(prod([(-1) ** c[1]], *[L(a) for a in c]))
    for c in itertools.combinations_with_replacement([-1, 0, 1, 3], 5):
        if len(set(c)) == 3:
            ps.append(prod(*[L(a) for a in c]))
    # degrees 6 to 8 and large coefficients
    ps += [p for p in HIGH if len(p) > 1]
    ps += [prod([1, 0, 1], [1, 0, 1], L(1), L(1), L(2)), prod([-1, 0, 0, 1], [1, 0, 1], L(-1), L(0)), prod([2, 0, 0, 0, 1], [-2, 0, 1], L(0)),
           prod([1, 1, 1], [1, 1, 1], [-1], L(0), L(0), L(-2)), prod(*[[10 ** 6, 0, 1]] * 2 + [L(0), L(1)]), prod([10 ** 12 + 39, 10 ** 9 + 7, 10 ** 12 + 61], L(1), L(2))]
    for k in (2, 3, 4):
        for n, r in enumerate(itertools.combinations_with_replacement((-1, 0, 1), k)):
            if len(set(r)) > 1:
                ps.append(prod([(-1) ** n], *([[1, 0, 1]] * (2 if k < 4 else 1) + [L(a) for a in r])))
                if tier != 'quick' or k == 4:
                    ps.append(prod([-(-1) ** n], *([[1, 0, 1]] * (2 if k < 4 else 1) + [L(a) for a in r])))
    if tier != 'quick':
        for k in (4, 5, 6):
            for c in itertools.combinations_with_replacement([-2, -1, 0, 1, 3], k):
                if k < 6 or len(set(c)) <= 3:
                    ps.append(prod([(-1) ** k], *[L(a) for a in c]))
        ps += [p for p in small_polys(4, (-1, 0, 1)) if len(p) == 5] + [p for p in small_polys(2, (-3, -2, -1, 0, 1, 2, 3)) if len(p) == 3]
        rs = [-2, -1, 0, 1, 2]
        for k in (3, 4):
            for c in itertools.combinations_with_replacement(rs, k):
                for s in (1, -1):
                    ps.append(prod([s], *[L(a) for a in c]))
    seen, out = set(), []
    for p in ps:
        if tuple(p) not in seen and P.roots(P.norm(p)):
            seen.add(tuple(p))
            out.append(p)
    return out


def run_enc(pid, tier):
    c = Check(pid, tier, 'model_checking')
    near_mode = pid == 'C04'
    limit = 4
    ps = [p for p in origins(tier) if enc_need(p) <= limit]
    cases, meta = [], []
    for p in ps:
        goals = [g for g in GOALS if g]
        # goals that share roots with p, to every multiplicity around that of p
        sq = P.norm(p)
        d = P.der(sq)
        extra = [g for g in ANTI if P.der(P.norm(g)) == sq]
        fac = [q for q in (P.gcd(sq, d), P.squarefree(sq)) if P.deg(q) >= 1]
        for q in [sq] + fac:
            den = 1
            for x in q:
                den = den * x.denominator
            q = [int(x * den) for x in q]
            for e in (1, 2, 3):
                z = [int(x) for x in P.power(P.norm(q), e)]
                if len(z) <= 8:
                    extra += [z, [-x for x in z], prod(z, [1, 2])]
        if len(P.der(sq)) > 1:
            extra.append([int(x) for x in P.der(sq)])
        goals = goals + [g for k, g in enumerate(extra) if g not in goals and g not in extra[:k]]
        if tier == 'quick' and len(p) >= 6:
            goals = goals[::4] + extra[:4] + GOALS[-4:-2]
        for i in range(0, len(goals), 12):
            gs = goals[i:i + 12]
            cases.append(['encode', p, [] if near_mode else gs, gs if near_mode else []])
            meta.append(gs)
    with Pool('vts', batch=6) as pool:
        # one process computes the sign matrices, with the code under test; the others start from its cache files
        ans = pool.answers(cases)
    nstates = ntrans = 0
    dist = {}
    for case, gs, a in zip(cases, meta, ans):
        p = P.norm(case[1])
        rs = P.roots(p)
        if not isinstance(a, list):
            c.violation('no answer', case, None, a)
            continue
        if len(a) != len(rs):
            c.violation('number of encodings is not the number of roots', case, len(rs), a)
            continue
        for k, (r, (enc, groups, at, near)) in enumerate(zip(rs, a)):
            nstates += 1
            for q, s in enc:
                ntrans += 1
                if r.sign(q) != s:
                    c.violation('encoding sign of root %d is wrong for %s' % (k, q), case, r.sign(q), s)
            for s, g in zip((-1, 0, 1), groups):
                for q in g:
                    if r.sign(q) != s:
                        c.violation('root %d filed under the wrong sign of %s' % (k, q), case, r.sign(q), s)
            same = [j for j, o in enumerate(rs) if all(o.sign(q) == s for q, s in enc)]
            if same != [k]:
                c.violation('encoding of root %d also fits roots %s' % (k, same), case, [k], enc)
            if near_mode:
                want = [P.sign_right(r, g) for g in gs]
                got = near
            else:
                want = [r.sign(g) for g in gs]
                got = at
            ntrans += len(want)
            for g, w, x in zip(gs, want, got):
                dist[(len(enc) + 1, w)] = dist.get((len(enc) + 1, w), 0) + 1
                if w != x:
                    c.violation('sign of %s at root %d' % (g, k), ['encode', case[1], [] if near_mode else [g], [g] if near_mode else []], w, x)
    c.sample({"case": cases[len(cases) // 2], "answer": ans[len(cases) // 2]}, 3)
    c.cov.update(states=nstates, transitions=ntrans, traces_validated_against_impl=len(cases), exhaustive=True,
                 origin_polynomials=len(ps), by_polynomials_used_and_sign={'%d polynomials, sign %+d' % k: v for k, v in sorted(dist.items())})
    c.assumptions = ["state = (polynomial, root); transition = one goal polynomial evaluated there; all polynomials of degree <= 3 with coefficients -1,0,1 plus the structured list, all goals, whose sign determination needs at most %d polynomials" % limit,
                     "z3's root isolation is trusted for these polynomials (small roots)"]
    return c.finish()
