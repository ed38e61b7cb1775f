"""C15: Cohen-Hormander."""
import itertools
from ..driver import Check
from .qedec import T, systems, decide, judge_real, light, quads, small, replay

CLOSED = [T(s) for s in ('x-1', '1-x^2', 'x^2', 'x^2-2', '-x', 'x^3-x', '0', '3', '-2', '2*x+3', 'x^2+1', '-x^3+x^2')]
ONE = [T(s) for s in ('x-y', 'y*x+1', 'x^2-y', 'x^2+y*x+1', 'y*x^2+x-1', 'y', 'y-1', 'x-1', '-x^2+2', 'y*x', 'y^2*x^2-1', 'x^2-2*y*x+y^2', '-y*x+y')]
TWO = [T(s) for s in ('z*x-y', 'y', 'z', 'x-z', 'x^2+z*x+y', 'y*x+z', 'y-z')]

DEG1 = [T(s) for s in ('x-1', '-x', 'x^2-2', '-2*x+3')]
# higher degrees: closed ones and parametric ones the three procedures get through in seconds
DEG = [T(s) for s in ('x^4-2', 'x^4-5*x^2+4', '-x^5+x', 'x^4-x^3', 'x^6-1', 'x^4-x', '-x^4+x^2', 'x^5', 'x^7-x', 'x^4+1', 'x^5-2', '-x^5+x+1', '-x^6+1', '-x^4+2')]
DEGY = [T(s) for s in ('x^3-y', 'x^4-y', 'x^5-y', 'y*x^4-1')]


def lines(ns, perms):
    """sign requirements on x-1, ..., x-n, in several orders: below the first of them, between, on and above them"""
    out = []
    for n in ns:
        rs = list(range(1, n + 1))
        for order in perms(rs):
            for pt in range(1, 2 * n + 2):          # the point pt/2 + 1/2
                for wrong in (None, rs[n // 2]):
                    a = [[], [], []]
                    for r in order:
                        d = pt + 1 - 2 * r
                        k = 0 if d < 0 else 1 if d == 0 else 2
                        if r == wrong:
                            k = 2 - k if k != 1 else 0
                        a[k].append([[1, 0, 0, 1], [0, 0, 0, -r]])
                    out.append(a)
    return out


def product(fs):
    r = {(0, 0, 0): 1}
    for f in fs:
        n = {}
        for e, c in r.items():
            for t in f:
                k = tuple(a + b for a, b in zip(e, t))
                n[k] = n.get(k, 0) + c * t[3]
        r = n
    return [list(e) + [c] for e, c in sorted(r.items(), reverse=True) if c]


FACTORS = ['x-1 x+1', 'x x-1 x+1', 'x x^2-1', 'x^2+1 x^2-1', 'x^4-2 x', 'x^2-2 x^2+1', 'x-1 x-1 x+1', 'x x x x-1', 'x^2-1 x^2-1']


def products(signs):
    """a product, next to every sign requirement on its factors"""
    out = []
    for fs in FACTORS:
        fs = [T(f) for f in fs.split()]
        P = product(fs)
        ds = [f for i, f in enumerate(fs) if f not in fs[:i]]
        for ss in itertools.product(range(signs + 1), repeat=len(ds)):
            for s in range(signs):
                a = [[] for _ in range(signs)]
                a[s].append(P)
                for f, k in zip(ds, ss):
                    if k:
                        a[k - 1].append(f)
                out.append(a)
    return out


VANISH = [T(s) for s in ('y*x+y', 'y*x-y', 'y*x')]


def vanishing(signs):
    """a polynomial that is identically zero for one parameter value, next to several roots"""
    out = []
    for v in VANISH:
        for qs in ('x^2-1', 'x^2-1 x', 'x-1 x x+1 x-2', 'x x^2 x^3'):
            qs = [T(q) for q in qs.split()]
            pats = [[k] * len(qs) for k in range(signs)] + [[0] + [signs - 1] * (len(qs) - 1), [signs - 1] * (len(qs) - 1) + [0], [1] + [signs - 1] * (len(qs) - 1)]
            for pat in pats:
                for s in range(signs):
                    a = [[] for _ in range(signs)]
                    a[s].append(v)
                    for q, k in zip(qs, pat):
                        a[k].append(q)
                    out.append(a)
    return out


def orders(rs):
    if len(rs) <= 3:
        return list(itertools.permutations(rs))
    h = len(rs) // 2
    return [rs, rs[::-1], rs[h:] + rs[:h], rs[::2] + rs[1::2][::-1], [r for p in zip(rs[:h], rs[::-1]) for r in p] + ([rs[h]] if len(rs) % 2 else [])]


def deg(ps, qs, signs, extra=()):
    """every sign requirement on every p, alone and next to every sign requirement on every q"""
    out = []
    for p in list(ps) + list(extra):
        out += systems([p], (1,), signs)
        for q in qs:
            out += systems([p, q], (2,), signs)
    return out


def run(tier):
    c = Check('C15', tier, 'model_checking')
    q = tier == 'quick'
    cs = systems(CLOSED, (1, 2), 3) + systems(CLOSED[:4] + CLOSED[5:6], (3,), 3)
    cs += systems(CLOSED[:4], (2,), 3, perms=True)
    cs += [[[p], [p], []] for p in CLOSED] + [[[p], [], [p, p]] for p in CLOSED[:4]]
    cs += systems(ONE, (1,), 3) + [a for a in systems(ONE, (2,), 3) if small(a)]
    cs += systems([ONE[0], ONE[1], ONE[5], ONE[7]], (3,), 3)
    cs += systems(ONE[:3], (2,), 3, perms=True)
    cs += systems(TWO, (1,), 3) + systems([TWO[0], TWO[1], TWO[2], TWO[3], TWO[6]], (2,), 3)
    hi = deg(DEG[:10], DEG1[:2] if q else DEG1, 3, [T('x^4+x^3-x-1')]) + deg(DEG[10:], DEG1[-1:], 3) + deg(DEGY, [T('x-1')], 3) + systems([T('x^6-y'), T('x+2')], (1, 2), 3)
    hi += systems([T('x^4+y*x')], (1,), 3) + [[[p], [p], []] for p in DEG]
    cs += light(products(3) + vanishing(3), 5) + hi + lines((2, 3, 4, 8) if q else (2, 3, 4, 5, 6, 7, 8, 12), orders)
    if not q:
        cs += deg(DEG, [T('-x^3+2*x+1'), T('x^2-3*x+2')], 3) + systems(DEG[:4], (2,), 3) + systems([DEG[0], T('x-1'), T('x^2-2')], (3,), 3)
        cs += systems([T('-x^4+10*x^3-35*x^2+50*x-24')], (1,), 3) + systems([T('x^6-x^4')], (1,), 3)
        cs += [a for a in systems(ONE, (2,), 3) if quads(a) <= 1]
        cs += systems(CLOSED, (3,), 3) + [a for a in systems(ONE, (3,), 3) if small(a)]
        cs += [a for a in systems(TWO, (2,), 3) if quads(a) <= 1] + [a for a in systems(ONE, (2,), 3, perms=True) if quads(a) <= 1]
        cs += systems([TWO[0], TWO[1], TWO[2], TWO[3]], (3,), 3)
    plain = [[[], [], [ONE[1]]], [[ONE[0]], [ONE[7]], []], [[TWO[1]], [TWO[2]], []], [[], [ONE[2]], [ONE[7]]], [[], [CLOSED[3]], [CLOSED[0]]],
             [[CLOSED[1]], [CLOSED[5]], []], [[ONE[5]], [], [ONE[9]]]]
    n, pts, true, np_ = decide(c, 'ch', cs, judge_real, 'formula', plain)
    c.cov.update(states=pts, transitions=n, traces_validated_against_impl=n + np_, exhaustive=True, systems=n, true_cells=true, on_shipped_algebras=np_)
    c.assumptions = ["state = (system, parameter cell); every system of 1-2 sign requirements over %d closed and %d one-parameter polynomials (a parametric quadratic only next to linear polynomials; thorough: next to closed quadratics too), triples over stated subsets, two-parameter systems on a 7x7 rational grid; %d systems with degree 4 to 7; up to 8 linear polynomials in several orders; products next to requirements on their factors; parametric polynomials that vanish identically" % (len(CLOSED), len(ONE), len(hi)),
                     "one parameter: every cell of the parameter line, including irrational critical values, is decided exactly",
                     "run on the exact algebra jy/fastalg.py through the documented algebra interface; the shipped algebras are tied to it by C17, C16 and %d runs here" % np_]
    return c.finish()
