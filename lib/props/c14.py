"""C14: Muchnik over the complex numbers."""
from ..driver import Check
from .qedec import T, systems, decide, judge_complex, light, replay
from .c15 import CLOSED, DEG, DEG1, DEGY, ONE, TWO, deg, lines, orders, products, vanishing

EXTRA = [T(s) for s in ('x^2+2*x+1', 'x^4+2*x^2+1', 'x^3-3*x+2', 'x^4', 'x^5-x^4')]
HIGH = [T(s) for s in ('x^3-3*x^2*y+3*x*y^2-y^3', 'x^4*y', 'x^3*y-x^3')]


def run(tier):
    c = Check('C14', tier, 'model_checking')
    lim = 7 if tier == 'quick' else 11
    pol = CLOSED + EXTRA
    cs = systems(pol, (1, 2), 2) + systems(CLOSED[:5] + EXTRA, (3,), 2)
    cs += systems(CLOSED[:4], (2,), 2, perms=True)
    cs += [[[p], [p]] for p in pol] + [[[p, p], []] for p in pol]
    par = systems(ONE, (1, 2), 2) + systems([ONE[0], ONE[5], ONE[6], ONE[7]], (3,), 2) + systems(ONE[:3], (2,), 2, perms=True) + systems(TWO, (1, 2), 2)
    par += systems(HIGH, (1,), 2) + systems([T('x'), HIGH[1]], (2,), 2) + systems([T('x'), HIGH[2]], (2,), 2) + systems([T('x-y'), HIGH[0]], (2,), 2)
    hi = deg(DEG, DEG1, 2) + systems([T('x^5-5*x^3+4*x')], (1,), 2) + [[[p], [p]] for p in DEG]
    hi += deg(DEGY + [T('x^6-y')], [T('x-1')], 2)
    if tier != 'quick':
        hi += deg(DEG, [T('x^2-3*x+2'), T('x^2+1')], 2) + systems([T('x^6-x^4')], (1,), 2)
        cs += systems(pol, (3,), 2)
        par += systems(ONE, (3,), 2) + systems(TWO, (3,), 2) + systems(ONE, (2,), 2, perms=True)
    par = light(par, lim)
    ln = [[a[1], a[0] + a[2]] for a in lines((2, 3, 4, 5, 8), orders)]
    ln += [[a[0][:1] + a[1] + a[2][:1], a[0][1:] + a[2][1:]] for a in lines((3, 4, 5), orders)]
    cs = light(cs, lim) + light(products(2) + vanishing(2), 6) + par + hi + ln
    plain = [[[ONE[0], ONE[7]], []], [[ONE[1]], []], [[TWO[1]], [TWO[2]]], [[ONE[2]], [ONE[7]]], [[CLOSED[3]], [CLOSED[0]]],
             [[CLOSED[5]], [CLOSED[0]]], [[ONE[9]], [ONE[5]]], [[EXTRA[0]], [CLOSED[0]]]]
    n, pts, true, np_ = decide(c, 'mc', cs, judge_complex, 'line', plain)
    c.cov.update(states=pts, transitions=n, traces_validated_against_impl=n + np_, exhaustive=True, systems=n, parametric_systems=len(par), true_cells=true, on_shipped_algebras=np_)
    c.assumptions = ["state = (system, parameter cell); every system of 1-2 requirements over %d closed polynomials, triples over stated subsets; of the parametric systems of 1-2 requirements all whose Muchnik closure has at most %d parametric constants; %d systems with degree 4 to 7; up to 8 linear polynomials in several orders; products next to requirements on their factors; parametric polynomials that vanish identically" % (len(pol), lim, len(hi)),
                     "one parameter: the generic point and every complex critical value (roots of the critical polynomials, by dynamic evaluation); two parameters: a 7x7 rational grid",
                     "run on the exact algebra jy/fastalg.py through the documented algebra interface; the shipped algebras are tied to it by C17, C16 and %d runs here" % np_]
    return c.finish()
