"""C13: Muchnik over the reals."""
from ..driver import Check
from .qedec import T, systems, decide, judge_real, light, replay
from .c15 import CLOSED, DEG, DEG1, DEGY, ONE, TWO, deg, lines, orders, products, vanishing


def run(tier):
    c = Check('C13', tier, 'model_checking')
    lim = 5 if tier == 'quick' else 7
    cs = systems(CLOSED, (1, 2), 3) + systems(CLOSED[:5], (3,), 3)
    cs += systems(CLOSED[:4], (2,), 3, perms=True)
    cs += [[[p], [p], []] for p in CLOSED] + [[[p], [], [p, p]] for p in CLOSED[:4]]
    par = systems(ONE, (1, 2), 3) + systems([ONE[0], ONE[5], ONE[6], ONE[7]], (3,), 3) + systems(ONE[:3], (2,), 3, perms=True) + systems(TWO, (1, 2), 3)
    hi = deg(DEG, DEG1, 3) + systems([T('x^5-5*x^3+4*x')], (1,), 3) + [[[p], [p], []] for p in DEG]
    hiy = systems(DEGY, (1,), 3) + deg([DEGY[0]], [T('x-1')], 3)
    if tier != 'quick':
        hi += deg(DEG, [T('x^2-3*x+2')], 3) + systems([T('x^6-x^4')], (1,), 3)
        cs += systems(CLOSED, (3,), 3)
        par += systems(ONE, (3,), 3) + systems(TWO, (3,), 3) + systems(ONE, (2,), 3, perms=True)
    par = light(par, lim)
    cs = light(cs, lim) + light(products(3) + vanishing(3), 5) + par + hi + hiy + lines((2, 3, 4, 5, 8, 9) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 9, 12), orders)
    plain = [[[], [], [ONE[1]]], [[ONE[0]], [ONE[7]], []], [[TWO[1]], [TWO[2]], []], [[], [ONE[2]], [ONE[7]]], [[], [CLOSED[3]], [CLOSED[0]]],
             [[CLOSED[1]], [CLOSED[0]], []], [[ONE[5]], [], [ONE[9]]], [[CLOSED[4]], [CLOSED[2]], []]]
    n, pts, true, np_ = decide(c, 'mr', cs, judge_real, 'line', plain)
    c.cov.update(states=pts, transitions=n, traces_validated_against_impl=n + np_, exhaustive=True, systems=n, parametric_systems=len(par), true_cells=true, on_shipped_algebras=np_)
    c.assumptions = ["state = (system, parameter cell); every system of 1-2 sign requirements over %d closed polynomials, triples over stated subsets; of the parametric systems of 1-2 requirements all whose Muchnik closure has at most %d parametric constants (3^%d sign assignments); %d systems with degree 4 to 7; up to 9 linear polynomials in several orders; products next to requirements on their factors; parametric polynomials that vanish identically" % (len(CLOSED), lim, lim, len(hi + hiy)),
                     "one parameter: every cell of the parameter line, including irrational critical values, is decided exactly; two parameters: a 7x7 rational grid",
                     "run on the exact algebra jy/fastalg.py through the documented algebra interface; the shipped algebras are tied to it by C17, C16 and %d runs here" % np_]
    return c.finish()
