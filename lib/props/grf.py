"""Common parts of C18-C22: polynomials in several variables over the rationals, atoms, sequents as text."""
import itertools
from fractions import Fraction as F

OPS = ['>', '<', '<=', '>=', '=', '!=']
HOLD = {'<=': lambda a: a <= 0, '<': lambda a: a < 0, '=': lambda a: a == 0, '!=': lambda a: a != 0, '>=': lambda a: a >= 0, '>': lambda a: a > 0}


def ev(t, pt):
    r = F(0)
    for m in t:
        v = F(m[0])
        for e, x in zip(m[1:], pt):
            if e:
                v *= F(x) ** e
        r += v
    return r


def holds(a, pt):
    return HOLD[a[1]](ev(a[0], pt) - (ev(a[2], pt) if len(a) > 2 else 0))


def needs(a):
    """variables of lhs - rhs"""
    s = {}
    for side, k in ((a[0], 1), (a[2] if len(a) > 2 else [], -1)):
        for m in side:
            s[tuple(m[1:])] = s.get(tuple(m[1:]), 0) + k * F(m[0])
    return {i for m, c in s.items() if c for i, e in enumerate(m) if e}


def pad(t, n):
    return [[m[0]] + (list(m[1:]) + [0] * n)[:n] for m in t]


# polynomials in x0 (and x1)
UNI = [[[1, 1]], [[1, 1], [-1, 0]], [[1, 1], [2, 0]], [[2, 1], [-1, 0]], [[-1, 1]], [[1, 2], [-1, 0]], [[1, 2], [-2, 0]], [[1, 3], [-2, 1]], [[1, 2]],
       [[-1, 2], [3, 1]], [[1, 2], [1, 0]], [[1, 3], [-1, 2]], [[1, 2], [-3, 1], [1, 0]]]
BI = [[[1, 1, 0]], [[1, 0, 1]], [[1, 1, 0], [-1, 0, 1]], [[1, 1, 0], [1, 0, 1], [-1, 0, 0]], [[1, 1, 1], [-1, 0, 0]], [[1, 2, 0], [1, 0, 2], [-2, 0, 0]],
      [[1, 2, 0], [-1, 0, 1]], [[1, 1, 0], [-1, 0, 2]], [[1, 1, 1]], [[2, 1, 0], [1, 0, 0]], [['1/2', 0, 1], [-1, 0, 0]], [[1, 2, 0], [-2, 0, 0]],
      [[1, 0, 2], [-1, 1, 0], [-1, 0, 0]]]


def name(t, names):
    """a polynomial as a term of the input language"""
    out = None
    for m in t:
        f = None
        c = F(m[0])
        num = '%d.0' % abs(c.numerator) if c.denominator == 1 else '(/ %d. %d.)' % (abs(c.numerator), c.denominator)
        if c < 0:
            num = '(- %s)' % num
        f = num
        for e, v in zip(m[1:], names):
            for _ in range(e):
                f = '(* %s %s)' % (f, v)
        out = f if out is None else '(+ %s %s)' % (out, f)
    return out or '0.0'


def rel(a, names):
    return '(%s %s %s)' % (a[1], name(a[0], names), name(a[2] if len(a) > 2 else [], names))


def sequent(ant, suc, names, label='s'):
    return '(sequent "%s" (antecedent %s) (succedent %s))' % (label, ' '.join(rel(a, names) for a in ant), ' '.join(rel(a, names) for a in suc))


def split(c, case, a):
    """True if the answer can be judged; the stand-in for Sage lacking something is not a finding about GRF"""
    if isinstance(a, dict) and 'shim' in a:
        c.inconclusive = getattr(c, 'inconclusive', 0) + 1
        c.missing = a['shim']
        return False
    if isinstance(a, dict):
        c.violation('no answer', case, None, a)
        return False
    return True


def notes(c):
    if getattr(c, 'inconclusive', 0):
        c.assumptions.append('%d cases gave no verdict: the stand-in for Sage has no %s' % (c.inconclusive, c.missing))
        print('note: %d cases without a verdict (stand-in for Sage: %s)' % (c.inconclusive, c.missing))
