import sys, os
REPO = os.environ['VERIF_REPO']
sys.path.insert(0, os.path.join(REPO, 'vts'))
import sympy, z3rcf
import uni_vts, isym

OPS = {}
def op(f):
    OPS[f.__name__] = f
    return f

_eps = []
def eps(i):
    while len(_eps) <= i:
        _eps.append(z3rcf.MkInfinitesimal('e%d' % len(_eps)))
    return _eps[i]

def coef(c):
    """int; float; {"e": [[c, i, j], ...]} = sum of c * eps0**i * eps1**j"""
    if isinstance(c, dict):
        r = 0
        for a, i, j in c['e']:
            t = a
            for _ in range(i):
                t = t * eps(0)
            for _ in range(j):
                t = t * eps(1)
            r = r + t
        return r
    if isinstance(c, long) and -2**31 <= c < 2**31:
        return int(c)
    return c

def poly(p):
    return [coef(c) for c in p]

def polys(ps):
    return [poly(p) for p in ps]

def num(v):
    v = sympy.Rational(v) if not isinstance(v, (int, long)) else v
    if v != int(v):
        raise ValueError('not an integer: %s' % v)
    return int(v)

@op
def vts(le, lt, eq, ne):
    return bool(uni_vts.internal_vts(polys(le), polys(lt), polys(eq), polys(ne)))

@op
def ts(le, lt, eq, ne):
    return bool(uni_vts.internal_ts(polys(le), polys(lt), polys(eq), polys(ne)))

X = sympy.Symbol('x')
def expr(p, var=X):
    """coefficients as ints or 'n/d' strings, or ['*', e1, e2, ...], ['+', ...], ['^', e, n], ['-', a, b]"""
    if p and p[0] == '*':
        r = sympy.Integer(1)
        for q in p[1:]:
            r = r * expr(q, var)
        return r
    if p and p[0] == '+':
        r = sympy.Integer(0)
        for q in p[1:]:
            r = r + expr(q, var)
        return r
    if p and p[0] == '-':
        return expr(p[1], var) - expr(p[2], var)
    if p and p[0] == '^':
        return expr(p[1], var) ** p[2]
    r = sympy.Integer(0)
    for i, c in enumerate(p):
        r += sympy.Rational(str(c)) * var ** i
    return r

@op
def ivts(le, lt, eq, ne):
    return bool(isym.vts(*[[expr(p) for p in ps] for ps in (le, lt, eq, ne)]))

@op
def its(le, lt, eq, ne):
    return bool(isym.ts(*[[expr(p) for p in ps] for ps in (le, lt, eq, ne)]))

@op
def taq(p, qs):
    return [num(uni_vts.tarski_query(list(p), list(q))) for q in qs]

@op
def cauchy(p, qs):
    return [num(uni_vts.signed_remainder_cauchy_index(list(p), list(q))) for q in qs]

@op
def rem(p, qs):
    return [[num(c) for c in uni_vts.signed_pseudo_remainder(list(p), list(q))] for q in qs]

@op
def srs(p, qs):
    return [[[num(c) for c in r] for r in uni_vts.signed_remainder_sequence(list(p), list(q))] for q in qs]

@op
def mul(p, qs):
    return [[num(c) for c in uni_vts.multiply(list(p), list(q))] for q in qs]

@op
def deriv(ps):
    return [[num(c) for c in uni_vts.derivative(list(p))] for p in ps]

@op
def prods(ps):
    return [[num(c) for c in q] for q in uni_vts.make_product_list([list(p) for p in ps])]

@op
def lookup(le, lt, eq, ne):
    d = uni_vts.sign_conditions_lookup(le, lt, eq, ne)
    return [sorted(d[uni_vts.make_poly_hashabel(p)]) for p in le + lt + eq + ne]

@op
def encode(p, goals, near):
    """encodings of all roots of p in increasing order of the roots, and for each root the signs of the goals
    at it and just right of it"""
    p = poly(p)
    rs = z3rcf.MkRoots(p)
    dds = uni_vts.get_discri_der_signs(rs, p)
    for d in dds:
        d.set_origin_poly(p)
    dds = sorted(dds, key=lambda d: d.point)
    out = []
    for d in dds:
        enc = [[[num(c) for c in q], d.get_sign(q)] for q in d.get_all_polies()]
        groups = [[[num(c) for c in q] for q in g] for g in (d.neg_polies, d.zer_polies, d.pos_polies)]
        at = [num(uni_vts.evaluate_single_on_sign_assignment(d, poly(g))) for g in goals]
        nr = [num(uni_vts.e_close_evaluate_single_on_sign_assignment(d, poly(g))) for g in near]
        out.append([enc, groups, at, nr])
    return out

@op
def convert(es):
    out = []
    for e in es:
        ex = expr(e)
        try:
            r = isym.convert(ex)
            out.append([str(c) + ('' if isinstance(c, (int, long)) else ' ' + type(c).__name__) for c in r])
        except Exception as x:
            out.append({'exc': str(x)[:200]})
    return out

@op
def warm(n):
    import matrix_of_signs
    for i in range(1, n + 1):
        matrix_of_signs.get_matrix(i)
        matrix_of_signs.get_matrix_inverse(i)
    return True

@op
def convert_back(ls):
    """coefficients of the symbolic result, read back with sympy's own Poly"""
    out = []
    for l in ls:
        r = sympy.sympify(isym.convert_back([coef(c) for c in l]))
        if r == 0:
            out.append([])
            continue
        syms = r.free_symbols
        if len(syms) > 1:
            out.append({'exc': 'several variables'})
            continue
        v = list(syms)[0] if syms else X
        out.append([str(c) for c in reversed(sympy.Poly(r, v).all_coeffs())])
    return out

@op
def convert_var(name, cs):
    return [str(c) for c in isym.convert(expr(cs, sympy.Symbol(name)))]

@op
def refuse():
    x, y = sympy.Symbol('x'), sympy.Symbol('y')
    bad = {'two variables': x * y + 1, 'sum of two variables': x + y, 'sqrt(2)*x': sympy.sqrt(2) * x, 'x + sqrt(2)': x + sympy.sqrt(2),
           'pi': sympy.pi, '1/x': 1 / x, 'x + 1/x': x + 1 / x, '1/(x+1)': 1 / (x + 1), '(x**2+1)/x': (x**2 + 1) / x}
    out = {}
    for k in bad:
        try:
            out[k] = str(isym.convert(bad[k]))
        except Exception:
            out[k] = 'refused'
    return out
