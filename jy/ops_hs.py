import sys, os
REPO = os.environ['VERIF_REPO']
sys.path.insert(0, os.path.join(os.environ['VERIF_JY'], 'shim'))
sys.path.insert(0, os.path.join(REPO, 'highschool_qe'))
import sympy
import fastalg
import muchnik, cohenhorm, sympywrapper, cachedsympywrapper

OPS = {}
def op(f):
    OPS[f.__name__] = f
    return f

x, y, z = sympy.Symbol('x'), sympy.Symbol('y'), sympy.Symbol('z')
ALG = {'fast': lambda v: fastalg.FastAlgebra(), 'plain': sympywrapper.SympyWrapper, 'cached': cachedsympywrapper.CachedSympyWrapper}

def expr(p):
    """[[i, j, k, c], ...] = sum of c x^i y^j z^k, expanded"""
    r = sympy.Integer(0)
    for i, j, k, c in p:
        r = r + sympy.Integer(c) * x**i * y**j * z**k
    return r

def fast(p):
    r = fastalg.Poly({})
    for i, j, k, c in p:
        r = r + fastalg.mono(i, j, k, c)
    return r

def terms(e):
    if isinstance(e, fastalg.Poly):
        if any(m[0] for m in e.t):
            raise ValueError('eliminated variable in the answer: %s' % e)
        return [[m[1], m[2], c] for m, c in sorted(e.t.items())]
    e = sympy.sympify(e)
    if e.has(x):
        raise ValueError('eliminated variable in the answer: %s' % e)
    return [[int(m[0]), int(m[1]), int(c)] for m, c in sympy.Poly(e, y, z).terms()]

def dnf(ret):
    return [[[terms(p) for p in part] for part in conj] for conj in ret]

def run(make, args, alg):
    sink.keep = True
    conv = fast if alg == 'fast' else expr
    ret = make(ALG[alg](x))(*[[conv(p) for p in a] for a in args])
    t = sink.text()
    sink.keep = False
    lines = [l.strip() for l in t.splitlines()]
    sat = [l for l in lines if l in ('Satisfiable', 'Unsatisfiabl', 'Unsatisfiable')]
    return [dnf(ret), sat[-1] if sat else None]

@op
def ch(le, eq, ge, alg='fast'):
    return run(lambda a: cohenhorm.CohenHormander(a).real_full, (le, eq, ge), alg)

@op
def mr(le, eq, ge, alg='fast'):
    return run(lambda a: muchnik.Muchniker(a).real_full, (le, eq, ge), alg)

@op
def mc(eq, ne, alg='fast'):
    return run(lambda a: muchnik.Muchniker(a).complex_full, (eq, ne), alg)

def anyterms(e):
    """any polynomial as sorted terms [i, j, k, c]; c is an int or 'p/q'"""
    if isinstance(e, fastalg.Poly):
        return sorted([list(m) + [int(c)] for m, c in e.t.items()])
    e = sympy.sympify(e)
    if e == 0:
        return []
    num = lambda c: int(c) if c == int(c) else str(c)
    return sorted([[int(a) for a in m] + [num(c)] for m, c in sympy.Poly(e, x, y, z).terms()])

def result(r):
    if r is None:
        return 'None'
    if isinstance(r, bool):
        return ['bool', r]
    if isinstance(r, (tuple, list)):
        return [result(v) for v in r]
    if r == sympy.oo or r == -sympy.oo:
        return ['inf', str(r).replace('float', '')]
    if isinstance(r, float):
        return ['inf', '-oo' if r < 0 else 'oo'] if r in (float('inf'), float('-inf')) else ['float', r]
    return ['poly', anyterms(r)]

SHAPES = {'expanded': lambda e: e, 'factored': sympy.factor}

def call(algebra, name, args):
    try:
        return result(getattr(algebra, name)(*args))
    except Exception as e:
        return ['raises', type(e).__name__]

VARS = {'x': x, 'y': y}

_arg = {}
def arg(p):
    """terms, or ['f', terms] for the factored form"""
    k = str(p)
    if k not in _arg:
        _arg[k] = sympy.factor(expr(p[1])) if p and p[0] == 'f' else expr(p)
    return _arg[k]

@op
def plainops(calls):
    """each call on a fresh plain algebra: [[variable, name, args]] -> results"""
    return [call(sympywrapper.SympyWrapper(VARS[v]), n, [arg(p) for p in a]) for v, n, a in calls]

@op
def fastops(calls):
    alg = fastalg.FastAlgebra()
    return [call(alg, n, [fast(p) for p in a]) for v, n, a in calls]

@op
def histories(calls, lists):
    """calls: distinct calls; lists: histories as indexes.  One caching algebra per variable and history.
    Returns the histories whose last answer differs from the plain algebra's, and the number of steps."""
    want = plainops(calls)
    bad, steps = [], 0
    for h in lists:
        algs = {}
        for v in VARS:
            algs[v] = cachedsympywrapper.CachedSympyWrapper(VARS[v])
        got = None
        for i in h:
            v, n, a = calls[i]
            got = call(algs[v], n, [arg(p) for p in a])
            steps += 1
            if got != want[i]:
                break
        if got != want[i]:
            bad.append([h, want[i], got])
            if len(bad) > 5:
                break
    return [bad, steps]

@op
def timed(name, *a):
    import time
    t = time.time()
    r = OPS[name](*a)
    return [time.time() - t, r]
