# Jython 2.7.  GRF (grf.sage, local_search.py, smt2.py), loaded as GRF/README.txt says, on a stand-in for Sage.
import os, sys, traceback
from fractions import Fraction
import sageshim as S
ns = S.load(os.environ['VERIF_REPO'])
ENV = S.ENV
sink = None


def env(e):
    e = e or {}
    ENV.reset(draws=e.get('draws', ['1/2']), moves=e.get('moves', ['stay']), tie=e.get('tie', 'first'),
              width=e.get('width', '1/4'), script=e.get('script', []))


def poly(R, t):
    x = R.gens()
    r = R(0)
    for m in t:
        p = R(Fraction(m[0]))
        for i, e in enumerate(m[1:]):
            for _ in range(e):
                p = p * x[i]
        r = r + p
    return r


def ring(n):
    return ns['QE_Factory'](n).R


def atom(R, a):
    return ns['RCF_Atom'](poly(R, a[0]), a[1], poly(R, a[2] if len(a) > 2 else []))


def dicts(R, pts):
    """a point: list with one entry per variable, None = not given"""
    x = R.gens()
    out = []
    for p in pts:
        d = dict((x[i], S.Rational(Fraction(v))) for i, v in enumerate(p) if v is not None)
        out.append(d)
    return out


def tv(b):
    return None if b is None else bool(b)


def out_point(d, n):
    r = [None] * n
    for k, v in d.items():
        r[int(str(k)[1:])] = str(S.num(v))
    return r


def op_atom(n, a, pts):
    R = ring(n)
    ds = dicts(R, pts)
    x = atom(R, a)
    before = [tv(x.eval_on_dict(d)) for d in ds]
    x.negate()
    neg = [tv(x.eval_on_dict(d)) for d in ds]
    x.negate()
    again = [tv(x.eval_on_dict(d)) for d in ds]
    return [before, neg, again, str(x)]


def op_badop(op):
    R = ring(2)
    try:
        ns['RCF_Atom'](R.gens()[0], op, R(0))
    except S.ShimMissing:
        raise
    except Exception:
        return 'refused'
    return 'accepted'


def op_ring(n, m, a, pts):
    """an atom made in a smaller ring, used in a bigger one"""
    R = ring(m)
    x = atom(ring(n), a)
    x.update_ring(R)
    y = atom(ring(n), a)
    ds = dicts(R, pts)
    return [[tv(x.eval_on_dict(d)) for d in ds], [tv(y.eval_on_dict(d)) for d in ds]]


def op_goal(n, main, promos, gbs, pts):
    """truth of the goal after each promotion"""
    R = ring(n)
    ds = dicts(R, pts)
    g = ns['RCF_Goal'](main_goal=atom(R, main))
    out = [[tv(g.eval_on_dict(d)) for d in ds]]
    for p in promos:
        g.add_goal_hyp(atom(R, p), use_gbs=gbs)
        out.append([tv(g.eval_on_dict(d)) for d in ds])
    return out


def op_cad(n, polys, goal, amb, e, num_sps=1):
    env(e)
    q = ns['QE_Factory'](n)
    q.install_polys(*[poly(q.R, p) for p in polys])
    g = None
    if goal is not None:
        g = ns['RCF_Goal'](main_goal=atom(q.R, goal))
    sp = q.sample_pt_dicts(goal=g, num_sps=num_sps, ambient_hyps=[atom(q.R, a) for a in amb])
    return [out_point(d, n) for d in sp]


def problem(n, hyps, goal, promoted=()):
    d = ns['RCF_GD_Decide'](n)
    R = d.q.R
    hs = [atom(R, h) for h in hyps]
    if hs:
        d.assert_hyps(*hs)
    d.assert_goal(atom(R, goal))
    for i in promoted:
        d.promote_right(i)
    return d, R


def op_bads(n, hyps, goal, promoted, pt, e):
    env(e)
    d, R = problem(n, hyps, goal, promoted)
    seen = []
    real = d.sample_points

    def watch(*a, **k):
        r = real(*a, **k)
        seen.extend(r)
        return r
    d.sample_points = watch
    try:
        b = d.bad_subsets_on_dict(dicts(R, [pt])[0])
    except S.ShimMissing:
        raise
    except Exception as x:
        if 'ounterexample' not in str(x):
            raise
        return ['counterexample', str(x), [out_point(p, n) for p in seen]]
    pts = []
    for p in seen:
        q = out_point(p, n)
        if q not in pts:
            pts.append(q)
    return ['bads', None if b is None else [sorted(int(i) for i in s) for s in b], pts, len(d.hyps)]


def op_good(n, hyps, goal, bads, e, promoted=()):
    env(e)
    d, R = problem(n, hyps, goal, promoted)
    w = [str(S.num(v)) for v in d.weight_hyps()]
    return [sorted(int(i) for i in d.good_hyps(bads)), w]


def terms(p, names):
    """[[coef, {name: power}]]"""
    r = []
    for m, c in p.t.items():
        r.append([str(S.Rational(c)), sorted([names.get(v, v), e] for v, e in zip(p.ring.names, m) if e)])
    return sorted(r)


def op_parse(text):
    """relations read, without running GRF"""
    env(None)
    P = ns['ParseSMT'](interactive=False)
    l = P.fmlsTokenList(text)
    names = dict((str(v), k) for k, v in P.context.var_map.items())
    return [[a.op, terms(a.poly, names)] for a in l], sorted(P.context.var_map)


def op_run(text, e, interactive=False, want=None):
    """sequents one after another in one session"""
    out = []
    for t in text:
        env(e)
        ENV.script = list((e or {}).get('script', []))
        P = ns['ParseSMT'](interactive=interactive, k=3)
        try:
            c = P.processCommands(t)
        except S.ShimMissing:
            raise
        except Exception as x:
            out.append(['exc', type(x).__name__ + ': ' + str(x)[:400], sorted((k, str(v)) for k, v in P.context.var_map.items())])
            continue
        names = dict((str(v), k) for k, v in c.var_map.items())
        h = c.hiding_result
        out.append(['ok', None if h is None else [[int(i) for i in h['hide_antecedent']], [int(i) for i in h['hide_succedent']]],
                    c.sequent_str])
    return out


def op_file(text, e):
    env(e)
    f = open('in.smt', 'w')
    f.write(text)
    f.close()
    if os.path.exists('out.txt'):
        os.remove('out.txt')
    r = ns['grf_on_file']('in.smt', interactive=False, outfile='out.txt')
    f = open('out.txt')
    s = f.read()
    f.close()
    return [[int(i) for i in r], s]


OPS = dict((k[3:], v) for k, v in globals().items() if k.startswith('op_'))


def guard(f):
    def g(*a):
        try:
            return f(*a)
        except S.ShimMissing as x:
            return {'shim': str(x)}
    return g


for _k in list(OPS):
    OPS[_k] = guard(OPS[_k])
