"""C09-C12: parser, univariate collapse, sequent checker, example store."""
import sys, os, shutil, tempfile, pickle
REPO = os.environ['VERIF_REPO']
sys.path.insert(0, os.path.join(REPO, 'vts'))
import sympy
import grf_parser, examples_parser, checker, isym
sink = None
OPS = {}
def op(f):
    OPS[f.__name__] = f
    return f
BASE = os.getcwd()

CLS = {'<=': sympy.Le, '<': sympy.Lt, '=': sympy.Eq, '!=': sympy.Ne, '>=': sympy.Ge, '>': sympy.Gt}

def relname(r):
    for k in CLS:
        if r.__class__ == CLS[k]:
            return k
    return r.__class__.__name__

def truth(r):
    return 'T' if r == True else 'F' if r == False else None

def value(e, point):
    """exact value (rationals) or a decimal string (if a decimal literal is involved) at a point"""
    e = sympy.sympify(e)
    v = e.subs([(s, sympy.Rational(point.get(s.name, '1/97'))) for s in e.free_symbols])
    if isinstance(v, sympy.Rational):
        return '%d/%d' % (v.p, v.q)
    return 'f' + repr(float(v.evalf(17)))

def rel(r, points):
    t = truth(r)
    if t:
        return t
    return [relname(r), [value(r.lhs, p) for p in points], [value(r.rhs, p) for p in points],
            sorted(s.name for s in r.free_symbols)]

@op
def parse(text, points):
    out = []
    for res, start, end in grf_parser.cmd.scanString(text):
        out.append([res['str_name'], [rel(r, points) for r in res['antecedent']['fmls']],
                    [rel(r, points) for r in res['succedent']['fmls']]])
    return out

def mkpoly(terms, names=('x', 'y', 'z', 'w')):
    """[[coef, e0, e1, ...], ...]"""
    r = sympy.Integer(0)
    for t in terms:
        m = sympy.Rational(str(t[0]))
        for n, e in zip(names, t[1:]):
            m = m * sympy.Symbol(n) ** e
        r = r + m
    return r

def coeffs(e):
    e = sympy.sympify(e)
    syms = sorted(s.name for s in e.free_symbols)
    if len(syms) > 1:
        return ['several variables', syms]
    if e == 0:
        return [[], syms]
    v = sympy.Symbol(syms[0]) if syms else sympy.Symbol('x')
    return [[str(c) for c in reversed(sympy.Poly(e, v).all_coeffs())], syms]

def urel(r):
    t = truth(r)
    if t:
        return t
    return [relname(r), coeffs(r.lhs), str(r.rhs)]

@op
def univariate(rels, names):
    built = [CLS[k](mkpoly(a, names), mkpoly(b, names)) for k, a, b in rels]
    folded = [truth(r) for r in built]
    keep = [r for r, t in zip(built, folded) if not t]
    res = examples_parser.make_univariate(keep)
    it = iter(res)
    n = len(res)
    return [len(keep), n, [None if t else urel(next(it)) for t in folded] if n == len(keep) else [urel(r) for r in res]]

X = sympy.Symbol('x')
def upoly(cs):
    r = sympy.Integer(0)
    for i, c in enumerate(cs):
        r += sympy.Rational(str(c)) * X ** i
    return r

@op
def sequent(ante, succ, which):
    """valid according to the checker's own steps"""
    a = [CLS[k](upoly(p), 0) for k, p in ante]
    s = [CLS[k](upoly(p), 0) for k, p in succ]
    out = []
    clauses = checker.vts_preformat(a, s)
    maps = [checker.make_relation_map(f) for f in clauses]
    for w in which:
        f = isym.vts if w == 'vts' else isym.ts
        out.append(not any([f(m['le'], m['lt'], m['eq'], m['ne']) for m in maps]))
    return out

class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=BASE)
        w = os.path.join(self.d, 'vts')
        os.makedirs(w)
        os.chdir(w)
        return self.d
    def __exit__(self, *a):
        os.chdir(BASE)
        shutil.rmtree(self.d, ignore_errors=True)

@op
def checkrun(files, vts):
    """check_examples over a store of our own making; its output"""
    with scratch() as d:
        os.makedirs(os.path.join('Examples', 'Metitarski'))
        for name, exs in files:
            data = [([CLS[k](upoly(p), 0) for k, p in a], [CLS[k](upoly(p), 0) for k, p in s]) for a, s in exs]
            with open(os.path.join('Examples', 'Metitarski', name), 'wb') as f:
                pickle.dump(data, f)
        sink.keep = True
        sink.parts = []
        checker.check_examples(vts)
        sink.keep = False
        return sink.text()

@op
def store(steps):
    """['src', {name: text}] replaces the source directory, ['write'], ['read'] -> both readers' view"""
    out = []
    with scratch() as d:
        src = os.path.join(d, 'GRF', 'Examples', 'MetiTarski')
        os.makedirs(src)
        for st in steps:
            if st[0] == 'src':
                shutil.rmtree(src)
                os.makedirs(src)
                for n in st[1]:
                    f = open(os.path.join(src, n), 'w')
                    f.write(st[1][n])
                    f.close()
            elif st[0] == 'write':
                examples_parser.write_sympy_parseable_examples()
            else:
                def ex(content):
                    return [[[urel(r) for r in a], [urel(r) for r in s]] for a, s in content]
                one = examples_parser.unpickle_dirs()
                one = dict((k, dict((n, ex(one[k][n])) for n in one[k])) for k in one)
                two = [ex(c) for c in examples_parser.unpickle_dirs_gen()]
                out.append([one, two])
    return out
