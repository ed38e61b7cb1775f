"""C06 / C07: the sign matrices and their disk cache, on the real module, with a recording / failing / scheduling
layer under its file operations.  Every run happens in a scratch directory of this worker."""
import sys, os, errno, hashlib, shutil, threading, __builtin__, time, traceback
REPO = os.environ['VERIF_REPO']
VTS = os.path.join(REPO, 'vts')
sys.path.insert(0, VTS)
import pickle, sympy, sympy.physics.quantum, tempfile, StringIO, copy_reg
from fractions import Fraction as F

OPS = {}
def op(f):
    OPS[f.__name__] = f
    return f

BASE = os.getcwd()
SRC = os.path.join(VTS, 'matrix_of_signs.py')

_code = [None]
def fresh():
    """a new process, as far as the module can tell: nothing of an earlier execution of the repository's modules is left"""
    for name in list(sys.modules):
        m = sys.modules[name]
        f = getattr(m, '__file__', None) or ''
        if m is not None and f.startswith(VTS):
            del sys.modules[name]
    import imp
    if _code[0] is None:
        _code[0] = compile(real['open'](SRC).read() + '\n', SRC, 'exec')
    m = imp.new_module('matrix_of_signs')
    m.__file__ = SRC
    exec _code[0] in m.__dict__
    return m

# ---------------------------------------------------------------- exact expectations
M1 = [[1, 1, 1], [0, 1, -1], [0, 1, 1]]
I1 = [[F(1), F(0), F(-1)], [F(0), F(1, 2), F(1, 2)], [F(0), F(-1, 2), F(1, 2)]]

def kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]

_exp = {}
def expected(kind, n):
    if (kind, n) not in _exp:
        one = M1 if kind == 'g' else I1
        _exp[(kind, n)] = one if n == 1 else kron(expected(kind, n - 1), one)
    return _exp[(kind, n)]

def check(kind, n, m):
    want = expected(kind, n)
    if tuple(m.shape) != (len(want), len(want)):
        return 'shape %s' % (tuple(m.shape),)
    flat = list(m)
    k = 0
    for row in want:
        for w in row:
            v = flat[k]
            k += 1
            if isinstance(v, (int, long)):
                q = F(v)
            elif isinstance(v, sympy.Rational):
                q = F(int(v.p), int(v.q))
            else:
                return 'entry %s is a %s' % (v, type(v).__name__)
            if q != w:
                return 'entry %d is %s instead of %s' % (k - 1, q, w)
    return None

def request(m, r):
    """'g2': matrix for 2; 'i3': inverse for 3.  None if exact, else what is wrong"""
    kind, n = r[0], int(r[1:])
    got = m.get_matrix(n) if kind == 'g' else m.get_matrix_inverse(n)
    return check(kind, n, got)

# ---------------------------------------------------------------- directories as values
def newdir():
    d = tempfile.mkdtemp(dir=BASE)
    return d

def put(d, files):
    """files: {relative path: text (latin-1)}; directories end with /"""
    for p in sorted(files):
        full = os.path.join(d, p)
        if p.endswith('/'):
            if not os.path.isdir(full):
                os.makedirs(full)
            continue
        if not os.path.isdir(os.path.dirname(full)):
            os.makedirs(os.path.dirname(full))
        f = real['open'](full, 'wb')
        f.write(files[p].encode('latin-1'))
        f.close()

def get(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        rel = os.path.relpath(dp, d)
        if rel != '.':
            out[rel + '/'] = ''
        for n in fn:
            f = real['open'](os.path.join(dp, n), 'rb')
            out[os.path.normpath(os.path.join(rel, n))] = f.read().decode('latin-1')
            f.close()
    return out

real = {'open': open, 'file': file}
class cd(object):
    def __init__(self, d):
        self.d = d
    def __enter__(self):
        os.chdir(self.d)
    def __exit__(self, *a):
        os.chdir(BASE)
        shutil.rmtree(self.d, ignore_errors=True)

# ---------------------------------------------------------------- C06
@op
def session(files, reqs):
    """start a process in a directory holding `files`, make the requests; what was wrong, and the files afterwards"""
    d = newdir()
    put(d, files)
    out = []
    with cd(d):
        m = fresh()
        for r in reqs:
            if r == 'E':
                for p in list(get('.')):
                    if not p.endswith('/'):
                        os.remove(p)
                out.append(None)
                continue
            out.append(request(m, r))
        after = get('.')
    return [out, after]

class known_inverse(object):
    """sympy needs minutes to invert the 243 x 243 matrix.  sympy is trusted, so for a matrix that is exactly the
    expected one its inv() is replaced by the known inverse; any other matrix goes to the real inv()."""
    def __enter__(self):
        self.saved = []
        for cls in sympy.Matrix([[1]]).__class__.__mro__:
            if 'inv' in cls.__dict__:
                orig = cls.__dict__['inv']
                def inv(m, *a, **k):
                    n = {9: 2, 27: 3, 81: 4, 243: 5}.get(m.shape[0])
                    if n and check('g', n, m) is None:
                        size = len(expected('i', n))
                        flat = [sympy.Rational(x.numerator, x.denominator) for row in expected('i', n) for x in row]
                        return m.__class__(size, size, flat)
                    return orig(m, *a, **k)
                cls.inv = inv
                self.saved.append((cls, orig))
                break
    def __exit__(self, *a):
        for cls, orig in self.saved:
            cls.inv = orig

@op
def big_session(files, reqs):
    with known_inverse():
        return session(files, reqs)

@op
def refuses():
    d = newdir()
    out = {}
    with cd(d):
        m = fresh()
        for when in ('before', 'after'):
            for n in (0, -1, 6, 7, 100, '2', 2.5, None):
                for f in ('get_matrix', 'get_matrix_inverse'):
                    try:
                        getattr(m, f)(n)
                        out['%s(%r) %s' % (f, n, when)] = 'answered'
                    except Exception:
                        out['%s(%r) %s' % (f, n, when)] = 'refused'
            m.get_matrix(2), m.get_matrix_inverse(2)
    return out

# ---------------------------------------------------------------- recording, failing, scheduling file layer
class Layer(object):
    """replaces the file operations the module can reach.  hook(kind, path) is called before every operation."""
    EFFECT = ('rename', 'remove', 'unlink', 'makedirs', 'mkdir', 'rmdir', 'link', 'symlink', 'chmod', 'utime')
    PROBE = ('listdir', 'stat', 'lstat', 'access')
    PPROBE = ('isfile', 'exists', 'isdir', 'getsize', 'getmtime', 'lexists')

    def __init__(self, hook, torn=False):
        self.hook = hook
        self.torn = torn
        self.log = []
        self.depth = threading.local()

    def inside(self):
        return getattr(self.depth, 'n', 0) > 0

    def wrap(self, kind, f):
        def g(*a, **k):
            if self.inside():
                return f(*a, **k)
            self.hook(kind, a)
            self.depth.n = 1
            try:
                r = f(*a, **k)
            finally:
                self.depth.n = 0
            if kind in self.EFFECT:
                self.log.append((kind,) + tuple(os.path.normpath(str(x)) for x in a if isinstance(x, basestring)))
            return r
        return g

    def open(self, name, mode='r', *rest):
        if self.inside() or not isinstance(name, basestring) or os.path.isabs(name):
            return real['open'](name, mode, *rest)
        return File(self, name, mode)

    def os_open(self, name, flags, *rest):
        if self.inside() or os.path.isabs(name):
            return self.saved[('os', 'open')](name, flags, *rest)
        if not flags & (os.O_WRONLY | os.O_RDWR):
            return FD(File(self, name, 'rb'))
        if flags & os.O_EXCL and os.path.exists(name):
            raise OSError(errno.EEXIST, 'File exists: ' + name)
        return FD(File(self, name, 'wb' if flags & os.O_TRUNC or not os.path.exists(name) else 'r+b'))

    def __enter__(self):
        self.saved = {}
        def patch(owner, key, mod, name, val):
            self.saved[(key, name)] = getattr(mod, name)
            setattr(mod, name, val)
        self.mods = {'os': os, 'path': os.path, 'b': __builtin__}
        for n in self.EFFECT + self.PROBE:
            if hasattr(os, n):
                patch(self, 'os', os, n, self.wrap(n, getattr(os, n)))
        for n in self.PPROBE:
            if hasattr(os.path, n):
                patch(self, 'path', os.path, n, self.wrap(n, getattr(os.path, n)))
        patch(self, 'b', __builtin__, 'open', self.open)
        patch(self, 'b', __builtin__, 'file', self.open)
        patch(self, 'os', os, 'open', self.os_open)
        fdopen, write, close, fsync = os.fdopen, os.write, os.close, getattr(os, 'fsync', None)
        patch(self, 'os', os, 'fdopen', lambda fd, *a: fd.f if isinstance(fd, FD) else fdopen(fd, *a))
        patch(self, 'os', os, 'write', lambda fd, s: fd.f.write(s) if isinstance(fd, FD) else write(fd, s))
        patch(self, 'os', os, 'close', lambda fd: fd.f.close() if isinstance(fd, FD) else close(fd))
        if fsync:
            patch(self, 'os', os, 'fsync', lambda fd: fd.f.flush() if isinstance(fd, FD) else (fd.flush() if isinstance(fd, File) else fsync(fd)))
        return self

    def __exit__(self, *a):
        for (key, name), v in self.saved.items():
            setattr(self.mods[key], name, v)

class FD(object):
    def __init__(self, f):
        self.f = f

class File(object):
    """a file with a visible write buffer"""
    count = [0]
    def __init__(self, layer, name, mode):
        self.layer, self.name, self.mode = layer, name, mode
        self.writing = any(c in mode for c in 'wa+')
        layer.hook('open-w' if self.writing else 'open-r', (name,))
        layer.depth.n = 1
        try:
            # unbuffered underneath: what is flushed here is visible to everyone
            self.f = real['open'](name, mode, 0) if self.writing else real['open'](name, mode)
            self.mem = None
        finally:
            layer.depth.n = 0
        self.pending = []
        self.closed = False
        File.count[0] += 1
        self.id = File.count[0]
        if self.writing:
            layer.log.append(('open', os.path.normpath(name), self.id, 'w' in mode))

    def write(self, s):
        s = str(s)
        self.layer.hook('write', (self.name, s))
        self.layer.log.append(('write', self.id, s))
        self.pending.append(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def _raw(self, s):
        self.layer.depth.n = 1
        try:
            self.f.write(s)
            self.f.flush()
        finally:
            self.layer.depth.n = 0

    def flush(self):
        if self.pending:
            s = ''.join(self.pending)
            self.pending = []
            if self.layer.torn and len(s) > 1:
                self._raw(s[:len(s) // 2])
                self.layer.hook('half', (self.name,))
                self._raw(s[len(s) // 2:])
            else:
                self._raw(s)
            self.layer.log.append(('flush', self.id))

    def close(self):
        if self.closed:
            return
        if self.writing:
            self.layer.hook('close', (self.name,))
            self.flush()
        self.closed = True
        self.f.close()
        if self.writing:
            self.layer.log.append(('close', self.id))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        return FD(self)

    def _mem(self):
        # a reader gets the file at its first read, as with any buffer larger than the file
        if self.writing:
            self.flush()
            return self.f
        if self.mem is None:
            self.layer.hook('read', (self.name,))
            self.mem = StringIO.StringIO(self.f.read())
        return self.mem

    def read(self, *a):
        return self._mem().read(*a)

    def readline(self, *a):
        return self._mem().readline(*a)

    def readlines(self, *a):
        return self._mem().readlines(*a)

    def __iter__(self):
        return iter(self._mem())

    def seek(self, *a):
        return self._mem().seek(*a)

    def tell(self):
        return self._mem().tell()

def bring(m, reqs):
    return [request(m, r) for r in reqs]

@op
def record(files, reqs):
    """run a session on the recording layer: its file events (with the bytes written)"""
    d = newdir()
    put(d, files)
    with cd(d):
        L = Layer(lambda kind, a: None)
        with L:
            m = fresh()
            bad = bring(m, reqs)
        after = get('.')
    return [bad, [list(e) for e in L.log], after]

@op
def recover(files, reqs):
    """a new process in a directory left behind by a crash; then one more after it"""
    d = newdir()
    put(d, files)
    with cd(d):
        bad = bring(fresh(), reqs)
        bad += bring(fresh(), reqs)
    return bad

class Fault(object):
    pass

@op
def fail_at(files, k, reqs, err):
    """the k-th file operation fails with the given error; the same process may go on, a new one must work"""
    d = newdir()
    put(d, files)
    state = {'n': 0, 'hit': None}
    def hook(kind, a):
        if kind in Layer.PROBE or kind in Layer.PPROBE:
            return
        state['n'] += 1
        if state['n'] - 1 == k:
            state['hit'] = kind
            if kind in ('open-r', 'open-w', 'read', 'write', 'close', 'half'):
                raise IOError(getattr(errno, err), 'injected')
            raise OSError(getattr(errno, err), 'injected')
    with cd(d):
        first, again = 'no error', None
        L = Layer(hook)
        with L:
            m = None
            try:
                m = fresh()
                first = [b for b in bring(m, reqs) if b]
            except (IOError, OSError) as e:
                if 'injected' not in str(e):
                    first = 'EXC ' + traceback.format_exc()[-600:]
                else:
                    first = 'reported'
            if m is not None:
                try:
                    again = [b for b in bring(m, reqs) if b]
                except Exception as e:
                    again = 'EXC ' + traceback.format_exc()[-600:]
        later = bring(fresh(), reqs)
    return [state['hit'], first, again, [b for b in later if b], state['n']]

class Sched(object):
    """two logical processes; exactly one runs; `plan` says after how many of its own steps the running one is preempted"""
    def __init__(self, first, plan):
        self.cur = first
        self.plan = list(plan)
        self.cv = threading.Condition()
        self.steps = 0
        self.segments = []
        self.done = [False, False]
        self.trace = []
        self.me = threading.local()

    def point(self, kind, a):
        me = getattr(self.me, 'i', None)
        if me is None:
            return
        self.cv.acquire()
        try:
            if self.plan and self.steps == self.plan[0] and not self.done[1 - me]:
                self.plan.pop(0)
                self.segments.append(self.steps)
                self.steps = 0
                self.cur = 1 - me
                self.cv.notifyAll()
                while self.cur != me:
                    self.cv.wait()
            self.steps += 1
            if len(self.trace) < 400 and kind != 'write':
                self.trace.append('%d:%s %s' % (me, kind, a[0] if a else ''))
        finally:
            self.cv.release()

    def start(self, i):
        self.me.i = i
        self.cv.acquire()
        while self.cur != i:
            self.cv.wait()
        self.cv.release()

    def finish(self, i):
        self.cv.acquire()
        self.done[i] = True
        self.segments.append(self.steps)
        self.steps = 0
        self.cur = 1 - i
        self.cv.notifyAll()
        self.cv.release()

@op
def interleave(files, first, plan, reqs0, reqs1):
    """two processes share the directory; a scheduling point before every file operation except buffered writes"""
    d = newdir()
    put(d, files)
    S = Sched(first, plan)
    res = [None, None]
    if _code[0] is None:
        with cd(newdir()):
            fresh()
    pids = {}
    real_getpid = os.getpid
    def run(i, reqs):
        S.start(i)
        try:
            m = fresh()
            res[i] = [b for b in bring(m, reqs) if b]
        except:
            res[i] = 'EXC ' + traceback.format_exc()[-700:]
        finally:
            S.finish(i)
    def hook(kind, a):
        if kind != 'write':
            S.point(kind, a)
    with cd(d):
        L = Layer(hook, torn=True)
        with L:
            os.getpid = lambda: 100000 + getattr(S.me, 'i', 7)
            try:
                ts = [threading.Thread(target=run, args=(i, r)) for i, r in ((0, reqs0), (1, reqs1))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            finally:
                os.getpid = real_getpid
        later = [b for b in bring(fresh(), ['g2', 'i2']) if b]
    return [res, later, S.segments, S.trace[:200]]
