"""Runs cases on the real code in parallel Jython workers, collects evidence, writes replays."""
import json, os, queue, shutil, subprocess, sys, tempfile, threading, time, select

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JYTHON = '/opt/py2/bin/jython'
PYLIB = '/opt/py2/lib'
SILENCE = 200.0        # seconds without an answer to one case before it counts as not answering
DEADLINE = None        # when to stop exploring (quick tier): what was found is reported, without a find there is no verdict
STATE = {"noanswer": [], "late": False, "gap": 0.0}
CHECKS = []


def stopping():
    if DEADLINE is not None and time.time() > DEADLINE:
        STATE["late"] = True
    return STATE["late"]


class Worker:
    def __init__(self, suite, scratch, env=None):
        self.cwd = tempfile.mkdtemp(prefix='w', dir=scratch)
        self.err = open(os.path.join(self.cwd, 'stderr.txt'), 'wb')
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JYTHONPATH=PYLIB, VERIF_REPO=REPO,
                 VERIF_JY=os.path.join(VERIF, 'jy'), LANG='C.UTF-8', HOME=self.cwd)
        e.pop('CLASSPATH', None)
        e['JDK_JAVA_OPTIONS'] = '-XX:+UseSerialGC -Xmx2500m -XX:CICompilerCount=2'
        e.update(env or {})
        run = os.path.join(self.cwd, 'run', 'vts')
        os.makedirs(run)
        self.rundir = run
        self.p = subprocess.Popen([JYTHON, os.path.join(VERIF, 'jy', 'worker.py'), suite],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=run, env=e)
        self.buf = b''
        # handshake: a worker that cannot even start is an error of the harness, not an answer
        try:
            self.ask(None, 600)
        except (TimeoutError, EOFError) as x:
            self.stop()
            raise RuntimeError('worker did not start: ' + open(self.err.name).read()[-2000:]) from x

    def ask(self, cases, timeout):
        """one batch; raises TimeoutError / EOFError"""
        if cases is None:
            cases = [None]
        else:
            self.p.stdin.write((json.dumps(cases) + '\n').encode())
            self.p.stdin.flush()
        out = []
        last = time.time()
        while len(out) < len(cases):
            r, _, _ = select.select([self.p.stdout], [], [], 5.0)
            if r:
                b = os.read(self.p.stdout.fileno(), 1 << 16)
                if not b:
                    raise EOFError(len(out), out)
                self.buf += b
                while b'\n' in self.buf:
                    line, self.buf = self.buf.split(b'\n', 1)
                    if line.startswith(b'@@'):
                        out.append(json.loads(line[2:].decode()))
                        STATE["gap"] = max(STATE["gap"], time.time() - last)
                        last = time.time()
            elif cases != [None] and stopping():
                raise TimeoutError(len(out), out)
            elif time.time() - last > timeout:
                raise TimeoutError(len(out), out)
        return out

    def stop(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.err.close()


class NoAnswer(dict):
    pass


class Pool:
    """answers(cases): the answer to every case, in order.  An answer is whatever the operation returned, as JSON;
    {"exc": ...} if the real code raised; {"noanswer": ...} if the process died or stayed silent."""

    def __init__(self, suite, n=8, env=None, batch=40, silence=None, warm=None, go_on=False):
        """go_on: also after a case that was twice not answered"""
        silence = silence or SILENCE
        self.go_on, self.stopped = go_on, False
        self.suite, self.n, self.env, self.batch, self.silence = suite, n, env, batch, silence
        self.warm = warm or []
        base = os.environ.get('VERIF_SCRATCH') or None
        self.scratch = tempfile.mkdtemp(prefix='verif_', dir=base)
        self.template = None
        self.idle = []
        self.lock = threading.Lock()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for w in self.idle:
            w.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def _get(self):
        with self.lock:
            if self.idle:
                return self.idle.pop()
        w = Worker(self.suite, self.scratch, self.env)
        if self.warm:
            w.ask(self.warm, self.silence * 3)
        return w

    def answers(self, cases, n=None, batch=None):
        n = n or self.n
        batch = batch or self.batch
        if len(cases) < n * batch:
            batch = max(1, (len(cases) + n - 1) // n)
            batch = min(batch, self.batch)
        res = [None] * len(cases)
        q = queue.Queue()
        for i in range(0, len(cases), batch):
            q.put((i, min(len(cases), i + batch)))
        fail = []

        def loop():
            w = None
            try:
                while True:
                    try:
                        i, j = q.get_nowait()
                    except queue.Empty:
                        break
                    while i < j:
                        if self.stopped or stopping():
                            res[i:j] = [{"skipped": True} for _ in range(i, j)]
                            break
                        if w is None:
                            w = self._get()
                        try:
                            out = w.ask(cases[i:j], self.silence)
                            res[i:j] = out
                            i = j
                        except (TimeoutError, EOFError, BrokenPipeError) as e:
                            done, out = e.args if len(e.args) == 2 and isinstance(e.args[0], int) else (0, [])
                            res[i:i + done] = out
                            i += done
                            w.stop()
                            w = None
                            if self.stopped or stopping():
                                continue
                            # the case at fault once more, alone, in a fresh process
                            try:
                                w = self._get()
                                res[i] = w.ask([cases[i]], self.silence)[0]
                            except (TimeoutError, EOFError, BrokenPipeError) as e2:
                                if isinstance(e2, TimeoutError) and stopping():
                                    res[i] = {"skipped": True}
                                else:
                                    res[i] = {"noanswer": type(e2).__name__}
                                    STATE["noanswer"].append(cases[i])
                                    if not self.go_on:
                                        self.stopped = True
                                if w is not None:
                                    w.stop()
                                w = None
                            i += 1
                if w is not None:
                    with self.lock:
                        self.idle.append(w)
                    w = None
            except BaseException as e:       # harness failure: propagate
                fail.append(e)
                if w is not None:
                    w.stop()

        ts = [threading.Thread(target=loop) for _ in range(min(n, max(1, q.qsize())))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if fail:
            raise fail[0]
        return res


class Check:
    """bookkeeping of one run of one property's check"""

    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.cov = {}
        self.violations = []
        self.samples = []
        self.assumptions = []
        self.known = []
        self.known_seen = []
        CHECKS.append(self)
        kf = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
        if os.path.exists(kf):
            for e in json.load(open(kf)).get('findings', []):
                if e['property'] == pid:
                    self.known.append(e)

    def violation(self, what, case, expected=None, got=None, extra=None):
        if isinstance(got, dict) and got.get('skipped'):
            return
        for k in self.known:
            if k['case'] == case:
                if k not in self.known_seen:
                    self.known_seen.append(k)
                return
        self.violations.append({"what": what, "case": case, "expected": expected, "got": got, "extra": extra})

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        self.cov['samples'] = self.samples
        d = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
             "violations": len(self.violations)}
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(d, f, indent=1, default=str)
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k['what']))
        print("%s tier=%s wall=%.1fs %s" % (self.pid, self.tier, time.time() - self.t0,
              {k: v for k, v in self.cov.items() if isinstance(v, int)}), 'longest answer %.0fs' % STATE["gap"])
        if self.violations:
            path = os.path.join(ev, 'replay', '%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump({"property": self.pid, "violations": self.violations[:50], "total": len(self.violations)},
                          f, indent=1, default=str)
            for v in self.violations[:3]:
                print("  %s\n    case %s\n    expected %s\n    got %s" % (v['what'], json.dumps(v['case'], default=str)[:600], str(v['expected'])[:300], str(v['got'])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if STATE["late"] or STATE["noanswer"]:
            print("not everything was explored before the time limit: no verdict")
            return 2
        return 0
