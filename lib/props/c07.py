"""C07: every crash state of a cache-filling history, every single I/O failure, every interleaving of two processes'
file operations up to a preemption bound; the real module recovers from each."""
import posixpath
from ..driver import Check, Pool


def crash_states(files, log):
    """all directory contents a kill can leave behind: after every event, and for data still in a buffer every prefix
    of it.  Returns {key: files} (deduplicated) or None if the log does not describe the run."""
    paths = dict(files)                     # path -> str, or inode object
    inode = {}
    states = {}

    class Ino:
        __slots__ = ('flushed', 'buf')

        def __init__(self):
            self.flushed, self.buf = '', ''

    def snap():
        def emit(over=None, n=0):
            d = {}
            for p, v in paths.items():
                if isinstance(v, Ino):
                    d[p] = v.flushed + (v.buf[:n] if v is over else '')
                else:
                    d[p] = v
            states.setdefault(tuple(sorted(d.items())), d)
        emit()
        for i in list(inode.values()):
            for n in range(1, len(i.buf) + 1):
                emit(i, n)
    snap()
    for e in log:
        k = e[0]
        if k in ('makedirs', 'mkdir'):
            p = e[1]
            while p and p != '.':
                paths[p + '/'] = ''
                p = posixpath.dirname(p)
        elif k == 'open':
            i = Ino()
            if not e[3]:
                v = paths.get(e[1], '')
                i.flushed = v.flushed if isinstance(v, Ino) else v
            paths[e[1]] = i
            inode[e[2]] = i
        elif k == 'write':
            if e[1] not in inode:
                return None
            inode[e[1]].buf += e[2]
            continue                        # the states with this data are emitted at the next other event
        elif k in ('flush', 'close'):
            if e[1] not in inode:
                return None
            snap()
            i = inode[e[1]]
            i.flushed += i.buf
            i.buf = ''
            if k == 'close':
                del inode[e[1]]
        elif k == 'rename':
            if e[1] not in paths:
                return None
            snap()
            paths[e[2]] = paths.pop(e[1])
        elif k in ('remove', 'unlink'):
            if e[1] not in paths:
                return None
            snap()
            del paths[e[1]]
        elif k in ('link',):
            paths[e[2]] = paths[e[1]]
        snap()
    return states, {p: (v.flushed if isinstance(v, Ino) else v) for p, v in paths.items()}


def show(files):
    return sorted('%s (%d bytes)' % (k, len(v)) for k, v in files.items())


def run(tier):
    c = Check('C07', tier, 'model_checking')
    reqs = ['g2', 'i2']
    nstates = nfault = nsched = nruns = 0
    with Pool('cache', batch=8) as pool:
        # 1. crash points: an empty directory, and a directory in which one file is already there
        hist = [({}, reqs)]
        if tier != 'quick':
            hist.append(({}, ['g2', 'i3']))
        base = pool.answers([['record', {}, reqs]])[0]
        if not isinstance(base, list) or any(base[0]):
            c.violation('history without faults', ['record', {}, reqs], 'exact matrices', base)
            return c.finish()
        for p in sorted(base[2]):
            if not p.endswith('/') and tier != 'quick':
                g = dict(base[2])
                del g[p]
                hist.append((g, reqs))
        modelled = []
        for files, rq in hist:
            a = pool.answers([['record', files, rq]])[0]
            if not isinstance(a, list):
                c.violation('history without faults', ['record', files, rq], 'exact matrices', a)
                continue
            st = crash_states(files, a[1])
            if st is None or st[1] != a[2]:
                modelled.append(False)      # the file operations were not all seen: no crash states rather than wrong ones
                continue
            modelled.append(True)
            states = list(st[0].values())
            nstates += len(states)
            cases = [['recover', s, reqs] for s in states]
            ans = pool.answers(cases)
            for case, r in zip(cases, ans):
                nruns += 2
                if not isinstance(r, list) or any(r):
                    c.violation('a process started after a crash that left %s' % show(case[1]), case, 'exact matrices', r)
            c.sample({"history": [e[0] + (' ' + str(e[1]) if e[0] != 'write' else ' %d bytes' % len(e[2])) for e in a[1] if e[0] != 'write'],
                      "crash_states": len(states), "a_state": show(states[len(states) // 2])})
        # 2. single I/O failures
        n = None
        first = pool.answers([['fail_at', {}, 10 ** 9, reqs, 'ENOSPC']])[0]
        if not isinstance(first, list):
            c.violation('session on the failing layer', ['fail_at', {}, 10 ** 9, reqs, 'ENOSPC'], None, first)
            return c.finish()
        n = first[4]
        warm = base[2]
        nw = pool.answers([['fail_at', warm, 10 ** 9, reqs, 'EIO']])[0]
        cases = [['fail_at', {}, k, reqs, 'ENOSPC'] for k in range(n)]
        if isinstance(nw, list):
            cases += [['fail_at', warm, k, reqs, 'EIO'] for k in range(nw[4])]
        ans = pool.answers(cases)
        hits = {}
        for case, r in zip(cases, ans):
            nfault += 1
            nruns += 2
            if not isinstance(r, list):
                c.violation('after an I/O failure', case, None, r)
                continue
            hits[r[0]] = hits.get(r[0], 0) + 1
            if r[3]:
                c.violation('a new process after a failed %s' % r[0], case, 'exact matrices', r[3])
            if isinstance(r[1], list) and r[1]:
                c.violation('wrong matrix in the process whose %s failed' % r[0], case, 'exact matrices', r[1])
            if isinstance(r[2], list) and r[2]:
                c.violation('wrong matrix later in the process whose %s failed' % r[0], case, 'exact matrices', r[2])
        # 3. interleavings of two processes, bounded preemptions
        bound = 2 if tier == 'quick' else 3
        starts = [({}, ['g2', 'i2'], ['i2'])]
        if tier != 'quick':
            starts += [({}, ['i2'], ['i2']), ({p: v for p, v in warm.items() if 'inverse_2' not in p}, ['i2'], ['i2'])]
        traces = set()
        for files, r0, r1 in starts:
            frontier = [(f, []) for f in (0, 1)]
            for depth in range(bound + 1):
                cases = [['interleave', files, f, plan, r0, r1] for f, plan in frontier]
                ans = pool.answers(cases)
                nxt = []
                for (f, plan), case, r in zip(frontier, cases, ans):
                    nsched += 1
                    nruns += 3
                    if not isinstance(r, list):
                        c.violation('two processes', case, None, r)
                        continue
                    traces.add(tuple(r[3]))
                    for i in (0, 1):
                        if r[0][i]:
                            c.violation('process %d of two sharing a cache' % i, case, 'exact matrices', r[0][i], r[3])
                    if r[1]:
                        c.violation('a process started after both', case, 'exact matrices', r[1], r[3])
                    if depth < bound and len(r[2]) > len(plan):
                        for k in range(0 if not plan and f == 0 else 1, r[2][len(plan)]):
                            if k > 0 or plan == []:
                                nxt.append((f, plan + [k]))
                frontier = nxt
        c.sample({"schedule": list(traces)[len(traces) // 2][:60] if traces else None}, 10)
    c.cov.update(states=nstates + nfault, transitions=nruns, traces_validated_against_impl=nstates + nfault + nsched, exhaustive=True,
                 crash_states=nstates, io_failures=nfault, failed_operations=hits, schedules=nsched, distinct_schedules=len(traces),
                 preemption_bound=bound, histories_modelled=modelled)
    c.assumptions = ["crash = the process is killed: what was flushed is there, any prefix of what was still buffered may be (no loss of already flushed data)",
                     "file operations are intercepted at Python level (open, os.*, os.path.*); a scheduling point before each of them and in the middle of each flush",
                     "two processes are two executions of the module in one interpreter with different process ids"]
    return c.finish()


def replay(case):
    with Pool('cache', n=1) as pool:
        return pool.answers([case])[0]
