#!/usr/bin/env python3
"""usage: check.py ID [--tier quick|thorough] | check.py --replay FILE"""
import importlib, json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        mod = importlib.import_module('lib.props.' + d['property'].lower())
        from lib.driver import Check
        for v in d['violations']:
            print(json.dumps(v['case'], default=str))
            if hasattr(mod, 'replay'):
                print('  now:', mod.replay(v['case']))
        return 0
    if a and a[0] == '--selftest':
        import itertools
        import lib.poly as P
        # the oracle against polynomials with known roots
        for rs in itertools.combinations_with_replacement([-2, 0, 1, 3], 3):
            p = [1]
            for r in rs:
                p = P.mul(p, [-r, 1])
            u = P.Universe([p])
            assert len(u.pts) == 2 * len(set(rs)) + 1
            assert sum(s == 0 for s in u.signs[0]) == len(set(rs))
            for pt, s in zip(u.pts, u.signs[0]):
                if not isinstance(pt, P.Alg):
                    v = 1
                    for r in rs:
                        v *= pt - r
                    assert s == P.sgn(v)
        print('ok')
        return 0
    pid = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER') or 'quick'
    # class files of an earlier run by hand could hide the current source
    subprocess.call(['find', os.environ.get('VERIF_REPO', '/repo'), '-name', '*$py.class', '-not', '-path', '*/.git/*', '-delete'])
    mod = importlib.import_module('lib.props.' + pid.lower())
    from lib import driver
    if tier == 'quick':
        driver.DEADLINE = time.time() + 780
    else:
        driver.SILENCE = 900.0
    try:
        return mod.run(tier)
    except Exception:
        # after an abandoned exploration the results are incomplete, and evaluating them may fail
        if not driver.CHECKS or not (driver.STATE['late'] or driver.STATE['noanswer']):
            raise
        c = driver.CHECKS[-1]
        for case in driver.STATE['noanswer'][:5]:
            c.violation('no answer', case, None, {"noanswer": True})
        return c.finish()


sys.exit(main())
