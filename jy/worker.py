# Jython 2.7.  Reads one JSON list of cases per line, answers each with one line '@@<json>'.
import sys, os, json, traceback, time
here = os.environ['VERIF_JY']
sys.path.insert(0, here)
REPO = os.environ['VERIF_REPO']
real_out = sys.stdout
sys.dont_write_bytecode = True


class Sink(object):
    """stands in for stdout while the code under test runs; keeps the text if asked to"""
    encoding = 'utf-8'

    def __init__(self):
        self.keep = False
        self.parts = []

    def write(self, s):
        if self.keep:
            self.parts.append(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        return ''.join(self.parts)


sink = Sink()
sys.stdout = sink


def answer(obj):
    real_out.write('@@' + json.dumps(obj) + '\n')
    real_out.flush()


def main():
    broken = None
    try:
        suite = __import__('ops_' + sys.argv[1])
        suite.sink = sink
    except Exception as e:
        broken = {'exc': 'import: %s: %s' % (type(e).__name__, str(e)[:300]), 'tb': traceback.format_exc()[-1500:]}
    answer('ready')
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        for case in json.loads(line):
            sink.keep = False
            sink.parts = []
            if broken:
                answer(broken)
                continue
            try:
                r = suite.OPS[case[0]](*case[1:])
            except KeyboardInterrupt:
                raise
            except BaseException as e:
                r = {'exc': '%s: %s' % (type(e).__name__, str(e)[:300]), 'tb': traceback.format_exc()[-1500:]}
            except:
                e = sys.exc_info()[1]
                r = {'exc': 'java %s' % (str(e)[:300],), 'tb': traceback.format_exc()[-1500:]}
            answer(r)


main()
