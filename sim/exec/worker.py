"""Worker process: executes cases read as JSON lines on stdin.

Runs under Jython 2.7 (codecs that are Python 2 code) and CPython 3 (the tool
and the codecs that run on it).  A worker never draws a random number and never
looks at a clock: everything it does is in the case.

usage: worker.py REPO WORLD
stdin : {"id": i, "cases": [case, ...], "trace": 0|budget}
stdout: {"id": i, "results": [...]}        (one line per request)

With "trace" the lines executed since the last event of the case are counted,
and a case that exceeds the budget is stopped: that is how "this never ends" is
decided deterministically, without a clock.
"""
import sys
import os
import json

here = os.path.dirname(os.path.abspath(__file__))
repo, world = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
sys.path[:0] = [here, repo]
PY2 = sys.version_info[0] == 2
if PY2:
    sys.path.append(os.path.join(here, 'stubs'))

real_out = sys.stdout
real_in = sys.stdin
real_err = sys.stderr


class Null(object):
    """Where the code under test prints to; nothing of it is interpreted."""
    encoding = 'utf-8'

    def write(self, *a):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False


class Steps(object):
    """Counts executed lines since the last event.  When the budget is blown
    the result is written and the process exits: raising instead could be
    swallowed by an `except:` of the code under test."""

    def __init__(self):
        self.n = 0
        self.budget = 0
        self.done = []
        self.rid = None

    def tick(self):
        self.n = 0

    def trace(self, frame, event, arg):
        self.n += 1
        if self.n > self.budget:
            sys.settrace(None)
            self.done.append(
                {'viol': {'class': 'no-termination', 'op': -1,
                          'detail': 'more than %d lines executed for one event'
                          % self.budget},
                 'stats': {}, 'probes': {}, 'digest': 'no-termination'})
            real_out.write(json.dumps({'id': self.rid, 'results': self.done,
                                       'died': True}) + '\n')
            real_out.flush()
            os._exit(0)
        return self.trace


STEPS = Steps()


def generate(pid, seed, i, tier):
    d = os.path.dirname(here)
    if d not in sys.path:
        sys.path.append(d)
    import props
    return props.PROPS[pid].gen(seed, i, tier)


def main():
    mod = __import__(world + '_exec')
    mod.TICK = STEPS.tick
    sys.stdout = Null()
    sys.stderr = Null()
    while True:
        line = real_in.readline()
        if not line:
            break
        req = json.loads(line)
        out = []
        STEPS.done, STEPS.rid = out, req['id']
        for case in req['cases']:
            if 'gen' in case:
                # (CPython workers only) the case is a pure function of this
                case = generate(*case['gen'])
            if req.get('trace'):
                STEPS.budget = req['trace']
                STEPS.n = 0
                sys.settrace(STEPS.trace)
                try:
                    r = mod.run_case(case)
                finally:
                    sys.settrace(None)
            else:
                r = mod.run_case(case)
            out.append(r)
        real_out.write(json.dumps({'id': req['id'], 'results': out}) + '\n')
        real_out.flush()


main()
