"""Worker pool, watchdog and fresh-process runs (driver side, CPython 3)."""
import json
import os
import select
import subprocess
import threading
import time
import queue

HERE = os.path.dirname(os.path.abspath(__file__))
PY3 = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')
JHOME = '/usr/share/jython'


def step_budget(cases):
    """Lines one event may execute before it is said never to end: an order of
    magnitude beyond what the costliest legitimate event of such a size needs
    (measured: at most 800 lines per byte sent, 600,000 for a damaged frame)."""
    big = 0
    for c in cases:
        for op in c.get('ops', ()):
            if op[0] in ('send', 'psend', 'probe'):
                big = max(big, sum(len(k) + len(v) for k, v in op[3]))
    return 60000000 if not big else min(6000000 + 8000 * big, 200000000)



def command(runtime, world):
    w = os.path.join(HERE, 'exec', 'worker.py')
    if runtime == 'jython':
        return ['java', '-XX:+UseSerialGC', '-Xss16m', '-Xmx1800m',
                '-Dpython.home=' + JHOME, '-Dpython.executable=/usr/bin/jython',
                '-Dpython.cachedir.skip=true',
                '-jar', '/usr/share/java/jython.jar', '-B', w, REPO, world]
    return [PY3, '-B', w, REPO, world]


class Worker(object):
    def __init__(self, runtime, world, hashseed='0'):
        env = dict(os.environ)
        env['JYTHONPATH'] = '/opt/jylib'
        env['PYTHONHASHSEED'] = hashseed
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONIOENCODING'] = 'utf-8'
        env['LC_ALL'] = 'C.UTF-8'
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen(
            command(runtime, world), stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
            cwd=HERE)
        self.buf = b''
        self.err = b''
        self.fed = 0
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self):
        for line in self.p.stderr:
            self.err = (self.err + line)[-4000:]

    def ask(self, cases, trace=0, timeout=60):
        """-> results list, or 'timeout', or 'died'"""
        req = json.dumps({'id': self.fed, 'cases': cases, 'trace': trace})
        self.fed += 1
        try:
            self.p.stdin.write(req.encode() + b'\n')
            self.p.stdin.flush()
        except OSError:
            return 'died'
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return 'timeout'
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return 'timeout'
            d = os.read(fd, 1 << 20)
            if not d:
                return 'died'
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)['results']

    def close(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


class HarnessError(Exception):
    pass


def run_fresh(runtime, world, cases, timeout=60, hashseed='0', trace=False):
    """Run cases, in order, in one new process.  Results; a run that does not
    end within the timeout is decided again by counting executed lines."""
    w = Worker(runtime, world, hashseed)
    if trace:
        timeout = max(timeout, 400)
    try:
        r = w.ask(cases, trace=step_budget(cases) if trace else 0,
                  timeout=timeout)
    finally:
        err = w.err
        w.close()
    if r == 'timeout' and not trace:
        return run_fresh(runtime, world, cases, hashseed=hashseed, trace=True)
    if isinstance(r, str):
        raise HarnessError('worker %s: %s' % (r, err.decode('utf-8', 'replace')))
    return r


class Pool(object):
    """Feeds chunks of cases to persistent workers.  Each chunk is executed in
    order by one worker; which chunks a worker ran before is remembered, so a
    failure that depends on earlier cases of the process can be replayed."""

    def __init__(self, runtime, world, n, recycle=60, case_timeout=20,
                 hashseed='0'):
        self.runtime, self.world, self.n = runtime, world, n
        self.recycle, self.case_timeout = recycle, case_timeout
        self.hashseed = hashseed

    def run(self, cases, on_result, stop, expired):
        """cases: iterator of (index, case).  on_result(index, case, result,
        prefix) is called from worker threads under a lock."""
        lock = threading.Lock()
        it = iter(cases)
        errors = []

        def loop():
            w = None
            prefix = []
            while not stop.is_set() and not expired():
                with lock:
                    try:
                        i, case = next(it)
                    except StopIteration:
                        break
                    except Exception as e:      # generator bug
                        errors.append(repr(e))
                        stop.set()
                        break
                if w is None or len(prefix) >= self.recycle:
                    if w:
                        w.close()
                    w = Worker(self.runtime, self.world, self.hashseed)
                    prefix = []
                # first answer of a JVM includes its start and imports
                r = w.ask([case], timeout=case.get('timeout', self.case_timeout)
                          + (40 if not prefix else 0))
                if isinstance(r, str):
                    err = w.err
                    w.close()
                    w = None
                    if stop.is_set():
                        break
                    try:
                        r = run_fresh(self.runtime, self.world, [case],
                                      timeout=60, hashseed=self.hashseed,
                                      trace=(r == 'timeout'))
                    except HarnessError as e:
                        errors.append('%s (first: %s)' % (e, err[-500:]))
                        stop.set()
                        break
                with lock:
                    if not stop.is_set():
                        try:
                            on_result(i, case, r[0], list(prefix))
                        except Exception as e:      # never lose a result
                            errors.append('%s: %s' % (type(e).__name__, e))
                            stop.set()
                prefix.append(case)
            if w:
                w.close()

        ts = [threading.Thread(target=loop, daemon=True) for _ in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise HarnessError('; '.join(errors[:3]))
