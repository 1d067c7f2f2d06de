"""Executes one fork-world case (CPython 3).

The world: the real compressor.fork codec in the main thread; each child program
it starts is a thread of this process, connected by simulated pipes.  Exactly one
thread runs at a time; at every pipe operation the schedule of the case says who
runs next and how many bytes pass, so an execution is a function of the case
alone.  subprocess.Popen is replaced by the simulated one; the buffering on top
of the raw pipes is Python's own (as the real Popen would set it up).

Child programs: scripted ones ("text", "bin", "stream") and the repository's own
sample_exec_codec.py, executed with simulated stdin and stdout.
Faults: the child dies at its n-th pipe operation (leaving what it had written),
cannot be started, or closes its output.
"""
import hashlib
import io
import os
import struct
import sys
import threading
import errno

TICK = lambda: None
SCHED = None
REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'


class Deadlock(BaseException):
    pass


class Killed(BaseException):
    pass


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls)
        self.cls, self.detail = cls, detail


class Sched(object):
    """Baton passing between the main thread and the children."""

    def __init__(self, choices):
        self.choices = choices or [0]
        self.k = 0
        self.tasks = []                  # runnable or blocked tasks
        self.log = hashlib.sha1()
        self.steps = 0
        self.switches = 0
        self.dead = False
        self.stats = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def choose(self, n):
        c = self.choices[self.k % len(self.choices)]
        self.k += 1
        return c % n

    def add(self, task):
        self.tasks.append(task)

    def current(self):
        t = threading.current_thread()
        for x in self.tasks:
            if x.thread is t:
                return x
        return None

    def yield_(self, cond=None):
        """Let the schedule pick who runs next; return when this task has been
        picked and cond() holds."""
        me = self.current()
        me.cond = cond
        self.steps += 1
        TICK()
        if self.steps > 400000:
            raise Deadlock('more than 400000 pipe operations')
        self.dispatch(me)
        if me.killed:
            raise Killed()
        if self.dead:
            raise Deadlock('nobody can run')

    def dispatch(self, me):
        ready = [t for t in self.tasks
                 if not t.done and (t.killed or t.cond is None or t.cond())]
        if not ready:
            # wake the main task with the news
            self.dead = True
            nxt = self.tasks[0]
        else:
            nxt = ready[self.choose(len(ready))] if len(ready) > 1 else ready[0]
        if nxt is not me:
            self.switches += 1
            nxt.sem.release()
            if me.done:
                return
            me.sem.acquire()

    def finish(self, me):
        me.done = True
        self.dispatch(me)


class Task(object):
    def __init__(self, thread, name):
        self.thread = thread
        self.name = name
        self.sem = threading.Semaphore(0)
        self.cond = None
        self.done = False
        self.killed = False


class Pipe(object):
    def __init__(self, cap):
        self.buf = bytearray()
        self.cap = cap
        self.r_open = True
        self.w_open = True
        self.total = 0


class RawR(io.RawIOBase):
    def __init__(self, pipe, owner):
        self.p, self.owner = pipe, owner

    def readable(self):
        return True

    def readinto(self, b):
        p = self.p
        self.owner.op()
        SCHED.yield_(lambda: p.buf or not p.w_open or not p.r_open)
        if not p.buf:
            return 0
        n = min(len(b), len(p.buf))
        k = 1 + SCHED.choose(n) if SCHED.choose(3) else n
        if k < n:
            SCHED.count('short-read')
        b[:k] = p.buf[:k]
        del p.buf[:k]
        SCHED.log.update(b'r%d' % k)
        return k

    def close(self):
        self.p.r_open = False
        io.RawIOBase.close(self)


class RawW(io.RawIOBase):
    def __init__(self, pipe, owner):
        self.p, self.owner = pipe, owner

    def writable(self):
        return True

    def write(self, b):
        p = self.p
        self.owner.op()
        SCHED.yield_(lambda: len(p.buf) < p.cap or not p.r_open)
        if not p.r_open:
            SCHED.count('epipe')
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        n = min(len(b), p.cap - len(p.buf))
        k = 1 + SCHED.choose(n) if SCHED.choose(3) else n
        if k < len(b):
            SCHED.count('short-write')
        p.buf += bytes(b[:k])
        p.total += k
        SCHED.log.update(b'w%d' % k)
        return k

    def close(self):
        if not self.closed:
            self.p.w_open = False
        io.RawIOBase.close(self)


class Owner(object):
    """counts pipe operations of one side; a child may be due to die"""

    def __init__(self, die_at=None):
        self.n = 0
        self.die_at = die_at
        self.died = False
        self.gone = False

    def op(self):
        if self.gone:
            # a destructor running after the process has ended
            raise OSError(errno.EBADF, 'the process has ended')
        self.n += 1
        if self.die_at is not None and self.n > self.die_at:
            self.died = True
            raise Killed()


class Child(object):
    """What there is of a child besides the parent's ends of its pipes."""

    def _main(self):
        self.task.sem.acquire()
        try:
            if not self.task.killed and not SCHED.dead:
                PROGRAMS[self.spec['prog']](self)
        except (Killed, Deadlock):
            pass
        except (BrokenPipeError, OSError, ValueError):
            pass
        except BaseException as e:
            self.errors.append(repr(e))
        self.owner.gone = True
        self.fro.w_open = False
        self.to.r_open = False
        self.returncode = 1 if self.owner.died else 0
        SCHED.finish(self.task)

    def hang_up(self):
        """the parent is gone"""
        self.parent_owner.gone = True
        self.to.w_open = False
        self.fro.r_open = False

    def held(self):
        return self.to.w_open and not self.task.done


class SimPopen(object):
    """The part of subprocess.Popen a line-by-line filter needs."""
    world = None
    count = 0

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, shell=False, cwd=None, env=None,
                 universal_newlines=None, text=None, encoding=None, errors=None,
                 **kw):
        w = SimPopen.world
        # (the real one drops those of its abandoned children that have ended)
        w.active = [p for p in w.active if not p.child.task.done]
        self.args = args
        a = args if isinstance(args, str) else args[0]
        key = os.path.basename(a)
        spec = w.programs.get(key)
        w.started.append(a)
        if spec is None or spec.get('nostart'):
            SCHED.count('start-failed')
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', a)
        self.pid = 1000 + len(w.children)
        ch = self.child = Child()
        ch.key = key
        ch.returncode = None
        ch.errors = w.child_errors
        cap = spec.get('cap', 65536)
        to, fro = ch.to, ch.fro = Pipe(cap), Pipe(cap)
        die = spec.get('die', [])
        nth = w.nchild.get(key, 0)
        w.nchild[key] = nth + 1
        ch.owner = Owner(die[nth] if nth < len(die) else None)
        me = ch.parent_owner = Owner()
        ch.child_in, ch.child_out = RawR(to, ch.owner), RawW(fro, ch.owner)
        rin, rout = RawW(to, me), RawR(fro, me)
        istext = bool(text or universal_newlines or encoding or errors)

        def wrap(raw, cls):
            if bufsize == 0 and not istext:
                return raw
            b = cls(raw, 8192 if bufsize in (-1, 0, 1) else bufsize)
            if istext:
                b = io.TextIOWrapper(b, encoding or 'utf-8', errors,
                                     write_through=True,
                                     line_buffering=(bufsize == 1))
            return b
        self.stdin = wrap(rin, io.BufferedWriter) if stdin == -1 else None
        self.stdout = wrap(rout, io.BufferedReader) if stdout == -1 else None
        self.stderr = None
        ch.spec = spec
        ch.answers = []
        ch.heard = []
        ch.task = Task(None, key)
        t = threading.Thread(target=ch._main, daemon=True)
        ch.task.thread = t
        SCHED.add(ch.task)
        w.children.append(ch)
        t.start()
        w.maxheld = max(w.maxheld, sum(c.held() for c in w.children))

    def __del__(self):
        # the real one keeps itself, and its pipes, while the child has not ended
        w = SimPopen.world
        if w is not None and hasattr(self, 'child') and not self.child.task.done \
                and not self.child.parent_owner.gone:
            w.active.append(self)

    @property
    def returncode(self):
        return self.child.returncode

    @property
    def task(self):
        return self.child.task

    def _wait_dead(self):
        if not self.task.done:
            SCHED.yield_(lambda: self.task.done)

    def poll(self):
        return self.returncode if self.task.done else None

    def wait(self, timeout=None):
        self._wait_dead()
        return self.returncode

    def kill(self):
        if not self.task.done:
            self.task.killed = True

    terminate = kill

    def communicate(self, input=None, timeout=None):
        if input:
            self.stdin.write(input)
        self.stdin.close()
        out = self.stdout.read()
        self._wait_dead()
        return out, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.stdin:
            self.stdin.close()
        self._wait_dead()


# ------------------------------------------------------------ child programs


def read_message(inp):
    lines = []
    while True:
        l = inp.readline()
        if not l:
            return None
        if l.strip() == b'':
            return b''.join(lines)
        lines.append(l)


def answer_body(spec, k, msg):
    body = spec['answers'][k % len(spec['answers'])]
    if body == 'echo':
        return msg
    if body == 'upper':
        return msg.upper()
    return body.encode('latin-1')


def prog_text(ch):
    inp = io.BufferedReader(ch.child_in)
    out = io.BufferedWriter(ch.child_out)
    k = 0
    while True:
        m = read_message(inp)
        if m is None:
            break
        ch.heard.append(m)
        a = answer_body(ch.spec, k, m)
        lines = [l for l in a.split(b'\n') if l.strip()]
        a = b''.join(l + b'\n' for l in lines)
        ch.answers.append(a)
        out.write(a)
        if ch.spec.get('dribble'):
            out.flush()
        out.write(ch.spec.get('end', '\n').encode())
        out.flush()
        k += 1


def prog_bin(ch):
    inp = io.BufferedReader(ch.child_in)
    out = io.BufferedWriter(ch.child_out)
    k = 0
    while True:
        m = read_message(inp)
        if m is None:
            break
        ch.heard.append(m)
        a = answer_body(ch.spec, k, m)
        ch.answers.append(a)
        out.write(struct.pack('q', len(a)))
        if ch.spec.get('dribble'):
            out.flush()
        out.write(a)
        out.flush()
        k += 1


def prog_sample(ch):
    """the repository's sample program, unchanged, on simulated stdio"""
    class FakeSys(object):
        argv = ['sample_exec_codec.py']
        stdin = io.TextIOWrapper(io.BufferedReader(ch.child_in), 'utf-8',
                                 newline=None)
        stdout = io.TextIOWrapper(io.BufferedWriter(ch.child_out), 'utf-8')

    class Rec(object):
        def readline(self):
            l = FakeSys.stdin.readline()
            ch.cur.append(l)
            if l.strip() == '' and l:
                ch.heard.append(''.join(ch.cur[:-1]).encode('utf-8'))
                ch.answers.append(''.join(ch.cur[:-1]).encode('utf-8'))
                ch.cur = []
            return l

        def __iter__(self):
            while True:
                l = self.readline()
                if not l:
                    return
                yield l

        def read(self, n=-1):
            return FakeSys.stdin.read(n)
    ch.cur = []
    ns = types_simple(sys)
    ns.argv = FakeSys.argv
    ns.stdin = Rec()
    ns.stdout = FakeSys.stdout
    real_import = __import__

    def imp(name, *a, **k):
        if name == 'sys':
            return ns
        return real_import(name, *a, **k)
    b = dict(vars(__import__('builtins')))
    b['__import__'] = imp
    src = open(os.path.join(REPO, 'sample_exec_codec.py')).read()
    exec(compile(src, 'sample_exec_codec.py', 'exec'),
         {'__builtins__': b, '__name__': '__main__'})


class types_simple(object):
    def __init__(self, base):
        self.__dict__['base'] = base

    def __getattr__(self, n):
        return getattr(self.__dict__['base'], n)


PROGRAMS = {'text': prog_text, 'bin': prog_bin, 'sample': prog_sample}


class World(object):
    def __init__(self, programs):
        self.programs = programs
        self.children, self.nchild = [], {}
        self.started, self.child_errors = [], []
        self.maxheld = 0
        self.active = []


def ref_http1(h):
    """HTTP/1 text of a header set, written independently"""
    if ':method' in h:
        top = '%s %s %s' % (h[':method'], h.get(':path', ''),
                            h.get(':version', 'HTTP/1.1'))
        skip = (':method', ':path', ':version')
    else:
        top = '%s %s %s' % (h.get(':version', 'HTTP/1.1'), h.get(':status', ''),
                            h.get(':status-text', '?'))
        skip = (':version', ':status', ':status-text')
    out = [top]
    for k, v in h.items():
        if k in skip:
            continue
        n = 'host' if k == ':host' else k
        for x in v.split('\0'):
            out.append('%s: %s' % (n, x))
    return out


def end_children(w, main):
    """whatever is still running when a run is over"""
    s = SCHED
    for ch in w.children:
        ch.parent_owner.gone = True
    SimPopen.world = None
    w.active = []
    s.dead = False
    for t in s.tasks[1:]:
        t.killed = True
    guard = 0
    while any(not t.done for t in s.tasks[1:]) and guard < 1000:
        guard += 1
        main.cond = lambda: all(t.done for t in s.tasks[1:])
        try:
            s.dispatch(main)
        except BaseException:
            break


def tells(heard, h):
    """None if the text is the message h, or what it should have been"""
    want = ref_http1(h)
    a = heard.decode('utf-8').replace('\r\n', '\n').rstrip('\n').split('\n')
    b = '\n'.join(want).rstrip('\n').split('\n')
    if a[0] != b[0] or sorted(a[1:]) != sorted(b[1:]):
        return 'the child was told %r, not %r' % (a[:5], b[:5])
    return None


class Options(object):
    verbose = 0
    debug = False


def run_case(case):
    global SCHED
    import subprocess
    SCHED = s = Sched(case['choices'])
    main = Task(threading.current_thread(), 'tool')
    s.add(main)
    w = World(case['programs'])
    SimPopen.world = w
    real = subprocess.Popen
    subprocess.Popen = SimPopen
    viol = None
    probes = {}
    opi = -1

    def probe(n, k=1):
        probes[n] = probes.get(n, 0) + k
    try:
        import compressor.fork as fork
        # the module may have bound Popen by name
        if hasattr(fork, 'Popen'):
            fork.Popen = SimPopen
        procs = []
        for c in case['conns']:
            n = len(w.children)
            try:
                p = fork.Processor(Options(), c['req'], list(c['params']))
            except (Deadlock, Killed):
                raise
            except Exception as e:
                if w.programs[c['params'][0]].get('nostart'):
                    probe('start-failure-visible')
                    procs.append(None)
                    continue
                raise Violation('start', '%s: %s' % (type(e).__name__, e))
            if w.programs[c['params'][0]].get('nostart'):
                # may also surface at the first message
                procs.append((p, None, 0))
                continue
            if len(w.children) != n + 1:
                raise Violation('start', '%d children were started for one codec'
                                % (len(w.children) - n))
            procs.append([p, w.children[-1], 0, False])
        for opi, (ci, host, hdrs) in enumerate(case['ops']):
            TICK()
            if procs[ci] is None:
                continue
            p, ch, k, broken = procs[ci]
            if broken:
                continue
            h = dict(hdrs)
            s.count('messages')
            try:
                got = p.compress(h, host)
            except (Deadlock, Killed):
                raise Violation('hang', 'message %d of codec %d never returns: %s'
                                % (k, ci, 'the child is %s'
                                   % ('dead' if ch.task.done else 'waiting')))
            except Exception as e:
                if ch.owner.died:
                    s.count('child-death')
                    probe('death-visible')
                    procs[ci][3] = True
                    continue
                raise Violation('compress-exception', '%s: %s'
                                % (type(e).__name__, e))
            procs[ci][2] = k + 1
            # the child must have been told exactly this message
            heard = ch.heard[k] if k < len(ch.heard) else None
            if heard is None:
                raise Violation('unasked-answer', 'message %d of codec %d was answered '
                                'although the child never received it (child %s)'
                                % (k, ci, 'dead' if ch.owner.died else 'alive'))
            wrong = tells(heard, h)
            if wrong:
                raise Violation('child-input', wrong)
            ans = ch.answers[k]
            g = got if isinstance(got, bytes) else got.encode('utf-8')
            if g != ans:
                raise Violation('child-output', 'message %d of codec %d: the child '
                                'answered %d bytes %r, the codec returned %d bytes %r'
                                % (k, ci, len(ans), ans[:60], len(g), g[:60]))
            s.log.update(g)
            probe('answers')
        opi = len(case['ops'])
        # the tool goes away: every child must come to an end
        for x in procs:
            if not x:
                continue
            p, ch = x[0], x[1]
            if ch is None:
                continue
            d = getattr(p, 'done', None)
            if d:
                try:
                    d()
                except (Deadlock, Killed):
                    raise Violation('hang', 'done() never returns')
                except Exception:
                    pass
            ch.hang_up()
        try:
            s.yield_(lambda: all(t.done for t in s.tasks[1:]))
            probe('children-ended', len(w.children))
        except Deadlock as e:
            raise Violation('child-outlives', 'a child program does not end after the '
                            'tool has gone: %s' % e)
    except Violation as v:
        viol = {'class': v.cls, 'detail': v.detail[:600], 'op': opi}
    except Exception as e:
        import traceback
        viol = {'class': 'harness', 'op': opi,
                'detail': '%s: %s | %s' % (type(e).__name__, e,
                                           traceback.format_exc()[-1200:])}
    finally:
        subprocess.Popen = real
        end_children(w, main)
    if w.child_errors and viol is None:
        viol = {'class': 'harness', 'op': opi, 'detail': w.child_errors[0]}
    s.stats['switches'] = s.switches
    s.stats['pipe-ops'] = s.steps
    s.log.update(repr((s.steps, s.switches, viol and viol['class'])).encode())
    return {'viol': viol, 'stats': s.stats, 'probes': probes,
            'digest': s.log.hexdigest()}
