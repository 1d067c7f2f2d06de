"""Executes one tool-world case (CPython 3).

The world: compare_compressors.py's CompressionTester, the HAR reader, the
streamifiers and the stream accounting are the real code, run in this process
with a command line, HAR files, clocks, a file system that can fail, and codecs
that do what the case's script says ("sima", "simb", "simc": in-memory modules
of the compressor package).  Real codecs can run next to them.

Every simulated codec keeps a record of what it was given, what it answered and
how much CPU time it used.  The oracles compare that record, and a reference
reading of the HAR entries, with what the tool printed and wrote.
"""
import builtins
import errno
import gc
import hashlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
import time
import types
import warnings

import fork_exec

# a warning is said once per process: whether it is seen depends on what ran before
warnings.simplefilter('ignore')

TICK = lambda: None

# ---------------------------------------------------------------- the clock


class Clock(object):
    """CPU time only advances where the case says so; wall clocks jump."""

    def __init__(self):
        self.user = self.system = self.child = 0.0
        self.elapsed = 0.0
        self.wall = 0.0
        self.reads = 0
        self.on = False

    def times(self):
        self.reads += 1
        self.elapsed += 0.5
        return os.times_result((self.user, self.system, self.child, self.child,
                                self.elapsed))

    def cpu(self):
        self.reads += 1
        return self.user + self.system

    def other(self):
        self.reads += 1
        self.wall += 0.25
        return self.wall


CLOCK = Clock()
_real = {'times': os.times}


def _install_clock():
    def sw(real, sim):
        def f(*a):
            return sim() if CLOCK.on else real(*a)
        return f
    os.times = sw(os.times, lambda: CLOCK.times())
    time.process_time = sw(time.process_time, lambda: CLOCK.cpu())
    time.process_time_ns = sw(time.process_time_ns, lambda: int(CLOCK.cpu() * 1e9))
    for n in ('time', 'monotonic', 'perf_counter'):
        setattr(time, n, sw(getattr(time, n), lambda: CLOCK.other()))
        setattr(time, n + '_ns', sw(getattr(time, n + '_ns'),
                                    lambda: int(CLOCK.other() * 1e9)))
    real_gettime = time.clock_gettime

    def gettime(which):
        if not CLOCK.on:
            return real_gettime(which)
        cpu = (time.CLOCK_PROCESS_CPUTIME_ID, time.CLOCK_THREAD_CPUTIME_ID)
        return CLOCK.cpu() if which in cpu else CLOCK.other()
    time.clock_gettime = gettime
    time.clock_gettime_ns = lambda which: int(gettime(which) * 1e9)
    time.thread_time = sw(time.thread_time, lambda: CLOCK.cpu())
    time.thread_time_ns = sw(time.thread_time_ns, lambda: int(CLOCK.cpu() * 1e9))
    try:
        import resource
        real = resource.getrusage

        def getrusage(who):
            r = real(who)
            if not CLOCK.on:
                return r
            x = list(r)
            x[0], x[1] = (CLOCK.user, CLOCK.system) if who == 0 else (CLOCK.child,) * 2
            return resource.struct_rusage(x)
        resource.getrusage = getrusage
    except ImportError:
        pass


_install_clock()


# --------------------------------------------------------------- the locale


def _install_locale():
    """Which locales are installed is the case's choice."""
    import locale
    real = locale.setlocale

    def setlocale(category, name=None):
        if WORLD is None or name in (None, '', 'C', 'POSIX'):
            return real(category, name)
        if WORLD.nolocale:
            WORLD.count('locale-missing')
            raise locale.Error('unsupported locale setting')
        WORLD.count('locale-set')
        locale._override_localeconv = {'thousands_sep': ',', 'grouping': [3, 3, 0]}
        return name if isinstance(name, str) else '.'.join(x or '' for x in name)
    locale.setlocale = setlocale


def _reset_locale():
    import locale
    locale._override_localeconv = {}


_install_locale()


# ------------------------------------------------------------- the terminal


class Terminal(io.RawIOBase):
    """Standard output of the whole command."""

    def __init__(self, w, fault):
        io.RawIOBase.__init__(self)
        self.w, self.fault, self.data = w, fault, bytearray()

    def writable(self):
        return True

    def write(self, b):
        if self.fault and len(self.data) + len(b) > 60 * (self.fault[0] - 1):
            self.w.count('output-error')
            self.w.failed_writes += 1
            raise OSError(self.fault[1], os.strerror(self.fault[1]))
        self.data += b
        return len(b)


_code = {}


def run_command(path):
    """what `python compare_compressors.py ...` does"""
    if path not in _code:
        with REAL_OPEN(path, encoding='utf-8') as fh:
            _code[path] = compile(fh.read(), path, 'exec')
    exec(_code[path], {'__name__': '__main__', '__file__': path,
                       '__builtins__': builtins})

# ----------------------------------------------------------- the file system


class FaultyRaw(io.FileIO):
    """A file whose reads come in the pieces, and whose operations fail at the
    points, that the case says."""

    def setup(self, world, name, writing):
        self.world = world
        self.nm = name
        self.f = world.wfaults.get(name, {}) if writing else \
            world.rfaults.get(name, {})
        self.pos_ = 0
        self.closed_once = False

    def readinto(self, b):
        w = self.world
        f = self.f
        n = len(b)
        if 'chunks' in f:
            w.nread += 1
            c = f['chunks']
            n = min(n, max(1, c[w.nread % len(c)]))
            w.count('short-read')
        if 'eio_at' in f and self.pos_ + n > f['eio_at']:
            n = f['eio_at'] - self.pos_
            if n <= 0:
                w.count('read-error')
                raise OSError(f['errno'], os.strerror(f['errno']), self.nm)
        got = io.FileIO.read(self, n)
        b[:len(got)] = got
        self.pos_ += len(got)
        return len(got)

    def readall(self):
        out = b''
        buf = bytearray(65536)
        while True:
            k = self.readinto(buf)
            if not k:
                return out
            out += bytes(buf[:k])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def write(self, b):
        w = self.world
        f = self.f
        b = bytes(b)
        n = len(b)
        if 'chunks' in f:
            w.nread += 1
            c = f['chunks']
            n = min(n, max(1, c[w.nread % len(c)]))
            w.count('short-write')
        if 'full_at' in f and self.pos_ + n > f['full_at']:
            n = f['full_at'] - self.pos_
            if n <= 0:
                w.count('write-error')
                w.failed_writes += 1
                raise OSError(f['errno'], os.strerror(f['errno']), self.nm)
        k = io.FileIO.write(self, b[:n])
        self.pos_ += k
        return k

    def close(self):
        if not self.closed_once and hasattr(self, 'f') and 'lose_at_close' in self.f \
                and not self.closed:
            self.closed_once = True
            w = self.world
            if self.pos_ > self.f['lose_at_close']:
                os.ftruncate(self.fileno(), self.f['lose_at_close'])
                io.FileIO.close(self)
                w.count('close-error')
                w.failed_writes += 1
                raise OSError(errno.EIO, os.strerror(errno.EIO), self.nm)
        io.FileIO.close(self)


REAL_OPEN = builtins.open
WORLD = None


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    w = WORLD
    path = os.fspath(file) if not isinstance(file, int) else None
    if w is None or path is None or not isinstance(path, str) or \
            not os.path.abspath(path).startswith(w.dir + os.sep):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    name = os.path.basename(path)
    writing = any(c in mode for c in 'wax+')
    f = (w.wfaults if writing else w.rfaults).get(name, {})
    if 'open' in f:
        w.count('open-error')
        if writing:
            w.failed_writes += 1
        raise OSError(f['open'], os.strerror(f['open']), path)
    rawmode = ''.join(c for c in mode if c in 'rwax+')
    raw = FaultyRaw(path, rawmode)
    raw.setup(w, name, writing)
    binary = 'b' in mode
    if binary and buffering == 0:
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1, 0) else buffering
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    if w.locale != 'utf-8':
        w.count('locale-' + w.locale)
    if encoding in (None, 'locale'):
        encoding = w.locale
    t = io.TextIOWrapper(buf, encoding, errors, newline,
                         line_buffering=(buffering == 1))
    t.mode = mode
    return t


builtins.open = sim_open
io.open = sim_open

# ------------------------------------------------------- codecs of the case


def norm_items(hdrs):
    """the tool's published equality, written independently"""
    out = set()
    for k, v in hdrs.items():
        if k in (':version', ':status-text', 'connection'):
            continue
        for item in v.split(';' if k == 'cookie' else '\0'):
            out.add((k, item.strip(' ')))
    return out


EXTRA = ['keep-alive', 'host', 'proxy-connection', 'te', 'set-cookie', 'cookie2',
         'version', 'status-text', ':status', ':path', ':authority', 'upgrade',
         'x', 'content-length', 'connectio', 'transfer-encoding']


def mutate(act, a, h):
    """what a codec that does `act` would decode instead of h"""
    d = dict(h)
    ks = [k for k in d if k not in ('connection', ':version', ':status-text')]
    k = ks[a % len(ks)] if ks else None
    k2 = ks[(a // 7 + 1) % len(ks)] if ks else None
    if act == 'ok' or k is None:
        return d
    sep = ';' if k == 'cookie' else '\0'
    if act == 'reorder':
        d = dict(reversed(list(d.items())))
        for n in d:
            s = ';' if n == 'cookie' else '\0'
            d[n] = s.join(reversed(d[n].split(s)))
    elif act == 'blank':
        d[k] = sep.join(' ' + x + '  ' for x in d[k].split(sep))
    elif act == 'dup':
        d[k] = d[k] + sep + d[k].split(sep)[0]
    elif act == 'ign':
        d[':version'] = 'HTTP/9'
        d[':status-text'] = 'whatever'
        d['connection'] = 'close'
    elif act == 'drop':
        del d[k]
    elif act == 'dropitem':
        m = [n for n in d if (';' if n == 'cookie' else '\0') in d[n]]
        if m:
            n = m[a % len(m)]
            s = ';' if n == 'cookie' else '\0'
            it = d[n].split(s)
            del it[a % len(it)]
            d[n] = s.join(it)
    elif act == 'change':
        v = d[k]
        p = a % (len(v) + 1)
        d[k] = v[:p] + '~' + v[p + 1:]
    elif act == 'case':
        d[k] = d[k].swapcase()
    elif act == 'add':
        n = EXTRA[a // 64 % len(EXTRA)] if a % 3 else 'x-extra%d' % (a % 5)
        d.setdefault(n, 'extra')
    elif act == 'swap':
        d[k], d[k2] = d[k2], d[k]
    elif act == 'move':
        if k2 != k:
            d[k2] = d[k2] + (';' if k2 == 'cookie' else '\0') + d[k]
            del d[k]
    elif act == 'rename':
        d[k + 'x'] = d.pop(k)
    elif act == 'empty':
        d = {}
    elif act == 'emptyval':
        d[k] = ''
    elif act == 'join':
        d[k] = d[k].replace('\0', ',').replace(';', ',')
    elif act == 'trunc':
        d[k] = d[k][:len(d[k]) // 2]
    elif act == 'tab':
        d[k] = d[k] + '\t'
    else:
        raise AssertionError(act)
    return d


class SimCodecError(Exception):
    pass


EXC = [SimCodecError] + [type('Sim' + b.__name__, (b,), {}) for b in (
    IndexError, KeyError, ValueError, TypeError, AttributeError, EOFError,
    OSError, AssertionError, ZeroDivisionError, MemoryError, StopIteration,
    RecursionError, LookupError, RuntimeError)]


def codec_error(arg, where):
    """whatever a codec may run into"""
    return EXC[arg % len(EXC)](where)


def make_module(name):
    import compressor
    full = 'compressor.' + name
    m = types.ModuleType(full)

    class Processor(compressor.BaseProcessor):
        def __init__(self, options, is_request, params):
            compressor.BaseProcessor.__init__(self, options, is_request, params)
            w = WORLD
            self.w_ = w
            self.script = w.sims[name]
            self.key = name + ('=' + ','.join(params) if params else '')
            w.ninst += 1
            self.ident = w.ninst
            self.pending = []
            w.instances.append(self)
            self.calls = []
            self.ended = 0

        def compress(self, in_headers, host):
            TICK()
            w = self.w_
            s = self.script
            k = w.ncalls.get(self.key, 0)
            w.ncalls[self.key] = k + 1
            snap = dict(in_headers)
            act, arg = s['acts'][k % len(s['acts'])]
            size = s['sizes'][k % len(s['sizes'])]
            u, sy, ch = s['cpu'][k % len(s['cpu'])]
            rec = {'codec': self.key, 'name': self.name, 'hdrs': snap, 'host': host,
                   'size': size, 'act': act, 'cpu': u + sy, 'inst': self.ident,
                   'mismatch': None, 'checked': False}
            CLOCK.user += u
            CLOCK.system += sy
            CLOCK.child += ch
            CLOCK.wall += s['jump'][k % len(s['jump'])]
            CLOCK.elapsed += s['jump'][k % len(s['jump'])]
            self.calls.append(rec)
            w.log.append(rec)
            if act == 'cexc':
                w.raised += 1
                raise codec_error(arg, 'compress')
            if act == 'mutate-input':
                for x in sorted(in_headers)[: 1 + arg % 3]:
                    in_headers[x] = 'clobbered'
                in_headers['x-clobber'] = '1'
                rec['after'] = dict(in_headers)
            out = bytes(size) if s['bytes'] else 'z' * size
            self.pending.append((out, rec, act, arg))
            return out

        def decompress(self, compressed):
            TICK()
            w = self.w_
            i = 0
            for j, p in enumerate(self.pending):
                if p[0] is compressed:
                    i = j
                    break
            out, rec, act, arg = self.pending.pop(i)
            s = self.script
            du, ds, dc = s['dcpu'][len(self.calls) % len(s['dcpu'])]
            CLOCK.user += du
            CLOCK.system += ds
            CLOCK.child += dc
            rec['given'] = compressed
            if act == 'ni':
                rec['ni'] = True
                raise NotImplementedError()
            if act == 'exc':
                w.raised += 1
                raise codec_error(arg, 'decompress')
            rec['checked'] = True
            if act == 'mutate-input':
                return dict(rec['after'])
            d = mutate(act, arg, rec['hdrs'])
            a, b = norm_items(rec['hdrs']), norm_items(d)
            rec['diff'] = (a - b) | (b - a)
            rec['sent_only'], rec['got_only'] = a - b, b - a
            rec['mismatch'] = bool(rec['diff'])
            if rec['mismatch']:
                w.nmismatch += 1
            return d

        def done(self):
            self.ended += 1
            if self.script.get('done_raises'):
                raise SimCodecError('done')

    Processor.__module__ = full
    m.Processor = Processor
    sys.modules[full] = m
    setattr(compressor, name, m)


# --------------------------------------------------- reference HAR reading


def ref_messages(files):
    """the reference reading: [(req, res, host)] per file"""
    out = []
    for f in files:
        msgs = []
        for e in f['entries']:
            rq, rs = e['request'], e['response']
            m = re.match(r'(?s)([A-Za-z][A-Za-z0-9+.-]*):(.*)$', rq['url'])
            scheme = m.group(1).lower()
            if scheme not in ('http', 'https'):
                continue
            rest = m.group(2)[2:].split('#', 1)[0]
            i = min([rest.find(c) for c in '/?' if c in rest] or [len(rest)])
            auth, path = rest[:i], rest[i:]
            if path.endswith('?') and path.count('?') == 1:
                path = path[:-1]
            if not path.startswith('/'):
                path = '/' + path
            req = ref_headers(rq['headers'])
            req[':method'] = rq['method'].lower()
            req[':path'] = path
            req[':scheme'] = scheme
            req[':version'] = rq['httpVersion']
            req.setdefault(':host', auth)
            res = ref_headers(rs['headers'])
            res[':status'] = re.match('[0-9]*', str(rs['status'])).group(0)
            msgs.append((req, res))
        out.append(msgs)
    return out


def ref_headers(L):
    out = {}
    for h in L:
        n = h['name'].lower()
        if n == 'host':
            n = ':host'
        out[n] = out[n] + '\0' + h['value'] if n in out else h['value']
    return out


def ref_filter(h):
    drop = set([':status-text', ':version', 'keep-alive', 'connection'])
    if 'connection' in h:
        for field in h['connection'].split('\0'):
            drop.update(t.strip().lower() for t in field.split(','))
    return dict((k, v) for k, v in h.items() if k not in drop)


PSL = []


def ref_sessions(files, streamifier):
    """[(name, type, [(hdrs, host)])] in the order the tool reports them"""
    out = []
    for msgs in ref_messages(files):
        groups = []
        idx = {}
        if streamifier == 'all_one':
            groups.append(('all', []))
            idx['all'] = 0
        for rq, rs in msgs:
            host = rq[':host']
            if streamifier == 'all_one':
                key = 'all'
            elif streamifier == 'host':
                host = key = host.lower().strip()
            else:
                if not PSL:
                    from publicsuffix import PublicSuffixList
                    PSL.append(PublicSuffixList())
                key = PSL[0].get_public_suffix(host.split(':', 1)[0])
            if key not in idx:
                idx[key] = len(groups)
                groups.append((key, []))
            groups[idx[key]][1].append((rq, rs, host))
        for name, ms in groups:
            out.append((name, 'req', [(ref_filter(a), h) for a, b, h in ms]))
            out.append((name, 'res', [(ref_filter(b), h) for a, b, h in ms]))
    return out


# --------------------------------------------------------------- the world


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls)
        self.cls, self.detail = cls, detail


class World(object):
    def __init__(self, case, d):
        self.dir = d
        self.locale = case.get('locale', 'utf-8')   # its encoding
        self.term = case.get('term', 'utf-8')   # encoding of standard output
        self.nolocale = case.get('nolocale', 0)
        self.sims = case.get('sims', {})
        self.rfaults = case.get('rfaults', {})
        self.wfaults = case.get('wfaults', {})
        self.nread = 0
        self.ninst = 0
        self.ncalls = {}
        self.instances = []
        self.log = []
        self.raised = 0
        self.nmismatch = 0
        self.failed_writes = 0
        self.stats = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


class OutFail(OSError):
    pass


def codec_key(arg):
    """'-c' argument -> (module, params, printed name)"""
    if '=' in arg:
        mod, ps = arg.split('=', 1)
        if ps[0] == ps[-1] == '"':
            ps = ps[1:-1]
        params = [p.strip() for p in ps.split(',')]
        return mod, params, '%s (%s)' % (mod, ', '.join(params))
    return arg, [], arg


def run_case(case, keep=None):
    global WORLD
    flags = case['flags']
    base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix='vsim', dir=base)
    cwd = os.getcwd()
    w = World(case, os.path.abspath(d))
    probes = {}
    viol = None
    log = hashlib.sha1()
    opi = -1
    fork = None
    try:
        names = []
        for f in case['files']:
            p = os.path.join(d, f['name'])
            names.append(f['name'])
            if f.get('missing'):
                continue
            text = f['text'] if 'text' in f else json.dumps(
                {'log': {'version': '1.2', 'creator': {}, 'entries': f['entries']}},
                indent=f.get('indent'), ensure_ascii=f.get('ascii', True))
            data = text.encode('utf-8')
            if 'raw' in f:
                at = f['rawat'] % (len(data) + 1)
                data = data[:at] + bytes.fromhex(f['raw']) + data[at:]
            if f.get('bom'):
                data = b'\xef\xbb\xbf' + data
                w.count('bom')
            if 'cut' in f:
                data = data[:f['cut'] % len(data)]
            with REAL_OPEN(p, 'wb') as fh:
                fh.write(data)
        for sub in case.get('dirs', []):
            os.mkdir(os.path.join(d, sub))
        for fn, text in sorted(case.get('stale', {}).items()):
            with REAL_OPEN(os.path.join(d, fn), 'w') as fh:
                fh.write(text)
            w.count('stale-file')
        os.chdir(d)
        import compare_compressors as cc
        for n in ('sima', 'simb', 'simc'):
            if 'compressor.' + n not in sys.modules:
                make_module(n)
        out = []
        nout = [0]

        def output(s):
            nout[0] += 1
            if case.get('ofault') and nout[0] == case['ofault'][0]:
                w.count('output-error')
                w.failed_writes += 1
                raise OutFail(case['ofault'][1], os.strerror(case['ofault'][1]))
            out.append(s)
        err = io.StringIO()
        argv, so, se = sys.argv, sys.stdout, sys.stderr
        sys.argv = ['compare_compressors.py'] + case['argv'] + names
        sys.stderr = err
        CLOCK.__init__()
        c0 = case.get('clock0', [0, 0, 0])
        CLOCK.user, CLOCK.system, CLOCK.wall = [float(x) for x in c0]
        CLOCK.on = True
        WORLD = w
        end, exc = 'normal', None
        term = None
        if case.get('main'):
            term = Terminal(w, case.get('ofault'))
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(term),
                                          encoding=w.term)
        fork = Forks(case, w) if 'programs' in case else None
        try:
            TICK()
            if term:
                run_command(os.path.abspath(cc.__file__))
            else:
                cc.CompressionTester(output)
        except fork_exec.Deadlock as e:
            end, exc = 'hang', str(e)
        except SystemExit as e:
            code = e.code
            end = 'normal' if code in (None, 0) else 'exit'
        except Exception as e:
            end, exc = 'exception', e
            exc = '%s: %s' % (type(e).__name__, e)
            e = None
        finally:
            CLOCK.on = False
            if term:
                try:
                    # the interpreter does it, and fails when it cannot
                    sys.stdout.flush()
                except OSError as e:
                    if end == 'normal':
                        end, exc = 'exit', 'flush: %s' % e
                out.append(bytes(term.data).decode(w.term, 'replace'))
                term.fault = None
                w.count('whole-command')
                if w.term != 'utf-8':
                    w.count('terminal-' + w.term)
            sys.argv, sys.stdout, sys.stderr = argv, so, se
            _reset_locale()
        gc.collect()
        if fork:
            fork.parent_gone(end)
        WORLD = None
        text = ''.join(map(str, out))
        files = {}
        for r, ds, fs in os.walk(d):
            for n in fs:
                p = os.path.join(r, n)
                files[os.path.relpath(p, d)] = REAL_OPEN(
                    p, encoding='utf-8', errors='surrogateescape').read()
        log.update(repr((end, exc, err.getvalue(), sorted(w.stats.items()),
                         [f['name'] for f in case['files']],
                         # lines that come from a set have no order of their own
                         sorted(text.replace(d, 'DIR').split('\n')),
                         sorted((k, v) for k, v in files.items()
                                if k.endswith('.tsv')),
                         [(x['codec'], sorted(x['hdrs'].items()), x['host'],
                           x['act'], x['size']) for x in w.log],
                         fork and fork.log()))
                   .replace(d, 'DIR').encode('utf-8', 'replace'))
        R = {'end': end, 'exc': exc, 'text': text, 'err': err.getvalue(),
             'files': files, 'w': w, 'probes': probes, 'fork': fork}
        if keep is not None:
            keep['R'] = R
        w.count('messages', len(w.log))
        w.count('mismatches', w.nmismatch)
        w.count('end-' + end)
        judge(case, R)
    except Violation as v:
        viol = {'class': v.cls, 'detail': v.detail.replace(d, 'DIR')[:600], 'op': opi}
        log.update(('VIOL' + v.cls).encode())
    except Exception as e:
        import traceback
        viol = {'class': 'harness', 'op': opi,
                'detail': '%s: %s | %s' % (type(e).__name__, e,
                                           traceback.format_exc()[-1200:])}
    finally:
        WORLD = None
        if fork:
            fork.close()
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return {'viol': viol, 'stats': w.stats, 'probes': probes,
            'digest': log.hexdigest()}


# ------------------------------------------------------------ child programs


class Forks(object):
    """The fork codec's children, under the scheduler of the fork world."""

    def __init__(self, case, w):
        import subprocess
        import threading
        self.case, self.tool = case, w
        self.s = fork_exec.SCHED = fork_exec.Sched(case['choices'])
        self.main = fork_exec.Task(threading.current_thread(), 'tool')
        self.s.add(self.main)
        self.w = fork_exec.World(case['programs'])
        fork_exec.SimPopen.world = self.w
        self.real = subprocess.Popen
        subprocess.Popen = fork_exec.SimPopen
        import compressor.fork as f
        if hasattr(f, 'Popen'):
            f.Popen = fork_exec.SimPopen
        self.outlives = None

    def parent_gone(self, end):
        for ch in self.w.children:
            ch.hang_up()
        if end == 'hang':
            return
        try:
            self.s.yield_(lambda: all(t.done for t in self.s.tasks[1:]))
        except fork_exec.Deadlock as e:
            self.outlives = str(e)

    def log(self):
        return (self.s.log.hexdigest(), self.s.steps, self.s.switches)

    def close(self):
        import subprocess
        subprocess.Popen = self.real
        fork_exec.end_children(self.w, self.main)
        for k, v in self.s.stats.items():
            self.tool.count(k, v)
        self.tool.count('switches', self.s.switches)
        self.tool.count('children', len(self.w.children))
        self.tool.count('child-death', sum(c.owner.died for c in self.w.children))


def fork_key(arg):
    """name of the program of a fork codec, else None"""
    mod, params, name = codec_key(arg)
    return params[0] if mod == 'fork' else None


def fork_sizes(case, R, o, sess):
    """{printed name: [[size, ...] per session]}: what the children answered"""
    out = {}
    for c in o['c']:
        prog = fork_key(c)
        if prog is None:
            continue
        used = iter([ch for ch in R['fork'].w.children
                     if ch.key == prog and ch.answers])
        L = []
        for (sn, typ, msgs) in sess:
            ch = next(used, None) if msgs else None
            L.append([len(a) for a in ch.answers] if ch else [])
        out[codec_key(c)[2]] = L
    return out


def check_fork(case, R, o, probe):
    w = R['fork'].w
    if w.child_errors:
        raise AssertionError(w.child_errors[0])
    died = any(ch.owner.died for ch in w.children)
    nostart = any(p.get('nostart') for p in case['programs'].values())
    if R['end'] == 'hang':
        raise Violation('hang', 'the tool never ends: %s' % R['exc'])
    if R['fork'].outlives:
        raise Violation('child-outlives', 'a child does not end after the tool has '
                        'gone: %s' % R['fork'].outlives)
    probe('children-ended', len(w.children))
    nf = len([c for c in o['c'] if fork_key(c)])
    if w.maxheld > 8 * nf + 8:
        raise Violation('children-pile-up', '%d children are kept at once for %d '
                        'codecs' % (w.maxheld, nf))
    if R['end'] != 'normal':
        if not died and not nostart:
            raise Violation('run-failed', 'no child failed, but the run ended by %s %s'
                            % (R['end'], R['exc']))
        if any(g[0] == 'TOTAL' for g in parse_output(R['text'])):
            raise Violation('results-without-child', 'totals were printed although a '
                            'child was lost')
        if any(k.endswith('.tsv') for k in R['files']):
            raise Violation('results-without-child', 'TSV files were written although '
                            'a child was lost')
        probe('child-loss-visible')
        return
    if nostart:
        raise Violation('child-loss-hidden', 'a child could not be started and the '
                        'run ended as if nothing had happened')
    sess = [s for s in ref_sessions(case['files'], o['s']) if s[2]]
    for c in o['c']:
        prog = fork_key(c)
        if prog is None:
            continue
        used = [ch for ch in w.children if ch.key == prog and ch.heard]
        if len(used) != len(sess):
            raise Violation('child-context', '%s: %d children were used for %d '
                            'sessions' % (c, len(used), len(sess)))
        for ch, (name, typ, msgs) in zip(used, sess):
            if len(ch.heard) != len(msgs) or len(ch.answers) != len(msgs):
                raise Violation('child-messages', '%s, session %s %s: the child heard '
                                '%d messages and answered %d of %d'
                                % (c, name, typ, len(ch.heard), len(ch.answers),
                                   len(msgs)))
            for heard, (h, host) in zip(ch.heard, msgs):
                wrong = fork_exec.tells(heard, h)
                if wrong:
                    raise Violation('child-input', '%s, session %s %s: %s'
                                    % (c, name, typ, wrong))
                probe('messages-heard')
        probe('sessions', len(sess))


# ------------------------------------------------------------------ oracles


def opts(case):
    a = case['argv']
    o = {'v': 0, 'd': '-d' in a, 't': '-t' in a, 's': 'public_suffix', 'b': None,
         'c': [], 'prefix': ''}
    i = 0
    while i < len(a):
        if a[i] == '-v':
            o['v'] = int(a[i + 1])
        elif a[i] == '-s':
            o['s'] = a[i + 1]
        elif a[i] == '-b':
            o['b'] = a[i + 1]
        elif a[i] == '-c':
            o['c'].append(a[i + 1])
        elif a[i] == '--prefix':
            o['prefix'] = a[i + 1]
        i += 1
    o['b'] = o['b'] or 'http1'
    if o['b'] not in o['c']:
        o['c'] = [o['b']] + o['c']
    return o


def judge(case, R):
    fl = case['flags']
    o = opts(case)
    w = R['w']

    def probe(n, k=1):
        R['probes'][n] = R['probes'].get(n, 0) + k
    if (fl.get('reach') or fl.get('context')) and R['end'] == 'normal':
        check_reach(case, R, o, probe, fl)
    if fl.get('mismatch'):
        check_mismatch(case, R, o, probe)
    if fl.get('fork'):
        check_fork(case, R, o, probe)
    if fl.get('account') and R['end'] == 'normal':
        check_account(case, R, o, probe, fl)
    if fl.get('rfault'):
        check_rfault(case, R, o, probe)
    if fl.get('wfault'):
        check_wfault(case, R, o, probe)
    if fl.get('must_end') and R['end'] != 'normal':
        raise Violation('run-failed', 'no fault and no failing codec, but the run '
                        'ended by %s %s; stderr %s' % (R['end'], R['exc'],
                                                       R['err'][-200:]))


def check_mismatch(case, R, o, probe):
    w, text = R['w'], R['text']
    names = [codec_key(c)[2] for c in o['c']]
    expect = {}
    for rec in w.log:
        if rec['mismatch']:
            expect[rec['name']] = expect.get(rec['name'], 0) + 1
    found = {}
    for n in names:
        found[n] = len(re.findall(r'mismatch in %s(?=[:\n]|$)' % re.escape(n), text))
    if o['d'] and w.nmismatch:
        probe('debug-stop')
        if R['end'] != 'exit':
            raise Violation('debug-not-stopped', 'a mismatch with -d did not end the '
                            'run with a failure status (%s %s)' % (R['end'], R['exc']))
        if w.nmismatch > 1:
            raise Violation('debug-not-stopped', '%d mismatches were met with -d'
                            % w.nmismatch)
        if 'TOTAL' in text:
            raise Violation('debug-not-stopped', 'results printed after a mismatch '
                            'with -d')
    elif w.raised:
        probe('codec-failed')
        if R['end'] == 'normal':
            raise Violation('codec-failure-hidden', 'a codec raised and the run ended '
                            'as if nothing had happened')
    elif R['end'] != 'normal':
        raise Violation('run-failed', 'ended by %s %s without a reason'
                        % (R['end'], R['exc']))
    for n in names:
        if found[n] != expect.get(n, 0):
            raise Violation('mismatch-report', '%s: %d messages came back different, '
                            '%d were reported' % (n, expect.get(n, 0), found[n]))
    if o['v'] > 1:
        for rec in w.log:
            for k, item in rec.get('diff', ()):
                probe('diff-items')
                if '%s: %s' % (k, item) not in text:
                    raise Violation('mismatch-detail', 'the difference %r of %s is not '
                                    'shown' % ((k, item), rec['name']))
        blocks = re.split(r'mismatch in ', text)[1:]
        bad = [r for r in w.log if r['mismatch']]
        if len(blocks) == len(bad):
            for rec, block in zip(bad, blocks):
                check_sides(rec, block, probe)
    unchecked = set(r['name'] for r in w.log if r.get('ni'))
    for n in unchecked:
        probe('unchecked')
        if n not in R['err']:
            raise Violation('unchecked-silent', '%s could not be checked and nothing '
                            'says so' % n)
    probe('verdicts', sum(1 for r in w.log if r['checked']))
    probe('mismatches', w.nmismatch)


def check_sides(rec, block, probe):
    heads = sorted((m.start(), who) for who in ('orig', rec['name'])
                   for m in re.finditer('Only found in: %s$' % re.escape(who),
                                        block, re.M))
    for items, who in ((rec['sent_only'], 'orig'), (rec['got_only'], rec['name'])):
        for k, v in items:
            line = '\t%s: %s' % (k, v)
            under = set()
            i = block.find(line)
            while i >= 0:
                before = [h for h in heads if h[0] < i]
                under.add(before[-1][1] if before else None)
                i = block.find(line, i + 1)
            if who not in under:
                raise Violation('mismatch-side', '%r was only in %s; the report of %s '
                                'has it under %s' % ((k, v), who, rec['name'],
                                                     sorted(map(str, under))))
            probe('sides')


def real_results(case, o, sessions):
    """results of the real codecs of the case, each run alone on the reference
    sessions: {printed name: [[size, ...] per session]}"""
    import importlib

    class Opt(object):
        verbose = 0
        debug = False
    out = {}
    for c in o['c']:
        mod, params, name = codec_key(c)
        if mod.startswith('sim') or mod == 'fork':
            continue
        m = importlib.import_module('compressor.' + mod)
        L = []
        for (sn, typ, msgs) in sessions:
            p = m.Processor(Opt(), typ == 'req', params)
            L.append([len(p.compress(dict(h), host)) for h, host in msgs])
        out[name] = L
    return out


def check_reach(case, R, o, probe, fl):
    """every message of the HAR reaches every codec once, intact, in order, in a
    context of its own session"""
    w = R['w']
    sess = ref_sessions(case['files'], o['s'])
    keys = {}
    for c in o['c']:
        mod, params, name = codec_key(c)
        if mod.startswith('sim'):
            keys[mod + ('=' + ','.join(params) if params else '')] = (name, params)
    for key, (name, params) in keys.items():
        insts = [i for i in w.instances if i.key == key and i.calls]
        calls = [c for c in w.log if c['codec'] == key]
        want = [(s, m) for s in sess for m in s[2]]
        if len(calls) != len(want):
            if not fl.get('reach'):
                continue
            raise Violation('reach-count', '%s was given %d messages, the HAR files '
                            'hold %d' % (name, len(calls), len(want)))
        for k, (c, (s, (h, host))) in enumerate(zip(calls, want)):
            if not fl.get('reach'):
                break
            if c['hdrs'] != h:
                a, b = set(h.items()), set(c['hdrs'].items())
                raise Violation('reach-content', '%s, message %d of session %s %s: '
                                'missing %r, unexpected %r'
                                % (name, k, s[0], s[1], sorted(a - b)[:4],
                                   sorted(b - a)[:4]))
            if c['host'] != host:
                raise Violation('reach-host', '%s: host %r instead of %r'
                                % (name, c['host'], host))
        probe('messages-traced', len(calls))
        if not fl.get('context'):
            continue
        nonempty = [s for s in sess if s[2]]
        if len(insts) != len(nonempty):
            raise Violation('session-context', '%s: %d contexts were used for %d '
                            'sessions' % (name, len(insts), len(nonempty)))
        for s in nonempty:
            probe('sessions')
        by = {}
        for c, (s, m) in zip(calls, want):
            by.setdefault(c['inst'], []).append(id(s))
        for inst, ss in by.items():
            if len(set(ss)) != 1:
                raise Violation('session-context', '%s: one context served several '
                                'sessions' % name)
        byid = dict((i.ident, i) for i in w.instances)
        for c, (s, m) in zip(calls, want):
            if bool(byid[c['inst']].is_request) != (s[1] == 'req'):
                raise Violation('session-direction', '%s: a %s session was given a '
                                'context of the other direction' % (name, s[1]))
            if list(byid[c['inst']].params) != params:
                raise Violation('params', '%s: parameters %r' %
                                (name, byid[c['inst']].params))


LINE = re.compile(r'^  +(\S.*?) +(-?[\d,. ]*?\d) +(-?\d+\.\d\d) \| +(-?\d+\.\d\d) +'
                  r'(-?\d+\.\d\d) +(-?\d+\.\d\d) +(-?\d+\.\d\d)\s*$')


def parse_output(text):
    """[(name, n, type, {codec: (size, time, ratio, min, max, std)})]"""
    out = []
    cur = None
    for line in text.split('\n'):
        m = re.match(r'^\* (.*): (\d+) (req|res) messages$', line)
        if m:
            cur = (m.group(1), int(m.group(2)), m.group(3), {})
            out.append(cur)
            continue
        m = LINE.match(line)
        if m and cur is not None:
            n = m.group(1)
            if n in cur[3]:
                raise Violation('summary', 'two lines for %s' % n)
            cur[3][n] = tuple([int(re.sub(r'[^0-9-]', '', m.group(2)))] +
                              [float(m.group(i)) for i in range(3, 8)])
    return out


def std(x):
    if len(x) < 2:
        return 0.0
    m = sum(x) / float(len(x))
    return (sum((a - m) ** 2 for a in x) / (len(x) - 1.0)) ** 0.5


def expected(case, R, o):
    """per session: (name, type, {codec: ([sizes], cpu or None)})"""
    w = R['w']
    sess = ref_sessions(case['files'], o['s'])
    real = real_results(case, o, sess)
    if R.get('fork'):
        real.update(fork_sizes(case, R, o, sess))
    seq = {}
    for r in w.log:
        seq.setdefault(r['name'], []).append(r)
    pos = dict((k, 0) for k in seq)
    out = []
    for si, (name, typ, msgs) in enumerate(sess):
        d = {}
        for c in o['c']:
            pn = codec_key(c)[2]
            if pn in real:
                d[pn] = (real[pn][si], None)
            else:
                L = seq.get(pn, [])[pos.get(pn, 0):pos.get(pn, 0) + len(msgs)]
                pos[pn] = pos.get(pn, 0) + len(msgs)
                d[pn] = ([x['size'] for x in L], sum(x['cpu'] for x in L))
        out.append((name, typ, len(msgs), d))
    return out


def near(a, b, tol=0.0051):
    return abs(a - b) <= tol + 1e-9 * abs(b)


def check_summary(got, name, typ, n, d, base, probe, what):
    if got[1] != n:
        raise Violation('summary-count', '%s: %d messages, the header says %d'
                        % (what, n, got[1]))
    if set(got[3]) != set(d):
        raise Violation('summary-codecs', '%s: lines for %r, codecs are %r'
                        % (what, sorted(got[3]), sorted(d)))
    bs = d[base][0]
    for pn, (sizes, cpu) in d.items():
        ratios = [1.0 * a / b for a, b in zip(sizes, bs)] if pn != base else \
            [1.0] * len(sizes)
        g = got[3][pn]
        if g[0] != sum(sizes):
            raise Violation('summary-size', '%s: %s: %d bytes were produced, %d are '
                            'reported' % (what, pn, sum(sizes), g[0]))
        if cpu is not None and not near(g[1], cpu):
            raise Violation('summary-time', '%s: %s used %.4f s of CPU compressing, '
                            '%.2f reported' % (what, pn, cpu, g[1]))
        if cpu is not None and cpu > 0.01:
            probe('time-checked')
        for label, x, y in (('ratio', g[2], 1.0 * sum(sizes) / sum(bs)),
                            ('min', g[3], min(ratios)), ('max', g[4], max(ratios)),
                            ('std', g[5], std(ratios))):
            if not near(x, y):
                raise Violation('summary-' + label, '%s: %s: %s is %.4f, %.2f reported'
                                % (what, pn, label, y, x))
        probe('lines-checked')


def shown(text, encoding):
    """can the terminal show it?"""
    try:
        text.encode(encoding)
    except UnicodeEncodeError:
        return False
    return True


def check_account(case, R, o, probe, fl):
    exp = expected(case, R, o)
    got = parse_output(R['text'])
    totals = [g for g in got if g[0] == 'TOTAL']
    base = codec_key(o['b'])[2]
    if fl['account'] != 'tsv':
        if sorted(t[2] for t in totals) != ['req', 'res']:
            raise Violation('summary-totals', 'TOTAL sections: %r'
                            % [t[2] for t in totals])
        for t in totals:
            mine = [e for e in exp if e[1] == t[2]]
            d = {}
            for e in mine:
                for pn, (s, cpu) in e[3].items():
                    a, b = d.get(pn, ([], 0.0))
                    d[pn] = (a + s, None if cpu is None else b + cpu)
            check_summary(t, 'TOTAL', t[2], sum(e[2] for e in mine), d, base, probe,
                          'TOTAL ' + t[2])
        if o['v'] > 0:
            # whether a session without messages is shown is nobody's business
            rest = [g for g in got if g[0] != 'TOTAL' and g[1]]
            exp = [e for e in exp if e[2]]
            if len(rest) != len(exp) or any(
                    g[2] != e[1] or g[0] != e[0] and shown(e[0], R['w'].term)
                    for g, e in zip(rest, exp)):
                raise Violation('summary-sessions', 'sections %r, sessions %r' % (
                    [(g[0], g[2]) for g in rest][:6], [(e[0], e[1]) for e in exp][:6]))
            for g, e in zip(rest, exp):
                check_summary(g, e[0], e[1], e[2], e[3], base, probe,
                              'session %s %s' % (e[0], e[1]))
    if o['t']:
        check_tsv(R, o, exp, probe, 'tsv')
    elif any(k.endswith('.tsv') for k in R['files']):
        raise Violation('tsv-unasked', 'TSV written without -t')


def tsv_problem(R, o, exp, typ):
    fn = os.path.normpath(o['prefix'] + typ + '.tsv')
    names = [codec_key(c)[2] for c in o['c']]
    if fn not in R['files']:
        return 'no file %s' % fn
    body = R['files'][fn]
    if not body.endswith('\n'):
        return '%s does not end with a whole line' % fn
    rows = [l.split('\t') for l in body[:-1].split('\n')]
    head = rows[0]
    if head[:2] != ['num', 'name'] or sorted(head[2:]) != sorted(names):
        return '%s: header %r' % (fn, head)
    want = []
    for (sn, t, n, d) in exp:
        if t != typ:
            continue
        for i in range(n):
            want.append([sn] + [str(d[p][0][i]) for p in head[2:]])
    got = rows[1:]
    if len(got) != len(want):
        return '%s: %d rows for %d messages' % (fn, len(got), len(want))
    for i, (g, x) in enumerate(zip(got, want)):
        if g != [str(i + 1)] + x:
            return '%s: row %d is %r, expected %r' % (fn, i + 1, g[:6],
                                                     ([str(i + 1)] + x)[:6])
    return None


def check_tsv(R, o, exp, probe, cls):
    for typ in ('req', 'res'):
        p = tsv_problem(R, o, exp, typ)
        if p:
            raise Violation(cls, p)
        probe('tsv-checked')


def check_rfault(case, R, o, probe):
    w = R['w']
    bad = [f for f in case['files'] if f.get('bad')] + \
        [f for f in case['files'] if w.stats.get('read-error', 0)
         + w.stats.get('open-error', 0) and f['name'] in case.get('rfaults', {})
         and ('eio_at' in case['rfaults'][f['name']]
              or 'open' in case['rfaults'][f['name']])]
    if not bad:
        if R['end'] != 'normal':
            raise Violation('run-failed', 'short reads only, but the run ended by %s '
                            '%s %s' % (R['end'], R['exc'], R['err'][-300:]))
        probe('short-reads-harmless')
        return
    probe('bad-input')
    if R['end'] == 'normal':
        raise Violation('bad-input-accepted', 'an unreadable input (%s) and the run '
                        'ended as if nothing had happened' % bad[0]['name'])
    if 'TOTAL' in R['text'] or parse_output(R['text']):
        raise Violation('bad-input-results', 'results were printed although %s could '
                        'not be read' % bad[0]['name'])
    if any(k.endswith('.tsv') for k in R['files']):
        raise Violation('bad-input-results', 'TSV files were written although %s could '
                        'not be read' % bad[0]['name'])
    first = bad[0]
    if first.get('bad') != 'structure':
        said = R['err'] + str(R['exc'])
        if not any(f['name'] in said for f in bad):
            raise Violation('bad-input-unnamed', 'nothing names the input that could '
                            'not be read (%r)' % said[:200])


def check_wfault(case, R, o, probe):
    w = R['w']
    if R['end'] == 'normal':
        exp = expected(case, R, o)
        if case.get('ofault') and w.stats.get('output-error'):
            raise Violation('output-lost', 'writing the results failed and the run '
                            'ended as if nothing had happened')
        if o['t']:
            check_tsv(R, o, exp, probe, 'tsv-incomplete')
    else:
        if not w.failed_writes:
            raise Violation('run-failed', 'no write failed, but the run ended by %s '
                            '%s' % (R['end'], R['exc']))
        probe('write-failure-visible')
