"""Executes one codec-world case.  Runs under Jython 2.7 and CPython 3.

The world: a number of connections live in ONE process.  Each connection has an
encoder endpoint and a decoder endpoint (two separate instances of the same
compressor.X.Processor, as the two ends of an HTTP connection would have) and a
FIFO wire between them (the transport is a byte stream, so frames are neither
lost nor reordered while a connection lives).  The case is an explicit list of
events, so the schedule, the faults and the data are all in it:

  ["send", c, host, [[name, value], ...]]  encoder c is handed a message
  ["dlv", c]            the oldest frame in flight on c reaches the decoder
  ["flush", c]          all frames in flight on c are delivered
  ["psend", c, host, headers, s]  the reference peer (refdec) sends
  ["crash", c]          both ends of c lose everything; new connection follows
  ["tear", c, n]        the peer dies while the oldest frame is being
                        delivered: only n bytes arrive, then c is reset
  ["flip", c, pos, x]   a byte of the oldest frame is damaged, c is reset after
  ["storm", c, [[kind, pos, x]...]]   the oldest frame, damaged in many ways
  ["swap", c, pos]      two neighbouring bytes of it change places, same end

Events that do not apply (nothing in flight) are no-ops, which is what makes
dropping events during minimisation sound.
"""
import sys
import hashlib

PY2 = sys.version_info[0] == 2

if PY2:
    def enc(s):
        return s.encode('latin-1')
else:
    def enc(s):
        return s

try:
    from collections import OrderedDict
except ImportError:      # pragma: no cover
    OrderedDict = dict


ANY = Exception
if sys.platform.startswith('java'):
    import java.lang
    ANY = (Exception, java.lang.Throwable)   # a Java error is not an Exception


class Options(object):
    verbose = 0
    debug = False
    baseline = 'http1'


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls)
        self.cls = cls
        self.detail = detail


EXACT = False                  # keep Cookie fields apart


def normalise(hdrs):
    """The tool's published notion of equality: per field, the set of items
    (cookies split on ';', the rest on NUL), blanks around items ignored.
    Several Cookie fields count as one joined by ';' (RFC 7540, 8.1.2.5),
    unless the property is about the codecs that keep fields as they are."""
    out = set()
    items = hdrs.items() if hasattr(hdrs, 'items') else hdrs
    for k, v in items:
        if not isinstance(k, str):
            k = k.decode('utf-8') if not PY2 else str(k)
        if not isinstance(v, str):
            v = v.decode('utf-8') if not PY2 else str(v)
        if k in (':version', ':status-text', 'connection'):
            continue
        if k == 'cookie':
            items = v.split(';') if EXACT else v.replace('\0', ';').split(';')
        else:
            items = v.split('\0')
        for item in items:
            out.add((k, item.strip(' ')))
    return out


def lat(s):
    if isinstance(s, bytes):
        return s.decode('latin-1')
    return s


def short(x):
    r = repr(x)
    return r if len(r) < 160 else r[:150] + '...(%d)' % len(r)


def excname(e):
    return type(e).__name__


TICK = lambda: None


def load(codec):
    return __import__('compressor.' + codec, globals(), locals(), ['Processor'])


class Conn(object):
    def __init__(self, spec):
        self.spec = spec
        self.gen = 0
        self.reset()

    def fresh(self):
        m = load(self.spec['codec'])
        o = Options()
        o.verbose = self.spec.get('verbose', 0)
        return m.Processor(o, self.spec['req'], [enc(p) for p in self.spec["params"]])

    def reset(self):
        try:
            self.enc = self.fresh()
            self.dec = self.fresh()
        except ANY as e:
            raise Violation('construct-exception', '%s %s: %s: %s' % (
                self.spec['codec'], self.spec['params'], excname(e), short(str(e))))
        self.base = None
        self.big = 0
        self.wire = []
        self.gen += 1
        self.broken = False


def tobytes(frame):
    if isinstance(frame, bytes):
        return frame
    if PY2:
        return str(frame)
    if isinstance(frame, str):
        return frame.encode('utf-8', 'surrogatepass')
    return bytes(frame)


def run_case(case, oracle_mod=None):
    global EXACT
    flags = case.get('flags', {})
    EXACT = bool(flags.get('exact'))
    stats = {'frames': 0, 'delivered': 0, 'bytes': 0, 'crash': 0, 'tear': 0,
             'flip': 0, 'swap': 0, 'maxlag': 0, 'refused': 0, 'reset_inflight': 0,
             'switches': 0}
    probes = {}
    log = hashlib.sha1()
    history = {}                 # conn -> list of [gen, host, hdrs, frame]
    viol = None
    conns = []
    opi = -1

    def note(*a):
        log.update((repr(a) + '\n').encode('latin-1', 'replace')
                   if not PY2 else (repr(a) + '\n'))

    def probe(n, k=1):
        probes[n] = probes.get(n, 0) + k

    try:
        for spec in case['conns']:
            conns.append(Conn(spec))
            history[len(conns) - 1] = []
        oracles = {}
        if flags.get('oracle'):
            for i, spec in enumerate(case['conns']):
                if spec['codec'] in ('http2', 'headerdiff'):
                    import refdec as ref
                else:
                    import zref as ref
                oracles[i] = ref.make(spec)
        lastc = None
        for opi, op in enumerate(case['ops']):
            kind, ci = op[0], op[1]
            c = conns[ci]
            TICK()
            if lastc is not None and lastc != ci:
                stats['switches'] += 1
            lastc = ci
            if kind == 'send':
                if c.broken:
                    continue
                host = enc(op[2])
                hdrs = OrderedDict((enc(k), enc(v)) for k, v in op[3])
                try:
                    frame = c.enc.compress(hdrs, host)
                except ANY as e:
                    if flags.get('may_refuse') and op[-1] == 'oversize':
                        stats['refused'] += 1
                        note('refuse', ci, excname(e))
                        c.reset()
                        if ci in oracles:
                            oracles[ci].reset()
                        continue
                    if flags.get('nocheck'):
                        # what is judged here is not whether it can be sent
                        history[ci].append([c.gen, host, hdrs,
                                            'raise:' + excname(e)])
                        note('send-raise', ci, excname(e))
                        c.reset()
                        continue
                    raise Violation('encode-exception',
                                    '%s: %s' % (excname(e), short(str(e))))
                if list(hdrs.items()) != [(enc(k), enc(v)) for k, v in op[3]]:
                    raise Violation('input-mutated', short(hdrs))
                c.wire.append((hdrs, frame))
                fb = tobytes(frame)
                history[ci].append([c.gen, host, hdrs, fb])
                stats['frames'] += 1
                stats['bytes'] += len(fb)
                stats['maxlag'] = max(stats['maxlag'], len(c.wire))
                note('send', ci, hashlib.sha1(fb).hexdigest())
                if ci in oracles:
                    oracles[ci].on_frame(hdrs, host, fb, probe, Violation,
                                         normalise)
                c.big = max(c.big, len(fb), sum(len(k) + len(v) + 64
                                                for k, v in hdrs.items()))
                if flags.get('mem') and stats['frames'] % 20 == 0:
                    check_mem(c, probe, stats)
            elif kind == 'probe':
                steady(c, ci, op, note, probe, stats)
            elif kind == 'march':
                march(c, ci, op, note, probe, stats)
            elif kind == 'psend':
                # the reference peer sends to the real decoder
                hdrs = OrderedDict((enc(k), enc(v)) for k, v in op[3])
                frame = oracles[ci].make_frame(hdrs, op[4], probe, normalise)
                c.wire.append((hdrs, frame))
                stats['peer_frames'] = stats.get('peer_frames', 0) + 1
                stats['maxlag'] = max(stats['maxlag'], len(c.wire))
                note('psend', ci, hashlib.sha1(frame).hexdigest())
            elif kind in ('dlv', 'flush'):
                n = len(c.wire) if kind == 'flush' else min(1, len(c.wire))
                for _ in range(n):
                    TICK()
                    hdrs, frame = c.wire.pop(0)
                    if flags.get('nodec'):
                        continue
                    try:
                        got = c.dec.decompress(frame)
                    except NotImplementedError:
                        continue
                    except ANY as e:
                        if flags.get('nocheck'):
                            history[ci].append([c.gen, None, frame,
                                                'raise:' + excname(e)])
                            note('dlv-raise', ci, excname(e))
                            c.reset()
                            break
                        raise Violation('decode-exception',
                                        '%s: %s' % (excname(e), short(str(e))))
                    stats['delivered'] += 1
                    a, b = normalise(hdrs), normalise(got)
                    note('dlv', ci, sorted(b))
                    history[ci].append([c.gen, None, frame, sorted(b)])
                    if a != b and not flags.get('nocheck'):
                        raise Violation(
                            'roundtrip',
                            'conn %d: lost %s; invented %s'
                            % (ci, short(sorted(a - b)), short(sorted(b - a))))
                if flags.get('mem') and (kind == 'flush'
                                         or stats['delivered'] % 20 == 0):
                    check_mem(c, probe, stats)
            elif kind == 'crash':
                if c.wire:
                    stats['reset_inflight'] += 1
                stats['crash'] += 1
                c.reset()
                if ci in oracles:
                    oracles[ci].reset()
                note('crash', ci)
            elif kind in ('tear', 'flip', 'swap'):
                if not c.wire:
                    continue
                hdrs, frame = c.wire.pop(0)
                if kind == 'tear':
                    bad = damage(frame, kind, op[2], 0)
                else:
                    if not len(frame):
                        continue
                    bad = damage(frame, kind, op[2], op[-1])
                stats[kind] += 1
                out = damaged_decode(c, bad, flags, probe)
                note(kind, ci, out)
                c.reset()
                if ci in oracles:
                    oracles[ci].reset()
            elif kind == 'storm':
                # one frame damaged in many ways; a decoder that refused one
                # is replaced, one that noticed nothing reads on
                if not c.wire:
                    continue
                hdrs, frame = c.wire.pop(0)
                outs = []
                for k, pos, x in op[2]:
                    if not len(frame):
                        break
                    TICK()
                    stats[k] += 1
                    outs.append(damaged_decode(c, damage(frame, k, pos, x),
                                               flags, probe))
                    if outs[-1] == 'raise':
                        c.dec = c.fresh()
                note(kind, ci, outs)
                c.reset()
                if ci in oracles:
                    oracles[ci].reset()
            else:
                raise AssertionError('bad op %r' % (op,))
        opi = len(case['ops'])
        if flags.get('isolation'):
            solo_check(case, conns, history, probe)
    except Violation as v:
        viol = {'class': v.cls, 'detail': v.detail, 'op': opi}
        note('VIOLATION', v.cls, opi)
    except ANY as e:
        # not something the code under test did: no verdict
        import traceback
        viol = {'class': 'harness', 'op': opi,
                'detail': '%s: %s | %s' % (excname(e), short(str(e)),
                                           traceback.format_exc()[-800:])}
        note('HARNESS', opi)
    for c in conns:
        for ep in (c.enc, c.dec):
            done = getattr(ep, 'done', None)
            if done:
                try:
                    done()
                except ANY:
                    pass
    return {'viol': viol, 'stats': stats, 'probes': probes,
            'digest': log.hexdigest()}


def steady(c, ci, op, note, probe, stats):
    """The same header set several times in a row, after whatever happened on
    this connection, and on a connection where nothing happened before."""
    host, k = enc(op[2]), op[4]
    other = c.fresh()
    sizes = []
    for ep, wire in ((c.enc, c.wire), (other, None)):
        for _ in range(k):
            hdrs = OrderedDict((enc(n), enc(v)) for n, v in op[3])
            try:
                frame = ep.compress(hdrs, host)
            except ANY as e:
                raise Violation('encode-exception',
                                '%s: %s' % (excname(e), short(str(e))))
            if wire is not None:
                wire.append((hdrs, frame))
                stats['frames'] += 1
        sizes.append(len(tobytes(frame)))
    note('probe', ci, sizes)
    probe('settled')
    if sizes[0] == sizes[1]:
        probe('settled-equal')
    allowed = sizes[1] + 4 + 2 * len(op[3])
    stats['maxextra'] = max(stats.get('maxextra', 0), sizes[0] - sizes[1])
    if sizes[0] > allowed:
        raise Violation('decay', 'conn %d: sent %d times in a row, a header set of '
                        '%d fields still takes %d bytes; %d on a new connection'
                        % (ci, k, len(op[3]), sizes[0], sizes[1]))


def march(c, ci, op, note, probe, stats):
    """Many rounds of one header set each ('keep'), or of fresh values ('val')
    or names ('key'; 'all' when every entry is kept), delivered at once: a long life in one step."""
    host, rounds, width, mode, k = enc(op[2]), op[3], op[4], op[5], op[6]
    log = hashlib.sha1()
    while c.wire:
        hdrs, frame = c.wire.pop(0)
        same(ci, hdrs, decode(c.dec, frame))
    for i in range(rounds):
        TICK()
        hdrs = OrderedDict([(':method', 'get'), (':host', host)]
                           if c.spec['req'] else [(':status', '200')])
        for j in range(width):
            if mode != 'keep' or i == 0:
                k += 1
            hdrs['x-%x' % (k if mode in ('key', 'all') else j)] = \
                'm' if mode != 'val' else '%x' % k
        if mode == 'all':
            # nothing is ever dropped: old and young entries again
            for j in range(1, 6):
                hdrs['x-%x' % (k * 7919 * j % k + 1)] = 'm'
                hdrs['x-%x' % max(1, k - width - 3 * j * j)] = 'm'
        if mode == 'keep':
            # one that changes, so that the rest is not always all there is
            hdrs['x-i'] = '%x' % (i // 7)
        try:
            frame = c.enc.compress(hdrs, host)
        except ANY as e:
            raise Violation('encode-exception', 'round %d: %s: %s'
                            % (i, excname(e), short(str(e))))
        log.update(tobytes(frame))
        stats['frames'] += 1
        same(ci, hdrs, decode(c.dec, frame))
        stats['delivered'] += 1
    probe('march-' + mode)
    note('march', ci, log.hexdigest())


def decode(ep, frame):
    try:
        return ep.decompress(frame)
    except ANY as e:
        raise Violation('decode-exception',
                        '%s: %s' % (excname(e), short(str(e))))


def same(ci, hdrs, got):
    a, b = normalise(hdrs), normalise(got)
    if a != b:
        raise Violation('roundtrip', 'conn %d: lost %s; invented %s'
                        % (ci, short(sorted(a - b)), short(sorted(b - a))))


def damage(frame, kind, pos, x):
    if kind == 'tear':
        return frame[:pos % max(1, len(frame))]
    pos %= len(frame)
    if kind == 'swap':
        a, b = frame[pos:pos + 1], frame[pos + 1:pos + 2]
        return frame[:pos] + b + a + frame[pos + 2:]
    if isinstance(frame, str):
        return (frame[:pos] + chr((ord(frame[pos]) ^ x) & 0xff)
                + frame[pos + 1:])
    bb = bytearray(frame)
    bb[pos] ^= x & 0xff
    return bytes(bb)


def damaged_decode(c, bad, flags, probe):
    try:
        got = c.dec.decompress(bad)
    except NotImplementedError:
        return 'notimpl'
    except ANY as e:
        probe('damage-detected')
        return 'raise'
    probe('damage-undetected')
    return 'ok'


def solo_check(case, conns, history, probe):
    """Re-run every connection alone, with fresh endpoints, and require the
    byte-identical frames and the same decoded messages it produced while
    interleaved with the others."""
    for ci, hist in sorted(history.items()):
        spec = case['conns'][ci]
        solo = None
        gen = None
        for (g, host, x, y) in hist:
            if g != gen:
                solo = Conn(spec)
                gen = g
            try:
                if host is None:
                    what = 'message decoded'
                    y2 = sorted(normalise(solo.dec.decompress(x)))
                    probe('solo-decodes')
                else:
                    what = 'frame encoded'
                    y2 = tobytes(solo.enc.compress(OrderedDict(x.items()), host))
                    probe('solo-frames')
            except ANY as e:
                y2 = 'raise:' + excname(e)
            if y2 != y:
                raise Violation(
                    'isolation', 'conn %d (%s): the %s alone differs from the one '
                    'made while others were active' % (ci, spec['codec'], what))


def reach_bytes(root, limit=2000000):
    """Total length of the byte/unicode strings and number of container slots
    reachable from an object's own state (not from classes or modules)."""
    seen = set()
    stack = [root]
    total = 0
    slots = 0
    n = 0
    while stack:
        o = stack.pop()
        n += 1
        if n > limit:
            break
        if o is None or isinstance(o, (int, float, bool)):
            continue
        i = id(o)
        if i in seen:
            continue
        seen.add(i)
        if isinstance(o, (bytes, str)) or (PY2 and isinstance(o, unicode)):
            total += len(o)
            continue
        if isinstance(o, bytearray):
            total += len(o)
            continue
        if isinstance(o, dict):
            for k, v in list(o.items()):
                stack.append(k)
                stack.append(v)
                slots += 1
            continue
        if isinstance(o, (list, tuple, set, frozenset)) or \
                type(o).__name__ == 'deque':
            for x in list(o):
                stack.append(x)
                slots += 1
            continue
        if isinstance(o, (type, type(sys), type(reach_bytes))):
            continue
        d = getattr(o, '__dict__', None)
        if isinstance(d, dict) or d is not None and hasattr(d, 'items'):
            for k, v in list(d.items()):
                stack.append(v)
            continue
        sl = getattr(type(o), '__slots__', None)
        if sl:
            for k in sl:
                if hasattr(o, k):
                    stack.append(getattr(o, k))
    return total, slots


def check_mem(c, probe, stats):
    """State reachable from either endpoint beyond what a fresh endpoint holds,
    against the budget the connection was configured with."""
    if c.base is None:
        f = c.fresh()
        c.base = reach_bytes(f)
    b = c.spec['bound']
    for who, ep in (('encoder', c.enc), ('decoder', c.dec)):
        by, sl = reach_bytes(ep)
        by -= c.base[0]
        sl -= c.base[1]
        lim = b['bytes'] + b['per'] * c.big
        slim = b['slots'] + b['sper'] * c.big
        stats['maxfill%'] = max(stats.get('maxfill%', 0),
                                100 * by // lim, 100 * sl // slim)
        probe('mem-checked')
        if by > lim or sl > slim:
            raise Violation('unbounded-state', '%s %s: %s holds %d bytes in %d '
                            'slots beyond a fresh one; allowed %d / %d'
                            % (c.spec['codec'], c.spec['params'], who, by, sl,
                               lim, slim))
