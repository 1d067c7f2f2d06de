"""An independent peer for the http2 (HPACK draft) and headerdiff wire formats.

Written from the format descriptions, sharing no code with the codecs.  Every
peer can decode a frame strictly (on_frame) and produce a frame with randomly
chosen legal representations (make_frame).  Python 2 only (Jython).
"""
import random
import zlib

H2_REQ = [(":scheme", "http"), (":scheme", "https"), (":host", ""),
          (":path", "/"), (":method", "get"), ("accept", ""),
          ("accept-charset", ""), ("accept-encoding", ""),
          ("accept-language", ""), ("cookie", ""), ("if-modified-since", ""),
          ("user-agent", ""), ("referer", ""), ("authorization", ""),
          ("allow", ""), ("cache-control", ""), ("connection", ""),
          ("content-length", ""), ("content-type", ""), ("date", ""),
          ("expect", ""), ("from", ""), ("if-match", ""),
          ("if-none-match", ""), ("if-range", ""), ("if-unmodified-since", ""),
          ("max-forwards", ""), ("proxy-authorization", ""), ("range", ""),
          ("via", "")]
H2_RES = [(":status", "200"), ("age", ""), ("cache-control", ""),
          ("content-length", ""), ("content-type", ""), ("date", ""),
          ("etag", ""), ("expires", ""), ("last-modified", ""), ("server", ""),
          ("set-cookie", ""), ("vary", ""), ("via", ""),
          ("access-control-allow-origin", ""), ("accept-ranges", ""),
          ("allow", ""), ("connection", ""), ("content-disposition", ""),
          ("content-encoding", ""), ("content-language", ""),
          ("content-location", ""), ("content-range", ""), ("link", ""),
          ("location", ""), ("proxy-authenticate", ""), ("refresh", ""),
          ("retry-after", ""), ("strict-transport-security", ""),
          ("transfer-encoding", ""), ("www-authenticate", "")]
HD_REQ = ['accept', 'accept-charset', 'accept-encoding', 'accept-language',
          'cookie', ':method', 'host', 'if-modified-since', 'keep-alive',
          ':host', ':scheme', ':path', 'user-agent', ':version',
          'proxy-connection', 'referer', 'accept-datetime', 'authorization',
          'allow', 'cache-control', 'connection', 'content-length',
          'content-md5', 'content-type', 'date', 'expect', 'from', 'if-match',
          'if-none-match', 'if-range', 'if-unmodified-since', 'max-forwards',
          'pragma', 'proxy-authorization', 'range', 'te', 'upgrade', 'via',
          'warning']
HD_RES = ['age', 'cache-control', 'content-length', 'content-type', 'date',
          'etag', 'expires', 'last-modified', 'server', 'set-cookie',
          ':status', 'vary', ':version', 'via', ':status-text',
          'access-control-allow-origin', 'accept-ranges', 'allow',
          'connection', 'content-disposition', 'content-encoding',
          'content-language', 'content-location', 'content-md5',
          'content-range', 'link', 'location', 'p3p', 'pragma',
          'proxy-authenticate', 'refresh', 'retry-after',
          'strict-transport-security', 'trailer', 'transfer-encoding',
          'warning', 'www-authenticate']


class Bad(Exception):
    pass


def param(spec, name, default):
    for p in spec['params']:
        if p.split('=')[0] == name and '=' in p:
            return p.split('=', 1)[1]
    return default


class Reader(object):
    def __init__(self, s):
        self.s = s
        self.i = 0

    def byte(self):
        if self.i >= len(self.s):
            raise Bad('frame ends inside a representation')
        b = ord(self.s[self.i])
        self.i += 1
        return b

    def more(self, v, limit):
        """continuation of an integer whose prefix was all ones"""
        if v == limit:
            shift = 0
            while True:
                b = self.byte()
                v += (b & 0x7f) << shift
                shift += 7
                if not b & 0x80:
                    break
                if shift > 56:
                    raise Bad('integer too long')
        return v

    def integer(self, first, bits):
        limit = (1 << bits) - 1
        return self.more(first & limit, limit)

    def string(self):
        n = self.more(0, 0)
        if self.i + n > len(self.s):
            raise Bad('string runs past the end of the frame')
        v = self.s[self.i:self.i + n]
        self.i += n
        return v


def put_int(first, bits, v):
    """bits <= 8"""
    limit = (1 << bits) - 1
    if bits and v < limit:
        return chr(first | v)
    out = chr(first | limit) if bits else ''
    v -= limit
    while True:
        if v >= 0x80:
            out += chr(0x80 | (v & 0x7f))
            v >>= 7
        else:
            return out + chr(v)


def put_str(s):
    return put_int(0, 0, len(s)) + s


def unframe(fb):
    if len(fb) < 8:
        raise Bad('frame shorter than its header')
    n = (ord(fb[0]) << 8) | ord(fb[1])
    if n != (len(fb) - 8) % 65536:
        raise Bad('frame length field %d, payload %d' % (n, len(fb) - 8))
    return fb[8:]


def frame(payload):
    n = len(payload) % 65536
    return chr(n >> 8) + chr(n & 255) + '\0' * 6 + payload


class H2(object):
    def __init__(self, spec):
        self.spec = spec
        self.reset()

    def reset(self):
        self.max = int(param(self.spec, 'buffer_size', 4096))
        self.t = [[h, False] for h in (H2_REQ if self.spec['req'] else H2_RES)]

    def size(self):
        return sum(len(n) + len(v) + 32 for (n, v), _ in self.t)

    @staticmethod
    def cost(h):
        return len(h[0]) + len(h[1]) + 32

    def append(self, h):
        need = self.cost(h)
        size = self.size()
        while self.t and size + need > self.max:
            size -= self.cost(self.t[0][0])
            del self.t[0]
        if size + need <= self.max:
            self.t.append([h, True])

    def substitute(self, h, i):
        need = self.cost(h)
        size = self.size()
        old = self.cost(self.t[i][0])
        # the replaced entry does not count unless it has been dropped itself
        while self.t and size - (old if i >= 0 else 0) + need > self.max:
            size -= self.cost(self.t[0][0])
            del self.t[0]
            i -= 1
        if size - (old if i >= 0 else 0) + need <= self.max:
            if i >= 0:
                self.t[i] = [h, True]
            else:
                self.t.insert(0, [h, True])

    def entry(self, i):
        if i >= len(self.t):
            raise Bad('index %d outside a table of %d' % (i, len(self.t)))
        return self.t[i]

    def decode(self, fb, probe):
        r = Reader(unframe(fb))
        out = []
        while r.i < len(r.s):
            b = r.byte()
            if b & 0x80:
                e = self.entry(r.integer(b, 7))
                if e[1]:
                    e[1] = False
                    probe('ref-removed')
                else:
                    e[1] = True
                    out.append(e[0])
                continue
            if b & 0xC0 == 0:
                ni = r.integer(b, 6)
            else:
                ni = r.integer(b, 5)
            name = r.string() if ni == 0 else self.entry(ni - 1)[0][0]
            if b & 0xC0 == 0:
                at = r.integer(0, 0)
                self.entry(at)
            h = (name, r.string())
            out.append(h)
            n = len(self.t)
            if b & 0xC0 == 0:
                self.substitute(h, at)
            elif b & 0xE0 == 0x40:
                self.append(h)
                if len(self.t) <= n:
                    probe('evicted')
        for h, ref in self.t:
            if ref:
                out.append(h)
        return out

    def encode(self, want, rng, probe):
        want = list(want)
        rng.shuffle(want)
        wset = set(want)
        emitted = set()
        out = ''
        steps = 0
        while True:
            inref = set(h for h, ref in self.t if ref)
            stale = [i for i, (h, ref) in enumerate(self.t)
                     if ref and h not in wset]
            todo = [h for h in want if h not in emitted and h not in inref]
            if not stale and not todo:
                break
            steps += 1
            if stale and (not todo or rng.random() < 0.5):
                i = rng.choice(stale)
                out += put_int(0x80, 7, i)
                self.t[i][1] = False
                continue
            h = todo[0] if steps > 300 else rng.choice(todo)
            at = [i for i, (x, ref) in enumerate(self.t) if x == h]
            if at and rng.random() < 0.8:
                i = at[0]
                out += put_int(0x80, 7, i)
                self.t[i][1] = True
                emitted.add(h)
                continue
            names = [i for i, (x, ref) in enumerate(self.t) if x[0] == h[0]]
            ni = rng.choice(names) + 1 if names and rng.random() < 0.85 else 0
            mode = rng.choice(['none', 'inc', 'inc', 'sub', 'sub'])
            if mode == 'sub' and not self.t or steps > 300:
                mode = 'none'
            first, bits = {'none': (0x60, 5), 'inc': (0x40, 5),
                           'sub': (0x00, 6)}[mode]
            out += put_int(first, bits, ni)
            if ni == 0:
                out += put_str(h[0])
            if mode == 'sub':
                i = rng.randrange(len(self.t))
                out += put_int(0, 0, i)
            out += put_str(h[1])
            emitted.add(h)
            probe('peer-' + mode)
            if mode == 'inc':
                self.append(h)
            elif mode == 'sub':
                n = len(self.t)
                self.substitute(h, i)
                if len(self.t) < n:
                    probe('peer-sub-evicts')
        return frame(out)


class HD(object):
    def __init__(self, spec):
        self.spec = spec
        self.reset()

    def reset(self):
        self.max = int(param(self.spec, 'buffer', 32768))
        self.t = []
        self.names = list(HD_REQ if self.spec['req'] else HD_RES)
        w = param(self.spec, 'deflate', None)
        self.inf = self.defl = None
        if w is not None:
            from compressor import spdy_dictionary
            self.defl = zlib.compressobj(6, zlib.DEFLATED, int(w), 8)
            prime = self.defl.compress(spdy_dictionary.spdy_dict)
            prime += self.defl.flush(zlib.Z_SYNC_FLUSH)
            self.inf = zlib.decompressobj()
            self.inf.decompress(prime)

    def size(self):
        return sum(len(v) for n, v in self.t)

    def at(self, i):
        if i >= len(self.t):
            raise Bad('index %d outside a table of %d' % (i, len(self.t)))
        return self.t[i]

    def decode(self, fb, probe):
        p = unframe(fb)
        if self.inf is not None:
            p = self.inf.decompress(p)
        r = Reader(p)
        nb = r.byte()
        out = []
        for _ in range(nb):
            b = r.byte()
            if b & 0x80:
                if b & 0x40:
                    hi = b & 0x3f
                    lo = r.byte()
                    i = 64 + r.more((hi << 8) | lo, 0x3fff)
                    probe('long-index')
                else:
                    i = b & 0x3f
                out.append(self.at(i))
                continue
            inc, sub = (b & 0x30) == 0x20, (b & 0x30) == 0x30
            bits = 4 if inc or sub else 5
            if b & 0x40:
                ri = r.integer(b, bits)
                name, base = self.at(ri)
                k = r.more(0, 0)
                if k > len(base):
                    raise Bad('prefix longer than the value it comes from')
                value = base[:k] + r.string()
                probe('delta-repr')
            else:
                ni = r.integer(b, bits)
                if ni == 0:
                    name = r.string()
                    self.names.append(name)
                else:
                    if ni > len(self.names):
                        raise Bad('name index %d of %d' % (ni, len(self.names)))
                    name = self.names[ni - 1]
                if sub:
                    ri = r.more(0, 0)
                    self.at(ri)
                value = r.string()
            out.append((name, value))
            if sub:
                self.t[ri] = (name, value)
                probe('substituted')
            elif inc:
                self.t.append((name, value))
            if self.size() > self.max:
                raise Bad('table holds %d bytes of values, allowed %d'
                          % (self.size(), self.max))
        if r.i != len(p):
            raise Bad('%d bytes after the last header' % (len(p) - r.i))
        return out

    def encode(self, want, rng, probe):
        want = list(want)
        rng.shuffle(want)
        want = want[:255]
        out = chr(len(want))
        for h in want:
            at = [i for i, x in enumerate(self.t) if x == h]
            if at and rng.random() < 0.8:
                i = rng.choice(at)
                if i < 64:
                    out += chr(0x80 | i)
                else:
                    i -= 64
                    if i < 0x3fff:
                        out += chr(0xc0 | (i >> 8)) + chr(i & 255)
                    else:
                        raise Bad('peer: table too long')
                continue
            same = [i for i, x in enumerate(self.t) if x[0] == h[0]]
            delta = same and rng.random() < 0.6
            mode = rng.choice(['none', 'inc', 'inc', 'sub'])
            room = self.max - self.size()
            ri = None
            if delta:
                ri = rng.choice(same)
            elif mode == 'sub':
                if self.t:
                    ri = rng.randrange(len(self.t))
                else:
                    mode = 'none'
            if mode == 'inc' and len(h[1]) > room:
                mode = 'none'
            if mode == 'sub' and len(h[1]) - len(self.t[ri][1]) > room:
                mode = 'none'
            flag = {'none': 0, 'inc': 0x20, 'sub': 0x30}[mode]
            bits = 5 if mode == 'none' else 4
            if delta:
                base = self.t[ri][1]
                k = 0
                while k < min(len(base), len(h[1])) and base[k] == h[1][k]:
                    k += 1
                if rng.random() < 0.3:
                    k = rng.randint(0, k)
                out += put_int(0x40 | flag, bits, ri) + put_int(0, 0, k)
                out += put_str(h[1][k:])
            else:
                ns = [i for i, x in enumerate(self.names) if x == h[0]]
                ni = rng.choice(ns) + 1 if ns and rng.random() < 0.9 else 0
                out += put_int(flag, bits, ni)
                if ni == 0:
                    out += put_str(h[0])
                    self.names.append(h[0])
                if mode == 'sub':
                    out += put_int(0, 0, ri)
                out += put_str(h[1])
            probe('peer-%s%s' % ('delta-' if delta else '', mode))
            if mode == 'inc':
                self.t.append(h)
            elif mode == 'sub':
                self.t[ri] = h
        if self.defl is not None:
            out = self.defl.compress(out) + self.defl.flush(zlib.Z_SYNC_FLUSH)
        return frame(out)


KINDS = {'http2': H2, 'headerdiff': HD}


class Peers(object):
    """The two reference peers of one connection: one reads what the real
    encoder writes, one writes what the real decoder reads."""

    def __init__(self, spec):
        self.reader = KINDS[spec['codec']](spec)
        self.writer = KINDS[spec['codec']](spec)

    def reset(self):
        self.reader.reset()
        self.writer.reset()

    def on_frame(self, hdrs, host, fb, probe, Violation, normalise):
        try:
            got = self.reader.decode(fb, probe)
        except Bad as e:
            raise Violation('wire', 'an independent decoder refuses the frame: '
                            '%s' % e)
        a, b = normalise(hdrs), normalise(join(got))
        if a != b:
            raise Violation('wire', 'an independent decoder reads it '
                            'differently: lost %r; invented %r'
                            % (sorted(a - b)[:3], sorted(b - a)[:3]))

    def make_frame(self, hdrs, seed, probe, normalise):
        rng = random.Random(seed)
        return self.writer.encode(sorted(normalise(hdrs)), rng, probe)


def join(pairs):
    out = {}
    for k, v in pairs:
        if k in out:
            out[k] += (';' if k == 'cookie' else '\0') + v
        else:
            out[k] = v
    return out


def make(spec):
    return Peers(spec)
