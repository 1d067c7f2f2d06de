"""Independent reader for the codecs that only have an encoder: the streams of
http1_gzip, http1_huffman and spdy3 are inflated and parsed here, one message at
a time, with code that shares nothing with the codecs (CPython 3)."""
import struct
import zlib


class Reader(object):
    def __init__(self, spec):
        self.spec = spec
        self.reset()

    def reset(self):
        self.inf = zlib.decompressobj()
        c = self.spec['codec']
        if c != 'spdy3' or 'dict' in self.spec['params']:
            from compressor import spdy_dictionary
            d = spdy_dictionary.spdy_dict
            if not isinstance(d, bytes):
                d = d.encode('latin-1')
            prime = zlib.compressobj(9, zlib.DEFLATED, 15)
            self.inf.decompress(prime.compress(d)
                                + prime.flush(zlib.Z_SYNC_FLUSH))

    def on_frame(self, hdrs, host, fb, probe, Violation, normalise):
        spdy = self.spec['codec'] == 'spdy3'
        try:
            raw = self.inf.decompress(fb[12:] if spdy else fb)
            if self.inf.unconsumed_tail or self.inf.unused_data or self.inf.eof:
                raise ValueError('bytes left over after the message')
            got = spdy_pairs(fb[:12] + raw) if spdy else \
                http1_pairs(raw, self.spec['req'])
        except (zlib.error, ValueError, struct.error, UnicodeDecodeError,
                IndexError) as e:
            raise Violation('unreadable', 'message cannot be read back as soon '
                            'as it was sent: %s: %s' % (type(e).__name__, e))
        probe('inflated')
        a = normalise(hdrs)
        b = set()
        for k, v in got:
            for x in normalise({k: v}):
                b.add(x)
        if a != b:
            raise Violation('unreadable', 'read back differently: lost %r; '
                            'invented %r' % (sorted(a - b)[:3], sorted(b - a)[:3]))


def spdy_pairs(raw):
    out, i = [], 0

    def take():
        nonlocal i
        n, = struct.unpack('!L', raw[i:i + 4])
        if i + 4 + n > len(raw):
            raise ValueError('length runs past the end of the message')
        s = raw[i + 4:i + 4 + n]
        i += 4 + n
        return s.decode('utf-8')
    while i < len(raw):
        k = take()
        out.append((k, take()))
    return out


def http1_pairs(raw, req):
    text = raw.decode('utf-8')
    if not text.endswith('\r\n\r\n'):
        raise ValueError('no empty line at the end of the message')
    lines = text[:-4].split('\r\n')
    top = lines[0].split(' ', 2)
    if req:
        out = [(':method', top[0]), (':path', top[1])]
    else:
        out = [(':status', top[1])]
    for l in lines[1:]:
        at = l.index(': ', 1)
        k = l[:at]
        if '\0' in l:
            raise ValueError('NUL inside a line')
        out.append((':host' if k == 'host' and req else k, l[at + 2:]))
    return out


def make(spec):
    return Reader(spec)
