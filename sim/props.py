"""The properties: what each simulated run contains and what decides it."""
import gen_codec


class Prop(object):
    world = 'codec'
    runtime = 'jython'
    recycle = 400
    case_timeout = 30
    quick_n, thorough_n = 400, 20000
    quick_wall, thorough_wall = 40, 780
    nworkers = 8
    minimum = 60
    faults = ()
    simtime = ('no clock is read by the code under test; simulated time is the '
               'number of events')
    real, stub, assumptions = [], [], []
    expected_probes = ()
    rule = ''

    def count(self, tier):
        return self.quick_n if tier == 'quick' else self.thorough_n

    def wall(self, tier):
        return self.quick_wall if tier == 'quick' else self.thorough_wall

    def runtimes(self, tier):
        return [(self.runtime, self.nworkers)]

    def runtime_of(self, i):
        return self.runtime

    def prepare(self):
        pass

    def matches(self, finding, case, r):
        return False

    def nontrivial(self, case, r):
        return True


def pick(r, name, vals, p):
    return ['%s=%s' % (name, r.choice(vals))] if r.random() < p else []


def p_http2(r):
    return pick(r, 'buffer_size', [0, 40, 100, 200, 300, 500, 800, 1200, 2000,
                                   4096, 8192], 0.7)


def p_headerdiff(r, deflate=0.2, huffman=0.35):
    p = pick(r, 'buffer', [0, 20, 50, 100, 200, 500, 1000, 5000, 9999, 32768], 0.6)
    p += pick(r, 'delta', ['true', 'false'], 0.4)
    if r.random() < 0.5:
        p.append(r.choice(['delta_type', 'delta_type=5', 'delta_type=1',
                           'delta_type=2', 'delta_type="/&= "',
                           "delta_type='/?=\\coma'", 'delta_type=0']))
    if r.random() < huffman:
        p.append('huffman')
    if r.random() < deflate:
        p.append('deflate=%d' % r.choice([9, 10, 12, 15]))
    return p


def p_delta2(r):
    p = pick(r, 'max_byte_size', [0, 40, 100, 200, 500, 1000, 4096, 20000], 0.7)
    p += pick(r, 'max_entries', [0, 1, 2, 5, 20, 100, 1000], 0.6)
    for o in ['hg_adjust', 'implicit_hg_add', 'small_index', 'refcnt_vals',
              'only_etoggles', 'varint_encoding', 'idx_from_end']:
        x = r.random()
        if x < .25:
            p.append(o + '=1')
        elif x < .5:
            p.append(o + '=0')
    return p


def p_delta(r):
    p = pick(r, 'max_entries', [0, 1, 2, 5, 10, 20, 50, 200], 0.6)
    p += pick(r, 'max_byte_size', [0, 20, 100, 200, 500, 1000, 2000], 0.6)
    return p


def p_simple(r):
    p = []
    x = r.random()
    if x < 0.3:
        p.append('huffman')
    elif x < 0.5:
        p.append('seven')
    if r.random() < 0.5:
        p.append('date')
    p += pick(r, 'max_entries', [0, 1, 2, 5, 20], 0.5)
    r.shuffle(p)
    return p


PARAMS = {'http2': p_http2, 'headerdiff': p_headerdiff, 'delta2': p_delta2,
          'delta': p_delta, 'simple': p_simple}
ALLBYTES = list(range(1, 256))
FULL = {'bytes': ALLBYTES, 'alphas': ['ascii', 'url', 'few', 'byte', 'mix']}
BRK = '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\xe9\u20ac'
TEXT = {'alphas': ['ascii', 'url', 'few']}


class Codec(Prop):
    """Exact delivery by one codec."""
    codecs = ()
    flags = {}
    dom = {}
    march = 0               # one run in so many is a very long life
    wide = 0                # one run in so many has a very large table
    faults = ('crash', 'reset_inflight')
    rule = ('a run is one seeded world of 1-3 connections; it is trivial unless '
            'at least 3 messages were encoded and 2 delivered and compared')
    stub = ['the transport (an in-memory FIFO of frames the scheduler delivers '
            'from)', 'the peer process (both ends live in one interpreter)']

    def spec(self, r):
        c = r.choice(self.codecs)
        return c, PARAMS[c](r) if c in PARAMS else []

    def gen(self, seed, i, tier):
        c = None
        if self.march and i % self.march == 5:
            c = gen_codec.make_march(seed, self.spec, self.dom, dict(self.flags))
        elif self.wide and i % self.wide == 7:
            c = gen_codec.make_wide(seed, self.spec, self.dom, dict(self.flags))
        if c is None:
            c = gen_codec.make(seed, self.spec, self.dom, dict(self.flags), tier)
        c['rt'] = self.runtime
        return c

    def nontrivial(self, case, r):
        s = r['stats']
        return s.get('frames', 0) >= 3 and s.get('delivered', 0) >= 2


class C01(Codec):
    id = 'C01'
    codecs = ('http2',)
    wide = 40
    dom = dict(FULL, pmany=0.1, manys=[20, 60, 130], phosts=0.005, pbig=0.01,
               bigs=[2000, 5000, 17000, 70000])
    quick_n, thorough_n = 1600, 60000
    real = ['compressor/http2 (encoder, decoder, table, integer and string coding)']


class C02(Codec):
    id = 'C02'
    codecs = ('headerdiff',)
    wide = 40
    dom = dict(FULL, pmany=0.1, manys=[20, 60, 100], phosts=0.005, pbig=0.01,
               bigs=[2000, 5000, 17000, 40000], maxhdrs=30)
    quick_n, thorough_n = 1600, 60000
    march = 100
    real = ['compressor/headerdiff (encoder, decoder, name and header tables, '
            'delta, Huffman, Deflate)']


class C03(Codec):
    id = 'C03'
    codecs = ('delta2',)
    dom = dict(FULL, pmany=0.06, manys=[17, 20, 40, 130, 300], phosts=0.002,
               pbig=0.003, bigs=[2000, 5000, 17000, 17000, 70000, 140000],
               plong=0.01)
    quick_n, thorough_n = 480, 20000
    quick_wall = 50
    march = 80
    real = ['compressor/delta2 (operations, LruStorage, header groups, Huffman, '
            'bit bucket, framing)']


class C04(Codec):
    id = 'C04'
    codecs = ('delta',)
    dom = dict(FULL, pmany=0.06, manys=[17, 20, 40, 130, 300], phosts=0.002,
               pbig=0.003, bigs=[2000, 5000, 17000, 17000, 70000, 140000],
               plong=0.01)
    quick_n, thorough_n = 480, 20000
    quick_wall = 50
    march = 80
    real = ['compressor/delta (Python: operations, Storage, header groups, '
            'Huffman, bit bucket, framing)']


class C05(Codec):
    id = 'C05'
    codecs = ('simple',)
    dom = dict(TEXT, status_text=True, realdates=True, brk=BRK[:5], pmany=0.05, manys=[20, 60],
               phosts=0.005, pbig=0.01, bigs=[2000, 17000, 70000])
    quick_n, thorough_n = 1600, 60000
    real = ['compressor/simple (references, tokens, dates, seven-bit and Huffman '
            'coding)', 'compressor.format_http1 and parse_http1']
    stub = Codec.stub + ['bitarray (pure-Python stand-in with the same interface, '
                         'for the seven-bit option only)']


class C06(Codec):
    id = 'C06'
    runtime = 'py3'
    codecs = ('http1', 'hyper_hpack')
    flags = {'exact': 1}
    dom = dict(TEXT, status_text=True, brk=BRK, pmany=0.05, manys=[20, 60],
               phosts=0.005, pbig=0.01, bigs=[2000, 17000])
    quick_n, thorough_n = 6000, 400000
    quick_wall = 25
    real = ['compressor/http1, compressor.format_http1 and parse_http1',
            'compressor/hyper_hpack']
    stub = Codec.stub + ['hpack is the real installed library']


def p_z(r):
    c = r.choice(['http1_gzip', 'http1_huffman', 'spdy3', 'spdy3'])
    return c, ['dict'] if c == 'spdy3' and r.random() < 0.5 else []


class C07(Codec):
    id = 'C07'
    runtime = 'py3'
    flags = {'oracle': 1, 'nodec': 1}
    dom = dict(TEXT, status_text=True, brk=BRK, pmany=0.05, manys=[20, 60],
               phosts=0.005, pbig=0.02, bigs=[2000, 17000, 40000, 70000, 140000])
    quick_n, thorough_n = 6000, 400000
    quick_wall = 25
    real = ['compressor/http1_gzip, http1_huffman, spdy3 (encoders)',
            'compressor.format_http1']
    stub = Codec.stub + ['the receiver: an independent inflater and parser '
                         '(sim/exec/zref.py)']
    rule = ('a run is one seeded world of 1-3 connections; it is trivial unless '
            'at least 3 messages were sent and read back one by one')

    def spec(self, r):
        return p_z(r)

    def nontrivial(self, case, r):
        return r['stats'].get('frames', 0) >= 3


def bound(codec, params):
    """Allowed state beyond a fresh endpoint.  'bytes' and 'slots' come from
    the configured budget, 'per'/'sper' scale with the largest message seen
    (working copies of a message are not the compression state)."""
    d = dict(p.split('=', 1) for p in params if '=' in p)
    if codec == 'http2':
        b = int(d.get('buffer_size', 4096))
        e = b // 32
    elif codec == 'headerdiff':
        b = int(d.get('buffer', 32768))
        e = b
    elif codec == 'delta2':
        b = int(d.get('max_byte_size', 4096))
        e = min(int(d.get('max_entries', 1024)), b)
    else:
        b = int(d.get('max_byte_size', 16384))
        e = min(int(d.get('max_entries', 4096)), b)
    # Huffman codes of rare characters are longer than the characters
    per = 3 if any(p.startswith('huffman') for p in params) else 1
    return {'bytes': (3 if codec == 'headerdiff' else 2) * b + 600, 'per': per, 'slots': 4 * e + 400, 'sper': 0.2}


def small(name, r):
    return '%s=%d' % (name, r.choice([0, 20, 60, 100, 150, 250, 400, 800, 2000]))


def new_names(codec, r):
    # headerdiff by its design never forgets a name
    return 0 if codec == 'headerdiff' else r.choice([0, 0.1, 0.6])


class C08(Codec):
    id = 'C08'
    codecs = ('http2', 'headerdiff', 'delta2', 'delta')
    flags = {'mem': 1, 'nocheck': 1}
    dom = dict(FULL, bound=bound, names=new_names, pchurn=0.1, nconns=[1, 1, 2],
               nops=[60, 120, 200], plong=0, maxval=200)
    quick_n, thorough_n = 260, 8000
    quick_wall = 45
    faults = ('crash', 'reset_inflight')
    expected_probes = ('mem-checked',)
    real = ['compressor/http2, headerdiff, delta2, delta (both ends)']
    rule = ('a run is one seeded world of 1-2 long connections; it is trivial '
            'unless the state of an endpoint was measured at least once')

    def spec(self, r):
        c = r.choice(self.codecs)
        p = PARAMS[c](r)
        key = {'http2': 'buffer_size', 'headerdiff': 'buffer'}.get(c)
        if key is None:
            key = 'max_byte_size'
            if r.random() < 0.3:
                return c, p
            p = [x for x in p if not x.startswith('max_entries')
                 or r.random() < 0.5]
        p = [x for x in p if x.split('=')[0] != key] + [small(key, r)]
        return c, p

    def nontrivial(self, case, r):
        return r['probes'].get('mem-checked', 0) > 0


class C09(Codec):
    id = 'C09'
    codecs = ('http2', 'headerdiff')
    wide = 40
    flags = {'oracle': 1}
    dom = dict(FULL, peer=0.5, pmany=0.08, manys=[20, 60], pbig=0.005,
               bigs=[2000, 5000, 17000], maxhdrs=30)
    quick_n, thorough_n = 1600, 60000
    real = ['compressor/http2 and compressor/headerdiff: the encoder against a '
            'reference decoder, the decoder against a reference encoder']
    stub = ['the other party (sim/exec/refdec.py) and the transport']
    expected_probes = ('evicted', 'ref-removed', 'substituted', 'delta-repr',
                       'long-index', 'peer-sub', 'peer-inc', 'peer-none',
                       'peer-sub-evicts', 'peer-delta-inc', 'peer-delta-sub')
    rule = ('a run is one seeded world of 1-3 connections, each with a reference '
            'peer on one side; trivial unless 3 messages were delivered')

    def spec(self, r):
        c = r.choice(self.codecs)
        return c, p_http2(r) if c == 'http2' else p_headerdiff(r, 0.2, 0)

    def nontrivial(self, case, r):
        return r['stats'].get('delivered', 0) >= 3


ENC3 = ('http1', 'http1_gzip', 'http1_huffman', 'spdy3', 'hyper_hpack')


class C10(Codec):
    id = 'C10'
    codecs = ('http2', 'headerdiff', 'delta2', 'delta', 'simple', 'delta_bohe')
    flags = {'isolation': 1, 'nocheck': 1}
    dom = dict(TEXT, status_text=True, nconns=[2, 2, 3, 4], plong=0.01,
               maxhdrs=25)
    quick_n, thorough_n = 1200, 60000
    quick_wall = 45
    real = ['every codec except fork and those that cannot be imported on any '
            'installed interpreter (bohe, delta2_bohe)']
    expected_probes = ('solo-frames', 'solo-decodes')
    rule = ('a run is one seeded world of 2-4 connections (possibly of different '
            'codecs), interleaved, then each re-run alone; trivial unless at '
            'least two connections were active')

    def runtimes(self, tier):
        return [('jython', 6), ('py3', 2)]

    def runtime_of(self, i):
        return 'py3' if i % 4 == 3 else 'jython'

    def gen(self, seed, i, tier):
        rt = self.runtime_of(i)
        import random
        r = random.Random(seed + ':mix')
        pool = self.codecs if rt == 'jython' else ENC3
        k = r.choice([1, 1, 2, 3])      # often the same codec on every connection
        chosen = r.sample(pool, k)

        def spec(r2):
            c = r2.choice(chosen)
            if c == 'spdy3':
                return c, ['dict'] if r2.random() < 0.5 else []
            return c, PARAMS[c](r2) if c in PARAMS and c != 'simple' else \
                [x for x in p_simple(r2)] if c == 'simple' else []
        c = gen_codec.make(seed, spec, self.dom, dict(self.flags), tier)
        c['rt'] = rt
        return c

    def nontrivial(self, case, r):
        return (r['stats'].get('switches', 0) >= 2
                and r['probes'].get('solo-frames', 0) >= 3)


class C11(Codec):
    id = 'C11'
    codecs = ('http2', 'headerdiff', 'delta2', 'delta', 'simple')
    dom = dict(TEXT, status_text=True, realdates=True, tear=1, maxhdrs=20,
               nops=[6, 12, 25], plong=0, pstorm=0.3)
    quick_n, thorough_n = 1200, 60000
    quick_wall = 45
    faults = ('crash', 'reset_inflight', 'tear', 'flip', 'swap')
    real = ['the decoders of http2, headerdiff, delta2, delta and simple']
    expected_probes = ('damage-detected', 'damage-undetected')
    rule = ('a run is one seeded world of 1-3 connections; trivial unless at '
            'least one frame was torn or damaged and a message was delivered '
            'in full afterwards')

    def gen(self, seed, i, tier):
        c = Codec.gen(self, seed, i, tier)
        return c

    def nontrivial(self, case, r):
        s = r['stats']
        return s['tear'] + s['flip'] + s['swap'] > 0 and s['delivered'] > 0


def budget(codec, params):
    d = dict(p.split('=', 1) for p in params if '=' in p)
    if codec == 'http2':
        return int(d.get('buffer_size', 4096))
    if codec == 'headerdiff':
        return int(d.get('buffer', 32768))
    return int(d.get('max_byte_size', 4096 if codec == 'delta2' else 16384))


class C12(Codec):
    id = 'C12'
    codecs = ('http2', 'delta2', 'delta', 'simple')
    quick_n, thorough_n = 500, 16000
    quick_wall = 45
    faults = ()
    expected_probes = ('settled', 'settled-equal')
    real = ['compressor/http2, delta2, delta, simple (encoders)']
    rule = ('a run is one seeded world of one long connection; it is trivial '
            'unless the cost of a repeated header set was measured at least once')

    def spec(self, r):
        c = r.choice(self.codecs + ('delta2', 'delta'))
        p = PARAMS[c](r)
        key = {'http2': 'buffer_size', 'headerdiff': 'buffer'}.get(
            c, 'max_byte_size')
        p = [x for x in p if x.split('=')[0] not in (key, 'max_entries', 'deflate')]
        if r.random() < 0.8:
            lo = 700 if c == 'http2' else 250
            p.append('%s=%d' % (key, r.choice([lo, lo, lo + 100, lo + 400, 1500])))
        if c in ('delta', 'delta2') and r.random() < 0.3:
            p.append('max_entries=%d' % r.choice([24, 40, 80]))
        return c, p

    def gen(self, seed, i, tier):
        c = gen_codec.make_steady(seed, self.spec, budget,
                                  {'nodec': 1})
        c['rt'] = self.runtime
        return c

    def nontrivial(self, case, r):
        return r['probes'].get('settled', 0) > 0


import gen_tool


class Tool(Prop):
    world = 'tool'
    runtime = 'py3'
    recycle = 3000
    quick_n, thorough_n = 8000, 600000
    quick_wall = 30
    dom, flags = {}, {}
    real = ['compare_compressors.CompressionTester, lib/harfile, lib/processors, '
            'lib/stream, lib/streamifiers', 'http1, http1_gzip, http1_huffman, '
            'spdy3, hyper_hpack where a run names them']
    stub = ['codecs sima, simb, simc (scripted)', 'CPU and wall clocks',
            'the raw file layer (real files in a scratch directory, behind reads '
            'and writes that are split or fail as the case says)']
    simtime = ('CPU time is advanced by the simulated codecs; the wall clock jumps '
               'up to 10^6 s per message')
    assumptions = ['publicsuffix and hpack, as installed, are trusted']

    def gen(self, seed, i, tier):
        return gen_tool.make(seed, self.dom, dict(self.flags))


class T01(Tool):
    id = 'T01'
    dom = dict(pbad=0.08, pni=0.06, pexc=0.005, pdebug=0.2, vs=[0, 0, 1, 2, 3, 4],
               nent=[1, 2, 4, 8, 20], unicode=True)
    flags = {'mismatch': 1}
    faults = ('mismatches',)
    expected_probes = ('debug-stop', 'codec-failed', 'diff-items', 'sides', 'unchecked',
                       'verdicts', 'mismatches')
    rule = ('a run is one complete invocation of the tool; trivial unless it '
            'judged at least one decoded message')

    def nontrivial(self, case, r):
        return r['probes'].get('verdicts', 0) > 0


class T02(Tool):
    id = 'T02'
    dom = dict(podd=0.06, ptsv=0.6, preal=0.7, stale=True, unicode=False, nent=[1, 2, 4, 8, 20, 40])
    flags = {'account': 1, 'must_end': 1}
    expected_probes = ('lines-checked', 'tsv-checked')
    rule = ('a run is one complete invocation of the tool; trivial unless at least '
            'one result line was recomputed')

    def nontrivial(self, case, r):
        return r['probes'].get('lines-checked', 0) > 0


class T03(Tool):
    id = 'T03'
    dom = dict(cpu=0.6, preal=0, nent=[1, 2, 4, 8, 20], pni=0.1, pbad=0.05)
    flags = {'account': 1, 'must_end': 1}
    faults = ()
    expected_probes = ('time-checked',)
    rule = ('a run is one complete invocation of the tool; trivial unless a codec '
            'used CPU time')

    def nontrivial(self, case, r):
        return r['probes'].get('time-checked', 0) > 0


class T04(Tool):
    id = 'T04'
    dom = dict(ptsv=0.9, wfaults=True, stale=True, ofault=True, preal=0.2,
               nent=[1, 4, 10, 60, 200], nsims=[1, 2])
    flags = {'wfault': 1}
    faults = ('write-error', 'open-error', 'close-error', 'short-write',
              'output-error')
    expected_probes = ('write-failure-visible', 'tsv-checked')
    rule = ('a run is one complete invocation of the tool; trivial unless a write '
            'was split or failed')

    def nontrivial(self, case, r):
        return any(r['stats'].get(k) for k in self.faults)


class T05(Tool):
    id = 'T05'
    dom = dict(rfaults=True, ptsv=0.3, preal=0.2, unicode=True,
               nent=[1, 2, 4, 8, 30], locales=['utf-8', 'utf-8', 'iso8859-1', 'ascii'])
    flags = {'rfault': 1, 'account': 1, 'reach': 1}
    faults = ('read-error', 'open-error', 'short-read')
    expected_probes = ('bad-input', 'short-reads-harmless')
    rule = ('a run is one complete invocation of the tool; trivial unless an input '
            'was unreadable or read in pieces')

    def nontrivial(self, case, r):
        return bool(r['probes'].get('bad-input') or r['stats'].get('short-read'))


class T06(Tool):
    id = 'T06'
    dom = dict(podd=0.06, pmut=0.15, unicode=True, nent=[1, 2, 4, 8, 20, 40],
               preal=0.3, pbom=0.1, locales=['utf-8', 'utf-8', 'iso8859-1', 'ascii'])
    flags = {'reach': 1, 'must_end': 1}
    expected_probes = ('messages-traced',)
    rule = ('a run is one complete invocation of the tool; trivial unless at least '
            'one message was followed from the HAR file to a codec')

    def nontrivial(self, case, r):
        return r['probes'].get('messages-traced', 0) > 0


class T07(Tool):
    id = 'T07'
    dom = dict(podd=0.06, preal=1, nent=[4, 8, 20, 40], nfiles=[1, 2, 3, 4], pni=0.1,
               pbad=0.02, ptsv=0.5)
    flags = {'context': 1, 'account': 1, 'must_end': 1}
    expected_probes = ('sessions', 'lines-checked')
    rule = ('a run is one complete invocation of the tool; trivial unless it had '
            'at least four sessions')

    def nontrivial(self, case, r):
        return r['probes'].get('sessions', 0) >= 4


class T08(Tool):
    id = 'T08'
    world = 'twin'
    dom = dict(podd=0.06, preal=1, nent=[2, 8, 20, 40], nfiles=[1, 2, 3], pni=0.1,
               ptsv=0.5, unicode=True)
    flags = {'must_end': 1}
    faults = ()
    expected_probes = ('compared',)
    quick_n, thorough_n = 3000, 200000
    rule = ('a run is one invocation of the tool made five times, in three '
            'processes; trivial unless the results of all were compared')

    def nontrivial(self, case, r):
        return r['probes'].get('compared', 0) == 4


class T09(Tool):
    id = 'T09'
    dom = dict(preal=0.7, ptsv=0.4, unicode=True, nent=[1, 1, 2, 4, 8, 20],
               nfiles=[1, 2, 3, 4], pempty=0.25, pmain=0.8, pni=0.1, pbad=0.03,
               podd=0.15,
               terms=['utf-8', 'utf-8', 'iso8859-1', 'ascii'],
               vs=[0, 0, 1, 2, 3, 4, 5], pbom=0.05, stale=True,
               locales=['utf-8', 'utf-8', 'iso8859-1', 'ascii'])
    flags = {'account': 1, 'reach': 1, 'must_end': 1}
    faults = ('locale-missing', 'terminal-ascii', 'terminal-iso8859-1')
    expected_probes = ('lines-checked', 'messages-traced')
    rule = ('a run is one complete invocation of the command; trivial unless at '
            'least one result line was recomputed')

    def nontrivial(self, case, r):
        return r['probes'].get('lines-checked', 0) > 0


import gen_fork


class F01(Prop):
    id = 'F01'
    world = 'fork'
    runtime = 'py3'
    recycle = 1500
    quick_n, thorough_n = 6000, 500000
    quick_wall = 30
    faults = ('child-death', 'start-failed', 'short-read', 'short-write', 'epipe')
    real = ['compressor/fork', 'sample_exec_codec.py (as one of the child programs)',
            'Python buffering over the pipes']
    stub = ['subprocess.Popen, the pipes and the child processes (threads that run '
            'one at a time, switched by the schedule of the case)',
            'scripted child programs']
    expected_probes = ('answers', 'death-visible', 'start-failure-visible',
                       'children-ended')
    rule = ('a run is one seeded world of 1-3 fork codecs and their children; '
            'trivial unless at least two answers were compared')

    def gen(self, seed, i, tier):
        return gen_fork.make(seed)

    def nontrivial(self, case, r):
        return r['probes'].get('answers', 0) >= 2


class F02(Tool):
    id = 'F02'
    recycle = 300
    quick_n, thorough_n = 3000, 200000
    dom = dict(preal=0.3, ptsv=0.4, nsims=[1], nent=[1, 2, 4, 8, 20], unicode=True,
               nhosts=[1, 2, 4, 12, 20], pni=0.1, pbad=0.02)
    flags = {'fork': 1, 'account': 1}
    faults = ('child-death', 'start-failed', 'short-read', 'short-write', 'epipe')
    real = Tool.real + F01.real
    stub = Tool.stub + F01.stub
    expected_probes = ('messages-heard', 'child-loss-visible', 'lines-checked',
                       'children-ended', 'sessions')
    rule = ('a run is one complete invocation of the tool with 1-3 fork codecs; '
            'trivial unless a child was lost or at least two messages were traced '
            'to their children')

    def gen(self, seed, i, tier):
        return gen_tool.make_fork(seed, self.dom, dict(self.flags))

    def nontrivial(self, case, r):
        p = r['probes']
        return p.get('messages-heard', 0) >= 2 or p.get('child-loss-visible', 0) > 0


import gen_bits


class Bits(Prop):
    world = 'bits'
    recycle = 3000
    quick_n, thorough_n = 6000, 400000
    quick_wall = 30
    make = None
    stub = []
    simtime = Prop.simtime

    def gen(self, seed, i, tier):
        c = getattr(gen_bits, self.make)(seed)
        c['rt'] = self.runtime
        return c

    def nontrivial(self, case, r):
        return any(v > 2 for v in r['stats'].values())


class B01(Bits):
    id = 'B01'
    make = 'bits'
    real = ['bit_bucket.py of delta, delta2, delta_bohe, delta2_bohe and bohe']
    expected_probes = ('store-unaligned', 'store-aligned', 'get-unaligned',
                       'get-aligned', 'refused')
    rule = ('a run is one seeded history of a writer and a reader moving over 1-3 '
            'shared buckets; trivial unless it had at least 3 events')


class B02(Bits):
    id = 'B02'
    make = 'huff'
    quick_n, thorough_n = 2500, 100000
    real = ['huffman.py, bit_bucket.py and header_freq_tables.py of delta, delta2, '
            'delta_bohe and delta2_bohe']
    expected_probes = ('strings',)
    rule = ('a run is one seeded history of strings and integers written to and '
            'read from 1-2 buckets under 1-2 codes; trivial unless at least 3 '
            'strings were decoded')


class B03(Bits):
    id = 'B03'
    make = 'lru'
    real = ['delta2/lrustorage.py (LruStorage, KV, SharedString)']
    expected_probes = ('evictions', 'shared', 'wrapped', 'store-refused',
                       'found-both', 'found-name', 'not-found', 'looked-up',
                       'lookup-refused')
    rule = ('a run is one seeded history of a storage; trivial unless at least 3 '
            'entries were stored')


class Cpp(Bits):
    world = 'cpp'
    runtime = 'py3'
    recycle = 100000

    def prepare(self):
        import cppbuild
        import pool
        try:
            cppbuild.build(pool.REPO, dict((i, (i, False)) for i in gen_bits.CPP))
        except RuntimeError as e:
            raise pool.HarnessError(str(e))


class B04(Cpp):
    id = 'B04'
    make = 'cbits'
    quick_n, thorough_n = 4000, 200000
    real = ['bit_bucket.h and utils of delta and delta_bohe, compiled with '
            'AddressSanitizer and the assertions of the standard library']
    expected_probes = ('u-unaligned', 'u-aligned', 'get-unaligned', 'get-aligned',
                       'refused')
    rule = ('a run is one process executing one seeded history over 1-2 buckets; '
            'trivial unless it had at least 3 events')


class B05(Cpp):
    id = 'B05'
    make = 'chuff'
    quick_n, thorough_n = 2500, 100000
    real = ['huffman.h, bit_bucket.h, header_freq_tables and utils of delta and '
            'delta_bohe, compiled with AddressSanitizer and the assertions of the '
            'standard library']
    expected_probes = ('strings',)
    rule = ('a run is two processes executing one seeded history of strings, bits '
            'and integers; trivial unless at least 3 strings were decoded')


class B06(Cpp):
    id = 'B06'
    make = 'parse'
    quick_n, thorough_n = 3000, 150000
    real = ['trivial_http_parse.h of delta and delta_bohe, compiled with '
            'AddressSanitizer and the assertions of the standard library']
    stub = ['the stream: a streambuf that hands out pieces and breaks off']
    faults = ('cut', 'read-error')
    expected_probes = ('refused', 'outputs-in-use')
    rule = ('a run is one process reading 1-8 seeded captures; trivial unless at '
            'least 3 lines were read')


PROPS = {}
for _c in [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11,
           C12, T01, T02, T03, T04, T05, T06, T07, T08, T09, F01,
           F02, B01, B02, B03, B04, B05, B06]:
    PROPS[_c.id] = _c()
