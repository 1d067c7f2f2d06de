"""Seeded generator of bit-bucket, Huffman, storage and C++ cases."""
import random

PY = ['delta', 'delta2', 'delta_bohe', 'delta2_bohe', 'bohe']
CPP = ['delta', 'delta_bohe']


def hexbytes(r, n):
    m = r.random()
    if m < 0.15:
        return 'ff' * n
    if m < 0.2:
        return '00' * n
    return ''.join('%02x' % r.randrange(256) for _ in range(n))


def nbits(r):
    x = r.random()
    if x < 0.4:
        return r.randint(1, 16)
    if x < 0.7:
        return 8 * r.randint(1, 6)
    if x < 0.97:
        return r.randint(1, 80)
    return r.randint(80, 900)


def bits_op(r, b):
    n = nbits(r)
    return ['bits', b, n, hexbytes(r, (n + 7) // 8)]


def uval(r, w):
    return r.choice([0, (1 << w) - 1, 1, 1 << w - 1, r.getrandbits(w), r.getrandbits(w)])


def bits(seed):
    r = random.Random(seed)
    impl = r.choice(PY)
    n = r.choice([1, 1, 2, 3])
    widths = [1, 8, 16, 32]
    gets = [8, 16, 32]
    if impl == 'delta2':
        widths, gets = [1, 4, 8, 16, 32], [1, 4, 8, 16, 32]
    kinds = ['bits', 'u', 'get', 'getu', 'over', 'adv', 'mv', 'cp', 'clear']
    if impl == 'delta2':
        kinds.append('pad')
    wt = dict((k, r.choice([0.3, 1, 1, 3])) for k in kinds)
    wt['clear'] *= 0.05
    wt['cp'] *= 0.15
    wt['mv'] *= 0.5
    wt['over'] *= 0.3
    for k in ('adv', 'pad'):
        if k in wt:
            wt[k] *= r.choice([0, 0.2, 1])
    ops = []
    for _ in range(r.choice([5, 15, 40, 120])):
        k = r.choices(kinds, [wt[x] for x in kinds])[0]
        b = r.randrange(n)
        if k == 'bits':
            ops.append(bits_op(r, b))
        elif k == 'u':
            w = r.choice(widths)
            ops.append(['u', b, w, uval(r, w)])
        elif k == 'get':
            ops.append(['get', b, nbits(r)])
        elif k == 'getu':
            ops.append(['getu', b, r.choice(gets)])
        elif k == 'over':
            ops.append(['over', b, r.choice([1, 1, 2, 7, 8, 9, 33, 400])])
        elif k == 'mv':
            ops.append(['mv', b, r.randrange(n), nbits(r)])
        elif k == 'cp':
            ops.append(['cp', b, r.randrange(n)])
        else:
            ops.append([k, b])
    return {'kind': 'bits', 'impl': impl, 'n': n, 'ops': ops, 'shrink': ['ops']}


def freqs(r, cap):
    k = r.choice(['flat', 'geom', 'fib', 'sparse', 'random', 'steps', 'cliff'])
    if k == 'flat':
        f = [r.choice([1, 7])] * 257
    elif k == 'geom':
        q = r.choice([1.02, 1.05, 1.1, 1.2])
        f = [int(q ** i) + r.choice([0, 1]) for i in range(257)]
    elif k == 'fib':
        # codes as long as they get
        a, b, f = 1, 1, []
        lim = r.choice([16, 24, 30, 34, 40])
        for i in range(257):
            f.append(a if i < lim else r.choice([0, 1, a]))
            if i < lim:
                a, b = b, a + b
    elif k == 'sparse':
        f = [0] * 257
        for _ in range(r.randint(1, 12)):
            f[r.randrange(257)] = r.choice([1, 5, 1000, 10 ** 6])
    elif k == 'cliff':
        # short codes, then nothing, then long ones
        f = [r.choice([0, 1])] * 257
        for j in range(r.randint(4, 14)):
            f[j * 17 % 257] = 300 * r.choice([2, 3, 4]) ** j
    elif k == 'steps':
        # few distinct depths
        f = [r.choice([1, 4, 1 << r.choice([8, 12, 16, 20])]) for _ in range(257)]
    else:
        f = [r.randint(0, 10 ** r.randint(1, 6)) for _ in range(257)]
    f = [min(x, cap) for x in f]
    if r.random() < 0.5:
        r.shuffle(f)
    return f


def tables(r, n, cap):
    out = []
    for _ in range(n):
        if r.random() < 0.6:
            out.append({'kind': r.choice(['request_freq_table',
                                          'response_freq_table'])})
        else:
            out.append({'kind': 'freq', 'freqs': freqs(r, cap)})
    return out


def text(r):
    x = r.random()
    if x < 0.08:
        return ''
    n = r.randint(1, 12) if x < 0.7 else r.randint(1, 60) if x < 0.97 \
        else r.randint(60, 300)
    a = r.choice([range(0x20, 0x7f), range(256), b'aeiou/=;-', range(0x80, 256)])
    return ''.join('%02x' % c for c in r.choices(list(a), k=n))


def huff(seed):
    r = random.Random(seed)
    impl = r.choice(['delta', 'delta2', 'delta_bohe', 'delta2_bohe', 'delta2'])
    n = r.choice([1, 1, 2])
    nt = r.choice([1, 1, 2])
    ops = []
    pdec = r.choice([0.05, 0.3, 0.5])
    pool = [text(r) for _ in range(3)]
    for _ in range(r.choice([3, 10, 30])):
        b = r.randrange(n)
        x = r.random()
        if x < pdec:
            ops.append(['dec', b])
        elif x < pdec + 0.03:
            ops.append(['drain', b])
        elif x < pdec + 0.05:
            ops.append(['clear', b])
        elif r.random() < 0.25:
            w = r.choice([1, 8, 16, 32])
            if w == 1 and impl != 'delta2':
                w = 8
            ops.append(['u', b, w, uval(r, w)])
        else:
            h = r.choice(pool) if r.random() < 0.3 else text(r)
            eof = 1 if not h else r.choice([0, 1])
            how = r.choice(['eof', 'bits', 'tuple']) if eof else \
                r.choice(['bits', 'tuple'])
            ops.append(['enc', b, r.randrange(nt), h, eof, how,
                        r.randint(1, 7) if eof and r.random() < 0.2 else 0])
    return {'kind': 'huff', 'impl': impl, 'n': n, 'ops': ops,
            'tables': tables(r, nt, 10 ** 12), 'shrink': ['ops']}


NAMES = ['a', 'b', 'cc', ':path', 'cookie', 'x' * 20]


def lru(seed):
    r = random.Random(seed)
    ms = r.choice([None, 5, 8, 20, 20, 100])
    off = r.choice([None, 0, 1, 3])
    mi = r.choice([None, 0, 1, 2, 3, 4, 8])
    if r.random() < 0.85:
        mi = r.choice([1, 2, 3, 4, 8, 20])
    if ms is not None:
        # the numbers in use must be distinguishable
        span = ms - (off or 0)
        mi = min(span, mi if mi is not None else span)
    mb = r.choice([None, 0, 5, 20, 40, 80, 200])
    wt = [r.choice([1, 3]), r.choice([0, 0.5, 2]), r.choice([0, 0.2, 1]),
          r.choice([0.5, 2]), r.choice([0.5, 2])]
    ops = []
    for _ in range(r.choice([8, 25, 80])):
        k = r.choices(['ins', 'sto', 'pop', 'find', 'look'], wt)[0]
        key = r.choice(NAMES)
        val = r.choice(['', 'v', 'w', 'long value', 'z' * r.randint(1, 30)])
        if r.random() < 0.3:
            # a value that is a name elsewhere, and the other way round
            val = r.choice(NAMES)
        if k in ('ins', 'sto'):
            ops.append([k, key, val, r.randrange(50) if r.random() < 0.4 else None])
        elif k == 'find':
            ops.append([k, key, val, r.randrange(50) if r.random() < 0.6 else None,
                        r.choice([0, 1])])
        elif k == 'look':
            ops.append([k, r.randrange(1000)])
        else:
            ops.append([k])
    return {'kind': 'lru', 'limits': [mb, mi, ms, off], 'ops': ops,
            'shrink': ['ops']}


# -- C++ ---------------------------------------------------------------------

def cbits(seed):
    r = random.Random(seed)
    impl = r.choice(CPP)
    n = r.choice([1, 1, 2])
    kinds = ['bit', 'u', 'bits', 'bytes', 'al', 'ua', 'get', 'gbit', 'peek',
             'skip', 'seek', 'clear', 'mv', 'ga']
    wt = dict((k, r.choice([0.3, 1, 1, 3])) for k in kinds)
    wt['clear'] *= 0.05
    wt['seek'] *= r.choice([0, 0.1])
    wt['skip'] *= r.choice([0, 0.3])
    for k in ('al', 'ua', 'ga'):
        wt[k] *= r.choice([0, 0.3])
    ops = []
    for _ in range(r.choice([5, 15, 40, 120])):
        k = r.choices(kinds, [wt[x] for x in kinds])[0]
        b = r.randrange(n)
        if k == 'bit':
            ops.append([k, b, r.choice([0, 1])])
        elif k in ('u', 'ua'):
            w = r.choice([8, 16, 32])
            ops.append([k, b, w, uval(r, w)])
        elif k == 'bits':
            ops.append(bits_op(r, b))
        elif k in ('bytes', 'al'):
            ops.append([k, b, hexbytes(r, r.choice([0, 1, 1, 2, 3, 9, 40]))])
        elif k == 'get':
            ops.append([k, b, r.choice([0, nbits(r), nbits(r), nbits(r)])])
        elif k == 'peek':
            ops.append([k, b, r.choice([r.randint(1, 31), 32]), r.getrandbits(32)])
        elif k in ('skip', 'seek'):
            ops.append([k, b, r.choice([r.randint(0, 40), r.randrange(1000)])])
        elif k == 'mv':
            ops.append([k, b, r.randrange(n), nbits(r)])
        elif k == 'ga':
            ops.append([k, b, r.choice([8, 16, 32]), r.randrange(1000)])
        else:
            ops.append([k, b])
    if r.random() < 0.3:
        ops.append(['over', r.randrange(n), r.choice([1, 2, 7, 8, 9, 33, 400])])
    return {'kind': 'cbits', 'impl': impl, 'n': n, 'ops': ops, 'shrink': ['ops'],
            'rt': 'py3'}


def chuff(seed):
    r = random.Random(seed)
    impl = r.choice(CPP)
    nt = r.choice([1, 1, 2])
    ops = []
    pool = [text(r) for _ in range(3)]
    for _ in range(r.choice([3, 10, 30])):
        if r.random() < 0.25:
            if r.random() < 0.5:
                w = r.choice([8, 16, 32])
                ops.append(['u', 0, w, uval(r, w)])
            else:
                ops.append(['bit', 0, r.choice([0, 1])])
        else:
            h = r.choice(pool) if r.random() < 0.3 else text(r)
            eof = 1 if not h else r.choice([0, 1])
            ops.append(['enc', 0, r.randrange(nt), h, eof,
                        r.choice(['eof', 'bits']) if eof else
                        r.choice(['bits', 'both'])])
    tabs = tables(r, nt, 2 ** 32 - 1)
    if r.random() < 0.15:
        r.choice(tabs)['before'] = tables(r, 1, 2 ** 32 - 1)[0]
    return {'kind': 'chuff', 'impl': impl, 'n': 1, 'ops': ops,
            'tables': tabs, 'shrink': ['ops'], 'rt': 'py3'}


WORDS = ['get', 'http', '/', 'www.example.com', 'text/html', 'gzip, deflate',
         'a=b; c=d', 'Mon, 01 Jan 2001 00:00:00 GMT', 'x: y', ': ', ':', '',
         ' ', 'http://h:80/p?q=a:b']


def parse(seed):
    """Streams for the C++ reader of captures."""
    r = random.Random(seed)
    latin = ''.join(map(chr, list(range(1, 10)) + list(range(11, 256))))

    def val():
        x = r.random()
        if x < 0.5:
            return r.choice(WORDS)
        if x < 0.9:
            return ''.join(r.choices('abc:; /=\t\r', k=r.choice([0, 1, 3, 20])))
        return ''.join(r.choices(latin + '\0', k=r.choice([1, 5, 40, 400, 5000])))

    def name():
        x = r.random()
        if x < 0.6:
            return r.choice([':method', ':path', ':host', 'host', 'cookie', 'x', ':s'])
        n = ''.join(r.choices('abcxyz-_ ', k=r.choice([1, 2, 5, 30])))
        return ':' + n if r.random() < 0.2 else n
    ops = []
    for _ in range(r.choice([1, 3, 8])):
        nb = 2 * r.choice([0, 1, 1, 2, 5, 20]) + (r.random() < 0.1)
        op = {'blocks': [[[name(), val()] for _ in range(r.choice([k % 2, 1, 1, 2, 5, 20]))]
                         for k in range(1, nb + 1)],
              'sizes': r.choice([[], [1], [3], [r.randint(1, 9), r.randint(1, 300)]])}
        x = r.random()
        if x < 0.25:
            op['cut'] = r.randrange(1 << 20)
            op['error'] = int(r.random() < 0.5)
        elif x < 0.45:
            op['bad'] = [r.randrange(1000), r.choice(
                ['abc', 'a:b', 'a:', ':', ' ', 'x', ':a', 'a:\tb', '::', ':a:b', '\0',
                 'name', 'name:value', 'n' * 100, '\r', 'a:b: c', ':path:/x y: z'])]
        elif x < 0.5:
            op['used'] = r.choice([1, 2, 3])
        ops.append(['parse', op])
    return {'kind': 'parse', 'impl': r.choice(CPP), 'ops': ops, 'shrink': ['ops'],
            'world': 'cpp'}
