"""Seeded generator of codec-world cases (runs only in the driver, CPython)."""
import random

REQ_NAMES = ['user-agent', 'accept', 'accept-encoding', 'accept-language',
             'cookie', 'referer', 'cache-control', 'if-modified-since',
             'if-none-match', 'origin', 'content-type', 'content-length',
             'authorization', 'x-requested-with', 'dnt', 'pragma', 'te',
             'x-a', 'x-ab', 'x-long-header-name', 'range', 'via']
RES_NAMES = ['content-type', 'content-length', 'date', 'server', 'etag',
             'expires', 'last-modified', 'cache-control', 'set-cookie', 'vary',
             'via', 'p3p', 'age', 'x-cache', 'x-powered-by', 'location',
             'x-a', 'x-ab', 'pragma', 'content-encoding', 'accept-ranges',
             'strict-transport-security']
# like names that some part of the system treats specially
NEAR = ['host-x', 'x-host', 'hosts', 'cookie2', 'set-cookie2', 'x-cookie', 'cookies',
        'connection-x', 'proxy-connection', 'keep-alive-x', 'x-keep-alive', 'version',
        'versions', 'status', 'status-text', 'method', 'path', 'scheme', 'paths',
        'x-path', 'referer-x', 'refere', 'date-x', 'expires-x', 'x-date', 'ref', 'h',
        'a', 'c', 'r', 'd', 'ct', 'x', 'e', 'accept-x', 'conten', 'server-x', 'via-x',
        'x!', '!x', '!', 'x#y', '$a', "a'b", '~', '|', 'x^y', '*', 'a+b', 'a.b', 'a&b',
        '_x', '`x`', '%41']
METHODS = ['get', 'post', 'put', 'head', 'options', 'delete']
ASCII = ''.join(chr(c) for c in range(0x21, 0x7f))
URLCH = 'abcdefghijklmnopqrstuvwxyzABCDEF0123456789-._~/%&=?+'
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
        'Nov', 'Dec']


EDGES = [1, 2, 3, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 95, 126,
         127, 128, 129, 130, 158, 159, 160, 191, 192, 254, 255, 256, 257]


class G(object):
    def __init__(self, rng, dom):
        self.r = rng
        self.d = dom
        self.vpool = []

    # -- values ---------------------------------------------------------
    def chars(self, n, alpha):
        r = self.r
        return ''.join(r.choices(alpha, k=n))

    def vlen(self):
        r, d = self.r, self.d
        x = r.random()
        if x < 0.08:
            return 0
        if x < 0.13:
            return r.choice(EDGES)
        if x < 0.60:
            return r.randint(1, 12)
        if x < 0.93:
            return r.randint(10, 60)
        if x < 0.985:
            return r.randint(60, 200)
        return r.randint(min(100, d.get('maxval', 400)), d.get('maxval', 400))

    def raw(self, n):
        r, d = self.r, self.d
        a = d.get('alpha', 'ascii')
        if a == 'mix':
            a = r.choice(['ascii', 'ascii', 'url', 'byte'])
        if a == 'ascii':
            s = self.chars(n, ASCII + '  ')
        elif a == 'url':
            s = self.chars(n, URLCH)
        elif a == 'few':
            s = self.chars(n, 'ab')
        else:
            s = ''.join(map(chr, r.choices(d['bytes'], k=n)))
        return s

    def clean(self, s, cookie=False):
        if cookie or self.d.get('nosemi'):
            s = s.replace(';', ',')
        s = s.strip()
        for ch in self.d.get('ban', ''):
            s = s.replace(ch, '_')
        return s.strip()

    def value(self, name=''):
        r = self.r
        x = r.random()
        if self.vpool and x < 0.30:
            v = r.choice(self.vpool)
        elif self.vpool and x < 0.50:
            v = r.choice(self.vpool)
            k = r.randint(0, len(v))
            v = v[:k] + self.raw(self.vlen())
        else:
            v = self.raw(self.vlen())
        if r.random() < self.d.get('pname', 0.03):
            # a name elsewhere
            v = r.choice(self.rpool)
        v = self.clean(v, name == 'cookie')
        if self.d.get('brk') and name[:1] not in ('', ':') and len(v) > 2 \
                and r.random() < 0.06:
            # characters that end a line for some parsers, but not in HTTP
            k = r.randint(1, len(v) - 1)
            v = v[:k] + r.choice(self.d['brk']) + v[k:]
        if self.d.get('nonempty') and not v:
            v = 'v%d' % r.randint(0, 99)
        if len(self.vpool) < 40:
            self.vpool.append(v)
        elif r.random() < 0.3:
            self.vpool[r.randrange(40)] = v
        return v

    def items(self, name):
        """value possibly made of several items"""
        r = self.r
        v = self.value(name)
        if name == 'cookie':
            n = r.choice([1, 1, 2, 3, 5]) if r.random() < 0.95 else \
                r.choice([9, 17, 40])
            sep = r.choice(['; ', ';', '; '])
            vs = [self.value(name) for _ in range(n)]
            if n > 1 and r.random() < self.d.get('pcnul', 0.1):
                # more than one Cookie field, as HTTP/2 captures have
                k = r.randint(1, n - 1)
                return sep.join(vs[:k]) + '\0' + sep.join(vs[k:])
            return sep.join(vs)
        if r.random() < self.d.get('multi', 0.12) and not name.startswith(':'):
            n = r.choice([2, 2, 3, 4]) if r.random() < 0.95 else \
                r.choice([9, 17, 40])
            vs = [self.value(name) for _ in range(n)]
            if not self.d.get('dupitems', True):
                vs = list(dict.fromkeys(vs))
            return '\0'.join(vs)
        return v

    def date(self):
        r = self.r
        if self.d.get('realdates') and r.random() < 0.7:
            from email.utils import formatdate
            return formatdate(r.randint(0, 4000000000), usegmt=True)
        return '%s, %02d %s %d %02d:%02d:%02d GMT' % (
            r.choice(DAYS), r.randint(1, 28), r.choice(MONS),
            r.randint(1990, 2030), r.randint(0, 23), r.randint(0, 59),
            r.randint(0, 59))

    def path(self):
        r = self.r
        if self.vpool and r.random() < 0.1:
            return '/'
        return '/' + self.chars(r.choice([0, 3, 8, 20, 60]), URLCH)

    def name(self, pool):
        r = self.r
        if r.random() < self.d.get('pnear', 0.01):
            return r.choice(NEAR)
        if r.random() < self.d.get('newname', 0.06):
            return 'x-' + self.chars(r.randint(1, 12),
                                     'abcdefghijklmnopqrstuvwxyz0123456789-')
        return pool[min(int(r.expovariate(0.18)), len(pool) - 1)]

    def hval(self, n):
        if n in ('date', 'expires', 'last-modified', 'if-modified-since') \
                and self.r.random() < 0.8:
            if self.r.random() < 0.15:
                return self.r.choice(['0', '-1', 'abc', 'Thu Jan  1 00:00:00 1970',
                                      'Sunday, 06-Nov-94 08:49:37 GMT', 'dead beef'])
            return self.date()
        return self.items(n)

    def msg(self, req, prev, host, big=None, many=0):
        r, d = self.r, self.d
        pool = self.rpool
        h = {}
        if prev and r.random() < 0.85:
            for k, v in prev.items():
                x = r.random()
                if k[0] == ':' or x < d['keep']:
                    h[k] = v
                elif x < d['keep'] + (1 - d['keep']) * 0.6:
                    h[k] = self.hval(k)
        for _ in range(r.choice(d['addn'])):
            k = self.name(pool)
            h[k] = self.hval(k)
        if req:
            if ':path' not in h or r.random() < 0.6:
                h[':path'] = self.path()
            if ':method' not in h or r.random() < 0.1:
                h[':method'] = r.choice(METHODS)
            if ':scheme' not in h or r.random() < 0.1:
                h[':scheme'] = r.choice(['http', 'https'])
            h[':host'] = host
        else:
            if ':status' not in h or r.random() < 0.2:
                h[':status'] = str(r.choice([200, 200, 304, 404, 301, 500,
                                             r.randint(100, 599)]))
        if d.get('status_text') and not req:
            h.pop(':status-text', None)
            if r.random() < 0.5:
                h[':status-text'] = r.choice(['OK', 'Not Found', 'x'])
        if r.random() < 0.03:
            # as little as there can be
            h = dict((k, v) for k, v in h.items()
                     if k[0] == ':' and k != ':status-text')
        while len(h) > d.get('maxhdrs', 40):
            k = r.choice([x for x in h if x[0] != ':'])
            del h[k]
        if many:
            for i in range(many):
                h['x-n%d' % r.randrange(3 * many)] = self.value() \
                    if r.random() < 0.2 else 'v%d' % r.randrange(50)
        if big:
            k = r.choice([x for x in pool])
            h[k] = self.clean(self.raw(big), k == 'cookie') or 'x'
        L = [[k, v] for k, v in h.items()]
        if r.random() < d.get('shuffle', 0.5):
            r.shuffle(L)
        return L


def hosts(r, n):
    return ['%s%d.%s' % (r.choice(['www', 'img', 'a', 'static.b']), i,
                         r.choice(['example.com', 'foo.net', 'bar.org', 'x.co.uk']))
            for i in range(n)]


def make(seed, spec_fn, dom0, flags, tier='quick'):
    """spec_fn(rng) -> (codec, params).  dom0: domain restrictions."""
    r = random.Random(seed)
    nconn = r.choice(dom0.get('nconns', [1, 1, 2, 2, 3]))
    conns, gens, prevs, hs = [], [], [], []
    for _ in range(nconn):
        codec, params = spec_fn(r)
        dom = dict(dom0)
        dom['keep'] = r.choice([0.3, 0.7, 0.9, 0.97])
        dom['pnear'] = r.choice([0, 0.01, 0.2])
        dom['pname'] = r.choice([0, 0.03, 0.25])
        dom['addn'] = r.choice([[0, 1], [0, 1, 2, 3], [1, 2, 4, 8], [3, 6, 12]])
        if 'names' in dom0:
            dom['newname'] = dom0['names'](codec, r)
        if 'alphas' in dom0:
            dom['alpha'] = r.choice(dom0['alphas'])
        req = r.random() < 0.5
        spec = {'codec': codec, 'req': req, 'params': params}
        if r.random() < dom0.get('peer', 0):
            spec['peer'] = True
        if 'bound' in dom0:
            spec['bound'] = dom0['bound'](codec, params)
        v = random.Random('%s:v%d' % (seed, len(conns))).random()
        if v < 0.04:
            # -v of the tool, which every codec is told
            spec['verbose'] = 5 if v < 0.03 else 3
        conns.append(spec)
        g = G(r, dom)
        base = REQ_NAMES if req else RES_NAMES
        k = r.choice([4, 8, len(base)])
        g.rpool = r.sample(base, k)
        gens.append(g)
        prevs.append([])
        hs.append(hosts(r, r.choice([1, 1, 2, 4])))
        if r.random() < dom0.get('phosts', 0):
            hs[-1] = hosts(r, 280)
    nops = r.choice(dom0.get('nops', [3, 6, 12, 25, 40]))
    if any(len(h) > 100 for h in hs):
        nops = 320
    elif r.random() < dom0.get('plong', 0.03):
        nops = r.choice([100, 200, 300])
    churn = random.Random(seed + 'churn').random() < dom0.get('pchurn', 0)
    pmany = r.choice([0, 0, 0, dom0.get('pmany', 0)])
    lagmax = r.choice([0, 1, 4, 16])
    pcrash = r.choice([0, 0, 0.02, 0.08])
    ptear = r.choice([0.08, 0.2, 0.4]) if dom0.get('tear') else 0
    if churn:
        # one long connection on which hardly anything comes twice
        nops, pcrash, pmany = r.choice([300, 700]), 0, 0
        for g, spec in zip(gens, conns):
            g.d.update(addn=[1, 2, 3], maxval=12, multi=0)
            g.rpool = [n for n in g.rpool if n != 'cookie'] or ['via']
            if 'names' not in dom0 or spec['codec'] != 'headerdiff':
                g.d['newname'] = 0.9
    pbig = dom0.get('pbig', 0)
    ops = []
    lag = [0] * nconn
    burst = None
    for _ in range(nops):
        if burst is None or r.random() < 0.5:
            burst = r.randrange(nconn)
        c = burst
        host = r.choice(hs[c])
        prev = dict(r.choice(prevs[c][-3:])) if prevs[c] and not churn else None
        big = None
        if pbig and r.random() < pbig:
            big = r.choice(dom0['bigs'])
        many = r.choice(dom0['manys']) if pmany and r.random() < pmany else 0
        m = gens[c].msg(conns[c]['req'], prev, host, big, many)
        if len(m) < 60:
            prevs[c].append(m)
        if conns[c].get('peer'):
            op = ['psend', c, host, m, r.randrange(1 << 30)]
        else:
            op = ['send', c, host, m]
        if big and dom0.get('oversize') and big >= dom0['oversize']:
            op.append('oversize')
        ops.append(op)
        lag[c] += 1
        while lag[c] > lagmax or (lag[c] and r.random() < 0.4):
            ops.append(['dlv', c])
            lag[c] -= 1
        if r.random() < pcrash:
            ops.append(['crash', r.randrange(nconn)])
        if ptear and r.random() < ptear:
            if lag[c] == 0:         # something has to be under way
                ops.append(['send', c, host, gens[c].msg(
                    conns[c]['req'], dict(m) if len(m) < 60 and r.random() < 0.6
                    else None, host)])
            lag[c] = 0
            def hit():
                x = r.random()
                pos = r.randrange(1 << 16)
                if x < 0.4:
                    return ['tear', pos, 0]
                if x < 0.75:
                    return ['flip', pos, 1 << r.randrange(8)
                            if r.random() < 0.7 else r.randrange(1, 256)]
                return ['swap', pos, 0]
            if r.random() < dom0.get('pstorm', 0):
                ops.append(['storm', c, [hit() for _ in range(r.choice([5, 20, 60]))]])
            else:
                k, pos, x = hit()
                ops.append([k, c, pos] + ([x] if k == 'flip' else []))
            prevs[c] = prevs[c][-1:]
    order = list(range(nconn))
    r.shuffle(order)
    for c in order:
        ops.append(['flush', c])
    return {'world': 'codec', 'conns': conns, 'ops': ops, 'flags': flags}


def make_steady(seed, spec_fn, budget_fn, flags):
    """Long histories of many short-lived fields, and now and then the same
    small header set several times in a row ('probe')."""
    r = random.Random(seed)
    codec, params = spec_fn(r)
    budget = budget_fn(codec, params)
    req = r.random() < 0.5
    g = G(r, {'alpha': r.choice(['ascii', 'url', 'few']), 'pname': 0})
    nn = r.choice([5, 15, 40, 80])
    names = ['x-' + g.chars(r.choice([2, 4, 8, 20, 28]), 'abcdefghijklmnopqrstuvwxyz-')
             for _ in range(nn)]
    names += r.sample(REQ_NAMES if req else RES_NAMES, 8)
    vals = [g.clean(g.raw(r.choice([0, 1, 3, 6, 10, 20]))) for _ in range(r.choice([3, 10, 60]))]
    hs = hosts(r, r.choice([1, 1, 2, 3]))

    def pseudo(host):
        if req:
            return [[':method', r.choice(METHODS)], [':scheme', 'http'],
                    [':path', '/' + g.chars(r.choice([0, 3, 8]), URLCH)],
                    [':host', host]]
        return [[':status', str(r.choice([200, 304, 404]))]]

    def fields(k, limit=None):
        d, size = {}, 0
        for _ in range(k):
            n = r.choice(names)
            v = r.choice(vals) if r.random() < 0.7 else g.clean(
                g.raw(r.choice([1, 4, 9, 25])), n == 'cookie')
            v = v.replace(';', ',') if n == 'cookie' else v
            c = len(n) + len(v) + (32 if codec == 'http2' else 0)
            if n in d or limit is not None and size + c > limit:
                continue
            size += c
            d[n] = v
        return [[n, v] for n, v in d.items()]
    ops = []
    nph = r.choice([1, 2, 3])
    phuge = r.choice([0, 0, 0.03, 0.2])
    per = r.choice([20, 60, 120])
    width = r.choice([[1], [1, 2], [1, 3, 6], [2, 8, 14]])
    prev = None
    for _ in range(nph):
        for _ in range(per):
            host = r.choice(hs)
            m = pseudo(host) + fields(r.choice(width))
            if prev and r.random() < 0.3:
                d = dict((n, v) for n, v in prev if r.random() < 0.8 or n[0] == ':')
                d.update(m)
                m = [[n, v] for n, v in d.items()]
            prev = m
            if r.random() < phuge:
                # about as large as all the state
                n = r.choice(names)
                k = int(budget * r.choice([0.6, 0.9, 0.97, 1, 1.1, 1.5])) - len(n)
                k += r.choice([-32, -4, -1, 0, 0, 1])
                m = [x for x in m if x[0] != n] + [
                    [n, g.clean(g.raw(max(k, 1)), n == 'cookie')]]
            ops.append(['send', 0, host, m])
            if r.random() < 0.15:
                ops.append(['flush', 0])
        host = r.choice(hs)
        ps = pseudo(host)
        # everything the pseudo-fields need, twice over, has to fit as well
        room = budget // 2 - sum(
            len(n) + len(v) + (32 if codec == 'http2' else 0) for n, v in ps)
        ops.append(['flush', 0])
        if room > 0:
            ops.append(['probe', 0, host, ps + fields(r.choice([1, 2, 3, 5]), room), 4])
    ops.append(['flush', 0])
    return {'world': 'codec', 'ops': ops, 'flags': flags,
            'conns': [{'codec': codec, 'req': req, 'params': params}]}


def make_march(seed, spec_fn, dom0, flags, ids=65536):
    """A connection whose life is long enough for every counter of up to `ids`
    values to start over, with ordinary traffic before and after."""
    r = random.Random('%s march' % seed)

    def spec(r2):
        codec, params = spec_fn(r2)
        if codec == 'headerdiff':
            # (delta encoding compares with every entry of the table)
            return codec, ['delta=false'] + (
                ['buffer=32768'] if r.random() < 0.5 else []) + \
                (['deflate=12'] if r.random() < 0.2 else [])
        params = [x for x in params if x.split('=')[0] not in (
            'max_entries', 'max_byte_size', 'small_index')]
        params.append('max_entries=%d' % r.choice([40, 60, 100]))
        if r.random() < 0.5:
            params.append('max_byte_size=%d' % r.choice([600, 1000]))
        if codec == 'delta2':
            params.append('small_index=0')
        return codec, params
    dom = dict(dom0, nconns=[1], nops=[12, 25], plong=0, phosts=0, pbig=0,
               pmany=0, maxhdrs=20)
    c = make(seed, spec, dom, flags)
    codec = c['conns'][0]['codec']
    p = dict(x.split('=', 1) if '=' in x else (x, '')
             for x in c['conns'][0]['params'])
    host = 'www.example.com'
    if codec == 'headerdiff':
        width, mode, ids = r.choice([100, 200, 240]), 'all', 16384 + 64 + 1500
    else:
        width = min(r.choice([20, 60, 100]), int(p['max_entries']) - 8)
    if codec == 'headerdiff':
        pass
    elif codec == 'delta2':
        keep = p.get('hg_adjust') == '1' and p.get('implicit_hg_add') == '1'
        mode = 'keep' if keep else 'val'
    else:
        mode = r.choice(['keep', 'keep', 'val', 'key'])
    rounds = (ids - r.randint(-300, 900)) // width
    mid = len(c['ops']) // 3
    flush = c['ops'].pop()
    c['ops'][mid:mid] = [['flush', 0], ['march', 0, host, rounds, width, mode,
                                        r.randrange(1000)]]
    # what was dropped by a new start has to be walked again: none after it
    c['ops'] = c['ops'][:mid + 2] + [
        o for o in c['ops'][mid + 2:] if o[0] != 'crash'] + [flush]
    c['timeout'] = 240
    return c


def make_wide(seed, spec_fn, dom0, flags):
    """A connection whose table holds hundreds of entries, old and young ones
    of which come up again: indices of more than one byte."""
    r = random.Random('%s wide' % seed)

    def spec(r2):
        codec, params = spec_fn(r2)
        if codec == 'http2':
            return codec, ['buffer_size=%d' % r.choice([6000, 16384, 20000, 65536])]
        return codec, [p for p in params if p.split('=')[0] not in
                       ('buffer', 'delta', 'delta_type')] + ['delta=false'] + \
            (['buffer=32768'] if r.random() < 0.3 else [])
    dom = dict(dom0, nconns=[1], nops=[6, 12], plong=0, phosts=0, pbig=0,
               pmany=0, maxhdrs=20)
    c = make(seed, spec, dom, flags)
    conn = c['conns'][0]
    host = 'www.example.com'
    kind = 'psend' if conn.get('peer') else 'send'
    top = r.choice([150, 300, 500])
    width = r.choice([40, 90])
    k = 0
    ops = []
    pend = 0

    def send(hs):
        m = ([[':method', 'get'], [':scheme', 'http'], [':path', '/%d' % len(ops)],
              [':host', host]] if conn['req'] else [[':status', '200']]) + hs
        op = [kind, 0, host, m]
        if kind == 'psend':
            op.append(r.randrange(1 << 30))
        ops.append(op)
    vals = ['', 'v', '%x', 'value-%d']

    def field(i):
        v = vals[i % 4]
        return ['x-%x' % i, v % i if '%' in v else v]
    lag = r.choice([0, 0, 3])
    while k < top:
        hs = [field(j) for j in range(k, min(top, k + width))]
        k += width
        send(hs)
        pend += 1
        if pend > lag:
            ops.append(['flush', 0])
            pend = 0
    for _ in range(r.choice([8, 16])):
        picked = r.sample(range(top), r.choice([1, 5, 30]))
        if r.random() < 0.5:
            near = r.choice([0, 3, 60, 64, 120, 127, 128, 190, 250, 255, 256, 380])
            picked += range(max(0, top - near - 4), max(0, top - near))
        hs = []
        for j in dict.fromkeys(picked):
            n, v = field(j)
            x = r.random()
            if x < 0.2:
                v = v + r.choice(['!', 'other', 'x' * r.choice([1, 30, 130, 260])])
            hs.append([n, v])
        send(hs)
        pend += 1
        if pend > lag or r.random() < 0.3:
            ops.append(['flush', 0])
            pend = 0
    flush = c['ops'].pop()
    mid = len(c['ops']) // 3
    head, tail = c['ops'][:mid], c['ops'][mid:]
    c['ops'] = head + [['flush', 0]] + ops + [['flush', 0]] + \
        [o for o in tail if o[0] != 'crash'] + [flush]
    c['timeout'] = 120
    return c
