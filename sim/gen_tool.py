"""Seeded generator of tool-world cases (driver side)."""
import errno
import json
import random

from gen_codec import ASCII, URLCH, REQ_NAMES, RES_NAMES, NEAR

TLDS = ['example.com', 'foo.net', 'bar.org', 'x.co.uk', 'y.co.uk', 'blog.jp',
        'site.com.au', 'example.com']
SUBS = ['', 'www.', 'img.', 'a.b.', 'WWW.', 'cdn0.']
ACT_EQ = ['ok', 'reorder', 'blank', 'dup', 'ign']
ACT_NE = ['drop', 'dropitem', 'change', 'case', 'add', 'swap', 'move', 'rename',
          'empty', 'emptyval', 'join', 'trunc', 'tab']
REAL = ['http1', 'http1_gzip', 'http1_huffman', 'spdy3', 'spdy3=dict',
        'hyper_hpack']


def value(r, d, cookie=False):
    n = r.choice([0, 1, 2, 5, 10, 20, 40, 90])
    x = r.random()
    if x < 0.5:
        s = ''.join(r.choices(URLCH, k=n))
    elif x < 0.8:
        s = ''.join(r.choices(ASCII + '   ', k=n))
    elif x < 0.9 and d.get('unicode'):
        s = ''.join(r.choices('abc\u00e9\u00df\u4e2d\u0142 ;', k=n))
    else:
        s = ''.join(r.choices('ab', k=n))
    if cookie:
        s = s.replace(';', ',')
    return s.strip()


def cased(r, n):
    x = r.random()
    if x < 0.4:
        return n
    if x < 0.8:
        return '-'.join(p.capitalize() for p in n.split('-'))
    return n.upper()


def headers(r, d, pool, pv):
    L = []
    for _ in range(r.choice(d['nh'])):
        n = r.choice(pool)
        if n in pv and r.random() < 0.5:
            v = r.choice(pv[n])
        elif n == 'cookie':
            v = r.choice(['; ', ';']).join(value(r, d, True)
                                           for _ in range(r.randint(1, 4)))
        else:
            v = value(r, d)
        pv.setdefault(n, []).append(v)
        L.append({'name': cased(r, n), 'value': v})
    if r.random() < 0.25:
        tok = r.choice(['keep-alive', 'close', 'x-hop', 'te, x-hop', 'upgrade',
                        'keep-alive, te', 'Keep-Alive', 'X-Hop', 'TE,X-hop '])
        L = [h for h in L if h['name'].lower() != 'connection']
        L.append({'name': cased(r, 'connection'), 'value': tok})
        if r.random() < 0.2:
            L.append({'name': cased(r, 'connection'),
                      'value': r.choice(['x-hop', 'Te', 'close', 'Upgrade'])})
        if 'x-hop' in tok or r.random() < 0.3:
            L.append({'name': cased(r, 'x-hop'), 'value': 'hop'})
        if r.random() < 0.3:
            L.append({'name': cased(r, 'keep-alive'), 'value': '300'})
    r.shuffle(L)
    return L


def entry(r, d, hosts, pv, serial):
    h = r.choice(hosts)
    scheme = r.choice(['http', 'http', 'https', 'HTTP', 'Https'])
    x = r.random()
    path = '/' + ''.join(r.choices(URLCH.replace('?', ''), k=r.choice([0, 3, 10, 40])))
    if x < 0.08:
        path = ''
    elif x < 0.16:
        path += r.choice([';jsessionid=1A', ';a=b;c', ';', ';x/y', '/;v=1/z;w',
                          "!$'()*,:@", '//a//b', '/../c/./d', '%3B%00%2f'])
    if r.random() < 0.4:
        path += '?' + ''.join(r.choices(URLCH, k=r.choice([0, 1, 8, 30])))
    if r.random() < 0.08:
        path += '#frag/?x'
    url = scheme + '://' + h + path
    rq = headers(r, d, d['rqpool'], pv[0])
    y = r.random()
    if y < 0.7:
        rq.insert(r.randint(0, len(rq)), {'name': cased(r, 'host'), 'value': h})
    elif y < 0.75:
        rq.insert(0, {'name': 'Host', 'value': r.choice(hosts)})
    if r.random() < 0.06 and d.get('skips', True):
        url = r.choice(['data:text/plain,hello', 'ftp://ftp.example.com/x',
                        'about:blank', 'ws://example.com/x',
                        'chrome-extension://abc/def'])
    rs = headers(r, d, d['rspool'], pv[1])
    if d.get('serial', True):
        rq.append({'name': 'x-serial', 'value': 'q%d' % serial})
        rs.append({'name': 'x-serial', 'value': 's%d' % serial})
    if r.random() < 0.12:
        # HTTP/2 captures list the pseudo-headers, too
        for n, v in ((':method', 'POST'), (':authority', h), (':path', '/else?'),
                     (':scheme', 'https')):
            if r.random() < 0.7:
                rq.insert(r.randint(0, len(rq)), {'name': n, 'value': v})
        if r.random() < 0.7:
            rs.insert(r.randint(0, len(rs)), {'name': ':status', 'value': '299'})
    st = r.choice([200, 200, 304, 404, 301, 500, 206, '200', '404 Not Found',
                   0, 418, 999])
    return {'request': {'url': url, 'method': r.choice(['GET', 'POST', 'get', 'PUT']),
                        'httpVersion': r.choice(['HTTP/1.1', 'HTTP/1.0', '']),
                        'headers': rq},
            'response': {'status': st, 'statusText': r.choice(['OK', '', ' ']),
                         'httpVersion': 'HTTP/1.1', 'headers': rs}}


def ishttp(e):
    return e['request']['url'].lower().startswith('http')


def har_files(r, d):
    out = []
    nf = r.choice(d.get('nfiles', [1, 1, 2, 3]))
    hosts = []
    for _ in range(r.choice(d.get('nhosts', [1, 2, 3, 5]))):
        h = r.choice(SUBS) + (r.choice(TLDS) if 'nhosts' not in d else
                              'n%d.%s' % (len(hosts), r.choice(TLDS)))
        if r.random() < 0.15:
            h += ':' + r.choice(['8080', '80', '443'])
        if r.random() < 0.08:
            h = r.choice(['localhost', '10.0.0.1', '10.0.0.1:81', 'localhost:8000'])
        if r.random() < d.get('podd', 0):
            h = r.choice(['[::1]', '[2001:db8::1]:8080', 'user:pw@www.example.com',
                          'www.example.com.', 'com', '', 'a..b', '_x.example.com',
                          'www.b\u00fccher.de', '\u4f8b.example.com', '192.0.2.4:8',
                          'a_b', 'WWW.EXAMPLE.CO.UK', 'x' * 70 + '.example.com'])
        hosts.append(h)
    d = dict(d)
    d['rqpool'] = r.sample([n for n in REQ_NAMES if n != 'te'], r.choice([3, 8, 18])) \
        + ['te']
    d['rspool'] = r.sample(RES_NAMES, r.choice([3, 8, 18]))
    for k in ('rqpool', 'rspool'):
        d[k] = d[k] + r.sample(NEAR, r.choice([0, 0, 4, 12]))
    d['nh'] = r.choice([[0, 1, 2], [2, 4, 6], [1, 8, 12]])
    serial = 0
    pv = ({}, {})
    for i in range(nf):
        n = r.choice(d.get('nent', [1, 2, 4, 8, 15]))
        es = []
        for _ in range(n):
            es.append(entry(r, d, hosts, pv, serial))
            serial += 1
        if r.random() < d.get('pempty', 0) and (
                i < nf - 1 or any(ishttp(e) for f in out for e in f['entries'])):
            # nothing (of HTTP) was captured here
            es = [] if r.random() < 0.5 else \
                [dict(e, request=dict(e['request'], url='data:,x')) for e in es]
        elif not any(ishttp(e) for e in es):
            e = entry(r, dict(d, skips=False), hosts, pv, serial)
            serial += 1
            es.append(e)
        out.append({'name': 'f%d.har' % i, 'entries': es,
                    'indent': r.choice([None, None, 1]),
                    'ascii': r.random() < 0.5})
    return out


def sim_script(r, d):
    n = r.choice([1, 3, 7, 20, 40])
    acts = []
    p = d.get('pbad', 0)
    p = r.choice([0, p, p * 4]) if p else 0
    always_ni = r.random() < d.get('pni', 0)
    for _ in range(n):
        x = r.random()
        if always_ni or x < d.get('pni', 0) * 0.1:
            a = 'ni'
        elif r.random() < p:
            a = r.choice(ACT_NE)
        elif r.random() < d.get('pexc', 0):
            a = r.choice(['exc', 'cexc'])
        elif r.random() < d.get('pmut', 0):
            a = 'mutate-input'
        else:
            a = r.choice(ACT_EQ) if d.get('eq', True) else 'ok'
        acts.append([a, r.randrange(1 << 16)])
    sizes = [r.choice([0, 1, 2, 9, 10, 50, 99, 100, 300, 1000, 20000, 1234567])
             if r.random() < 0.5 else r.randint(1, 400)
             for _ in range(r.choice([1, 5, 30]))]
    if d.get('positive'):
        sizes = [s or 1 for s in sizes]
    q = d.get('cpu', 0)

    def cpu():
        return [[r.randrange(0, 300) / 128.0 if r.random() < q else 0.0,
                 r.randrange(0, 100) / 128.0 if r.random() < q else 0.0,
                 r.randrange(0, 100) / 128.0 if r.random() < q else 0.0]
                for _ in range(r.choice([1, 4, 11]))]
    return {'acts': acts, 'sizes': sizes, 'cpu': cpu(), 'dcpu': cpu(),
            'jump': [r.choice([0, 0, 1, 3600, -7200, 1e6]) for _ in range(5)],
            'bytes': r.random() < 0.7,
            'done_raises': r.random() < 0.15}


def make(seed, d, flags):
    r = random.Random(seed)
    files = har_files(r, d)
    argv = []
    sims = {}
    cs = []
    for n in r.sample(['sima', 'simb', 'simc'], r.choice(d.get('nsims', [1, 2, 3]))):
        sims[n] = sim_script(r, d)
        x = r.random()
        if x < 0.15:
            cs.append('%s=p%d,q=%d' % (n, r.randrange(3), r.randrange(3)))
        elif x < 0.25:
            cs.append('%s="a, b=c"' % n)
        elif x < 0.36:
            cs += r.sample([n, n + '=two', n + '=Two', n + '=two,three',
                            n + '=three,two', n + '=two="three"'], r.choice([2, 2, 3]))
        else:
            cs.append(n)
    base = None
    if r.random() < d.get('preal', 0.5):
        cs += r.sample(REAL, r.choice([1, 2, 3]))
    r.shuffle(cs)
    loc = r.choice(d.get('locales', ['utf-8']))
    x = r.random()
    plain = [c for c in cs if '=' not in c]
    if x < 0.18 and plain:
        base = r.choice(plain)
    elif x < 0.25:
        base = r.choice(cs + ['sima="x y"', 'simb=q'] if len(sims) == 3 else cs)
    elif x < 0.35:
        base = r.choice(['http1_gzip', 'spdy3', 'http1'])
    if base and base.split('=')[0] in sims:
        b = sims[base.split('=')[0]]
        b['sizes'] = [s or 1 for s in b['sizes']]
    for c in cs:
        argv += ['-c', c]
    if base:
        argv += ['-b', base]
    argv += ['-s', r.choice(['all_one', 'host', 'public_suffix'])]
    v = r.choice(d.get('vs', [0, 0, 1, 2, 3]))
    if v:
        argv += ['-v', str(v)]
    if r.random() < d.get('pdebug', 0):
        argv += ['-d']
    case = {'world': 'tool', 'rt': 'py3', 'files': files, 'sims': sims,
            'argv': argv, 'flags': flags,
            'clock0': [r.choice([0, 1, 12345.5]), r.choice([0, 7.25]),
                       r.choice([0, 1e9, -5])],
            'shrink': ['tool']}
    if r.random() < d.get('pmain', 0.1):
        # the whole command, not just its class
        case['main'] = 1
        case['nolocale'] = int(r.random() < 0.5)
        if 'terms' in d:
            case['term'] = r.choice(d['terms'])
    if loc != 'utf-8':
        case['locale'] = loc
    if r.random() < d.get('pbom', 0):
        # HAR 1.2: readers ignore a byte order mark
        r.choice(files)['bom'] = 1
    if r.random() < d.get('ptsv', 0):
        argv += ['-t']
        x = r.random()
        if x < 0.2:
            argv += ['--prefix', 'out-']
        elif x < 0.3:
            case['dirs'] = ['sub']
            argv += ['--prefix', 'sub/x']
        if d.get('stale') and r.random() < 0.3:
            # an earlier run left files of the same names
            p = argv[argv.index('--prefix') + 1] if '--prefix' in argv else ''
            case['stale'] = dict(
                (p + t + '.tsv', ''.join('%d\told\t%d\n' % (k, k) for k in
                                         range(r.choice([1, 3, 200]))))
                for t in ('req', 'res') if r.random() < 0.8)
        if d.get('wfaults'):
            case['wfaults'] = {}
            for t in ('req', 'res'):
                if r.random() < 0.7:
                    p = ''
                    if '--prefix' in argv:
                        p = argv[argv.index('--prefix') + 1].split('/')[-1]
                    case['wfaults'][p + t + '.tsv'] = wfault(r)
    if d.get('ofault') and r.random() < 0.25:
        case['ofault'] = [r.choice([1, 2, 3, 5, 8, r.randint(1, 40)]),
                          r.choice([errno.EPIPE, errno.ENOSPC, errno.EIO])]
    if d.get('rfaults'):
        rfault(r, case, d)
    return case


def make_fork(seed, d, flags):
    """a comparison in which child programs take part"""
    import gen_fork
    case = make(seed, d, flags)
    r = random.Random('fork' + seed)
    argv = case['argv']
    progs = case['programs'] = {}
    base = argv[argv.index('-b') + 1] if '-b' in argv else None
    nmsg = sum(len(f['entries']) for f in case['files'])
    for i in range(r.choice([1, 1, 2, 3])):
        kind = r.choice(['text', 'text', 'bin', 'bin', 'sample'])
        name = gen_fork.progname(r, i)
        sp = progs[name] = {
            'prog': kind, 'cap': r.choice([16, 512, 65536, 65536])
            if nmsg < 12 else 65536,
            'answers': [gen_fork.answer(r, kind == 'bin')
                        for _ in range(r.choice([1, 3, 6]))],
            'dribble': r.random() < 0.5, 'end': r.choice(['\n', '\r\n', ' \n'])}
        if sp['cap'] < 65536:
            sp['answers'] = [a[:300] for a in sp['answers']]
        x = r.random()
        if x < 0.2:
            # the child of some session dies
            k = r.choice([0, 1, 2, 3, 4, 5, r.randint(0, 20)])
            sp['die'] = [None] * k + [r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 60)])]
        elif x < 0.23:
            sp['nostart'] = True
        c = 'fork=' + name
        if kind == 'bin':
            c += r.choice([',bin', ', bin', ',bin,x'])
        elif r.random() < 0.3:
            c = 'fork="%s"' % name
        if base is None and r.random() < 0.15 and kind != 'sample':
            base = c
            sp['answers'] = [a if a.strip() else 'echo' for a in sp['answers']]
            argv += ['-b', c]
            if r.random() < 0.5:
                continue
        k = r.choice([j for j, a in enumerate(argv) if a == '-c'] + [0])
        argv[k:k] = ['-c', c]
    case['choices'] = [r.randrange(1 << 16) for _ in range(r.choice([1, 8, 64, 300]))]
    return case


def wfault(r):
    f = {}
    x = r.random()
    e = r.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG])
    if x < 0.15:
        f['open'] = r.choice([errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE])
    elif x < 0.65:
        f['full_at'] = r.choice([0, 1, r.randint(0, 60), r.randint(0, 600),
                                 r.randint(0, 9000)])
        f['errno'] = e
    elif x < 0.85:
        f['lose_at_close'] = r.choice([0, r.randint(0, 60), r.randint(0, 600)])
    if r.random() < 0.5:
        f['chunks'] = [r.choice([1, 2, 3, 7, 50, 400]) for _ in range(r.randint(1, 4))]
    return f


def rfault(r, case, d):
    case['rfaults'] = {}
    for f in case['files']:
        if r.random() < 0.5:
            case['rfaults'][f['name']] = {
                'chunks': [r.choice([1, 2, 3, 5, 17, 100, 1000, 9000])
                           for _ in range(r.randint(1, 5))]}
    if r.random() < 0.7:
        f = r.choice(case['files'])
        x = r.random()
        text = json.dumps({'log': {'version': '1.2', 'creator': {},
                                   'entries': f['entries']}})
        g = case['rfaults'].setdefault(f['name'], {})
        if x < 0.35:
            f['cut'] = r.choice([0, 1, len(text) - 1, len(text) - 2,
                                 r.randrange(len(text))])
            f['indent'] = None
            f['ascii'] = True
            f['bad'] = 'torn'
        elif x < 0.6:
            g['eio_at'] = r.choice([0, 1, r.randrange(len(text)),
                                    r.randrange(len(text))])
            g['errno'] = r.choice([errno.EIO, errno.ESTALE, errno.EISDIR])
        elif x < 0.75:
            g['open'] = r.choice([errno.EACCES, errno.EMFILE, errno.EIO])
        elif x < 0.8:
            f['missing'] = True
            f['bad'] = 'missing'
        elif x < 0.88:
            f['text'] = r.choice(['', ' ', 'not json', '{"log": ', '\x00' * 40,
                                  text + '}', text + text,
                                  text.replace(':', '=', 1), '\ufeff' * 3 + text,
                                  text.replace('"headers"', '"head\ners"'),
                                  text.replace('"request"', "'request'", 1)])
            if r.random() < 0.35:
                # no text: bytes that are not UTF-8
                f['text'] = text
                f['rawat'] = r.choice([text.find('"value": "') + 10,
                                       text.find('"log"') + 2, 0, len(text),
                                       r.randrange(len(text))])
                f['raw'] = r.choice(['ff', '80', 'c3', 'e28228', 'eda080', 'c0af',
                                     'f5808080', 'e9'])
            f['bad'] = 'garbage'
        else:
            doc = json.loads(text)
            y = r.randrange(5)
            if y == 0:
                doc = {}
            elif y == 1:
                del doc['log']['entries']
            else:
                e = r.choice([e for e in doc['log']['entries'] if ishttp(e)])
                if y == 2:
                    del e['request']
                elif y == 3:
                    del e['response']
                else:
                    del e[r.choice(['request', 'response'])]['headers']
            f['text'] = json.dumps(doc)
            f['bad'] = 'structure'
        if 'eio_at' in g and 'chunks' not in g:
            pass
