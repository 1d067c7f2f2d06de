"""Seeded generator of fork-world cases (driver side)."""
import random

from gen_codec import ASCII, URLCH, REQ_NAMES, RES_NAMES


def val(r):
    n = r.choice([0, 1, 3, 10, 30, 100, 100, 1000, 9000, 70000]) if r.random() < 0.3 \
        else r.randint(0, 40)
    a = r.choice([ASCII + ' ', URLCH, 'ab', 'ab\u00e9\u4e2d'])
    return ''.join(r.choices(a, k=n)).strip()


def msg(r, req):
    h = [[n, val(r)] for n in r.sample(REQ_NAMES if req else RES_NAMES,
                                       r.choice([0, 1, 3, 8]))]
    if h and r.random() < 0.3:
        i = r.randrange(len(h))
        h[i][1] = '\0'.join([val(r), val(r)])
    if req:
        h += [[':method', r.choice(['get', 'post'])], [':path', '/' + 'p' * r.randint(0, 20)],
              [':scheme', 'http'], [':host', 'www.example.com']]
    else:
        h += [[':status', '200']]
    if r.random() < 0.5:
        r.shuffle(h)
    return h


def answer(r, binary):
    x = r.random()
    if x < 0.35:
        return r.choice(['echo', 'upper'])
    n = r.choice([0, 1, 7, 8, 9, 40, 300, 4096, 8192, 8193, 20000, 70000]) \
        if r.random() < 0.4 else r.randint(0, 60)
    if binary:
        if r.random() < 0.5:
            return ''.join(map(chr, r.choices(range(256), k=n)))
        return ''.join(r.choices('\n\r\0a', k=n))
    return ''.join(r.choices(ASCII + '    \n\n\r', k=n))


def progname(r, i):
    if r.random() < 0.8:
        return 'prog%d' % i
    return r.choice(['bin', 'bin', 'a=b', 'my prog']) + ('%d' % i if i else '')


def make(seed):
    r = random.Random(seed)
    programs, conns = {}, []
    for i in range(r.choice([1, 1, 2, 2, 3])):
        kind = r.choice(['text', 'text', 'bin', 'bin', 'sample'])
        name = progname(r, i)
        sp = {'prog': kind, 'cap': r.choice([1, 16, 512, 4096, 65536, 65536]),
              'answers': [answer(r, kind == 'bin') for _ in range(r.choice([1, 3, 6]))],
              'dribble': r.random() < 0.5, 'end': r.choice(['\n', '\n', '\r\n', ' \n'])}
        if r.random() < 0.3:
            sp['die'] = [r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 60)])]
        if r.random() < 0.03:
            sp['nostart'] = True
        programs[name] = sp
        params = [name]
        if kind == 'bin':
            params.append('bin')
        elif r.random() < 0.1:
            params.append('other')
        conns.append({'req': r.random() < 0.5, 'params': params})
    if any(p['cap'] < 500 for p in programs.values()):
        big = 300
    else:
        big = None
    ops = []
    for _ in range(r.choice([1, 3, 8, 20])):
        ci = r.randrange(len(conns))
        m = msg(r, conns[ci]['req'])
        if big:
            m = [[k, v[:big]] for k, v in m]
        ops.append([ci, 'www.example.com', m])
    if big:
        for p in programs.values():
            p['answers'] = [a[:big] for a in p['answers']]
    return {'world': 'fork', 'rt': 'py3', 'programs': programs, 'conns': conns,
            'ops': ops, 'choices': [r.randrange(1 << 16)
                                    for _ in range(r.choice([1, 8, 64, 300]))],
            'shrink': ['fork']}
