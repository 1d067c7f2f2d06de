"""Executes one tool-world case in several processes that differ in everything a
result must not depend on: the seed of the hash function (and so the order of
sets), the clocks, the time zone, the encoding of the locale, the random
generator, the allocations made before, and whether the same run was already made in the process.

The twins are worker processes of this world that this worker starts and feeds
with the same cases in the same order, so that what they have done before is a
function of the cases this worker was given.
"""
import json
import os
import random
import subprocess
import sys

import tool_exec

TICK = lambda: None
HERE = os.path.dirname(os.path.abspath(__file__))
CHILD = os.environ.get('VERIF_TWIN')
SEEDS = ('1', '97')
kids = []


def start(seed):
    env = dict(os.environ, VERIF_TWIN=seed, PYTHONHASHSEED=seed,
               TZ='XXX+07:30' if seed == '1' else 'UTC')
    return subprocess.Popen(
        [sys.executable, '-B', os.path.join(HERE, 'worker.py'), sys.argv[1],
         'twin'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL, env=env, cwd=HERE)


def view(R):
    """What of a run must be the same everywhere."""
    text = []
    for name, n, typ, lines in tool_exec.parse_output(R['text']):
        text.append([name, n, typ, sorted([k, v[0]] + list(v[2:])
                                          for k, v in lines.items())])
    tsv = {}
    for fn, body in R['files'].items():
        if fn.endswith('.tsv'):
            rows = [l.split('\t') for l in body.split('\n')]
            head = rows[0]
            tsv[fn] = [[head[i] + '=' + c if i < len(head) else c
                        for i, c in enumerate(r)] for r in rows[1:]]
            tsv[fn] = [r[:2] + sorted(r[2:]) for r in tsv[fn]]
    calls = {}
    for x in R['w'].log:
        calls.setdefault(x['codec'], []).append(
            [sorted(map(list, x['hdrs'].items())), x['host']])
    return json.loads(json.dumps(
        {'end': R['end'], 'results': text, 'tsv': sorted(map(list, tsv.items())),
         'calls': sorted(map(list, calls.items()))}))


def one(case):
    keep = {}
    r = tool_exec.run_case(case, keep)
    return r, (view(keep['R']) if 'R' in keep else None)


def shifted(case, k):
    c = dict(case)
    c['clock0'] = [x * 3 + 17.5 * k for x in case['clock0']]
    c['locale'] = {1: 'iso8859-1'}.get(k, 'utf-8')
    c['sims'] = dict((n, dict(s, jump=[j + 5e5 * k for j in s['jump']]))
                     for n, s in case['sims'].items())
    return c


def diff(a, b):
    for k in ('end', 'results', 'tsv', 'calls'):
        if a[k] != b[k]:
            x, y = a[k], b[k]
            where = k
            while isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                i = [i for i in range(len(x)) if x[i] != y[i]][0]
                where += '[%d]' % i
                x, y = x[i], y[i]
            return '%s: %.150r here, %.150r there' % (where, x, y)
    return None


def run_case(case):
    tool_exec.TICK = TICK
    if CHILD:
        k = int(CHILD)
        random.seed(k)
        junk = [object() for _ in range(k * 50)]
        out = []
        for again in range(2):
            r, v = one(shifted(case, k))
            out.append({'v': v, 'viol': r['viol']})
        del junk
        return {'twin': out}
    random.seed(0)
    if not kids:
        kids.extend(start(s) for s in SEEDS)
    for p in kids:
        p.stdin.write(json.dumps({'id': 0, 'cases': [case]}).encode() + b'\n')
        p.stdin.flush()
    r, v = one(case)
    answers = [json.loads(p.stdout.readline().decode() or '{}') for p in kids]
    if r['viol']:
        return r
    for s, a in zip(SEEDS, answers):
        for again, t in enumerate(a['results'][0]['twin']):
            if t['viol']:
                r['viol'] = dict(t['viol'], detail='only in another process: '
                                 + t['viol']['detail'])
                return r
            d = diff(v, t['v'])
            r['probes']['compared'] = r['probes'].get('compared', 0) + 1
            if d:
                r['viol'] = {
                    'class': 'not-reproducible', 'op': -1,
                    'detail': 'the same run %s gives another result: %s' % (
                        'repeated in the same process' if again and
                        t['v'] != a['results'][0]['twin'][0]['v'] else
                        'in another process (hash seed %s, other clocks)' % s, d)}
                r['digest'] += 'V'
                return r
    return r
