#!/opt/venv/bin/python
"""check.py PROPERTY [--replay FILE] [--selftest]

Seeded simulation of one property.  VERIF_SEED decides everything; VERIF_TIER
decides how many simulated runs are made.
"""
import hashlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import pool as poolmod          # noqa: E402
import props                    # noqa: E402
import shrink as shrinkmod      # noqa: E402


def canon(x):
    return json.dumps(x, sort_keys=True)


def load_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                f = json.loads(line)
                if f['property'] == pid and f['status'] == 'known':
                    out.append(f)
    return out


class Runner(object):
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.evals = 0
        self.digests = set()
        self.nontrivial = 0
        self.stats = {}
        self.probes = {}
        self.samples = []
        self.first = None
        self.known_hits = {}
        self.stop = threading.Event()
        self.findings = load_findings(prop.id)

    def counts(self, r):
        return r['viol'] is not None

    def on_result(self, i, case, r, prefix):
        self.evals += 1
        if 'gen' in case and (r['viol'] is not None or self.evals <= 3):
            case = self.prop.gen(*case['gen'][1:])
            prefix = [self.prop.gen(*c['gen'][1:]) if 'gen' in c else c
                      for c in prefix] if r['viol'] is not None else []
        for k, v in r['stats'].items():
            if k.startswith('max'):
                self.stats[k] = max(self.stats.get(k, 0), v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        for k, v in r['probes'].items():
            self.probes[k] = self.probes.get(k, 0) + v
        if r['viol'] is None and self.prop.nontrivial(case, r):
            self.digests.add(r['digest'])
        if len(self.samples) < 2 and 'gen' not in case and len(canon(case)) < 3000:
            self.samples.append({'case': case, 'digest': r['digest'],
                                 'stats': r['stats']})
        if r['viol'] is not None and r['viol']['class'] == 'harness':
            raise poolmod.HarnessError(json.dumps(r['viol']))
        if r['viol'] is not None:
            f = self.match_finding(case, r)
            if f:
                self.known_hits[f['id']] = self.known_hits.get(f['id'], 0) + 1
            elif self.first is None or i < self.first[0]:
                self.first = (i, case, r, prefix)
                self.stop.set()

    def match_finding(self, case, r):
        for f in self.findings:
            if self.prop.matches(f, case, r):
                return f
        return None

    def run(self):
        p = self.prop
        t0 = time.monotonic()
        n = p.count(self.tier)
        wall = float(os.environ.get('VERIF_WALL', p.wall(self.tier)))
        # one pool per runtime; p.runtime_of(i) says which one run i needs
        errors = []

        def go(rt, share, lock):
            # CPython workers generate their cases themselves; a case is a pure
            # function of (property, seed, index, tier) either way
            def case(i):
                s = '%d:%s:%d' % (self.seed, p.id, i)
                if rt == 'py3':
                    return {'gen': [p.id, s, i, self.tier], 'rt': rt}
                return p.gen(s, i, self.tier)
            mine = ((i, case(i)) for i in range(n) if p.runtime_of(i) == rt)
            share = int(os.environ.get('VERIF_WORKERS', share))
            pl = poolmod.Pool(rt, p.world, share, recycle=p.recycle,
                              case_timeout=p.case_timeout)

            def res(*a):
                with lock:
                    self.on_result(*a)

            def expired():
                # a slow machine gets more time, not fewer runs than it takes
                # to say anything
                t = time.monotonic() - t0
                return t > wall and (self.evals >= p.minimum or t > wall + 400)
            try:
                pl.run(mine, res, self.stop, expired)
            except poolmod.HarnessError as e:
                errors.append(e)
        lock = threading.Lock()
        ts = [threading.Thread(target=go, args=(rt, k, lock))
              for rt, k in p.runtimes(self.tier)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
        self.explore_s = time.monotonic() - t0
        self.planned = n


def is_same(r, cls):
    return r['viol'] is not None and r['viol']['class'] == cls


def minimise(prop, case, r, prefix, budget):
    """-> (cases, result) confirmed in a fresh process, or None"""
    cls = r['viol']['class']
    trace = cls == 'no-termination'

    rt = case['rt']

    def fresh(cases):
        return poolmod.run_fresh(rt, prop.world, cases, timeout=90,
                                 trace=trace)[-1]
    deadline = time.monotonic() + budget
    r1 = fresh([case])
    if r1['viol'] is None:
        # depends on what the process did before: keep the shortest suffix of
        # the preceding cases that still shows it
        pre = list(prefix)
        r2 = fresh(pre + [case])
        if r2['viol'] is None:
            return None
        cls = r2['viol']['class']
        k = 1
        best = pre
        while k < len(pre):
            cand = pre[-k:]
            if is_same(fresh(cand + [case]), cls):
                best = cand
                break
            k *= 2
        for i in range(len(best) - 1, -1, -1):
            if time.monotonic() > deadline or len(best) == 1:
                break
            cand = best[:i] + best[i + 1:]
            if is_same(fresh(cand + [case]), cls):
                best = cand
        return best + [case], fresh(best + [case])
    cls = r1['viol']['class']
    state = {'w': None}

    def test(c):
        if time.monotonic() > deadline:
            return False
        if trace:
            return is_same(fresh([c]), cls)
        if state['w'] is None:
            state['w'] = poolmod.Worker(rt, prop.world)
            state['first'] = True
        x = state['w'].ask([c], timeout=60 if state['first'] else 20)
        state['first'] = False
        if isinstance(x, str):
            state['w'].close()
            state['w'] = None
            return False
        return is_same(x[0], cls)
    small = shrinkmod.shrink(case, test, deadline)
    if state['w']:
        state['w'].close()
    r3 = fresh([small])
    if is_same(r3, cls):
        return [small], r3
    return [case], r1


def write_replay(prop, cases, r, seed):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop.id, 'runtime': cases[-1]['rt'], 'world': prop.world,
            'seed': seed, 'violation': r['viol'], 'digest': r['digest'],
            'cases': cases}
    name = '%s-%s.json' % (prop.id, hashlib.sha1(canon(cases).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
        f.write('\n')
    return path


def replay(path):
    body = json.load(open(path))
    prop = props.PROPS[body['property']]
    prop.prepare()
    trace = body['violation']['class'] == 'no-termination'
    r = poolmod.run_fresh(body['runtime'], body['world'], body['cases'],
                          timeout=120, trace=trace)[-1]
    print('replayed: %s' % json.dumps(r['viol']))
    if r['viol'] is None:
        print('the recorded violation does not occur on this tree')
        return 0
    same = r['viol'] == body['violation'] and r['digest'] == body['digest']
    print('same violation and event log as recorded: %s' % same)
    print('VIOLATION property=%s replay=%s' % (prop.id, path))
    return 1


def evidence(prop, run, wall, violations, det):
    st = dict(run.stats)
    hours = max(run.explore_s, 0.001) / 3600.0
    cov = {
        'evaluations': run.evals,
        'distinct_nontrivial': len(run.digests),
        'rule': prop.rule,
        'samples': run.samples or [{'note': 'no small sample'}],
        'planned_runs': run.planned,
        'seeds_per_hour': int(run.evals / hours),
        'simulated_time': prop.simtime,
        'simulated_events': dict((k, v) for k, v in st.items()
                                 if k not in prop.faults),
        'faults_injected': dict((k, st.get(k, 0)) for k in prop.faults),
        'probes': dict(sorted(run.probes.items())),
        'distinct_measure': 'distinct SHA-1 of the complete event log of a run',
        'real_components': prop.real,
        'stub_components': prop.stub,
        'known_findings_hit': run.known_hits,
        'determinism': det,
    }
    doc = {'property': prop.id, 'tier': run.tier, 'seed': run.seed,
           'level': 'exploration', 'coverage': cov,
           'assumptions': prop.assumptions, 'wall_s': round(wall, 2),
           'violations': violations}
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


def determinism(prop, seed, tier, n=6):
    """Run the first n cases twice more, in new processes with other hash
    seeds; the event logs must be identical.  Reported, not judged: the
    verdict of the property does not depend on it."""
    cases = []
    for i in range(200):
        if prop.runtime_of(i) != prop.runtime_of(0):
            continue
        c = prop.gen('%d:%s:%d' % (seed, prop.id, i), i, tier)
        if len(canon(c)) < 20000:
            cases.append(c)
        if len(cases) == n:
            break
    n = len(cases)
    out = {}

    def one(key, cs, hs):
        try:
            out[key] = [r['digest'] for r in poolmod.run_fresh(
                prop.runtime_of(0), prop.world, cs, hashseed=hs)]
        except poolmod.HarnessError as e:
            out[key] = [str(e)[:200]] * n
    ts = [threading.Thread(target=one, args=a) for a in
          (('a', cases, '0'), ('b', cases[::-1], '4242'))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    a, b = out['a'], out['b'][::-1]
    return {'cases_rerun': n, 'identical_logs': sum(x == y for x, y in zip(a, b)),
            'how': 'fresh process, reverse order, PYTHONHASHSEED 0 and 4242'}


def main(argv):
    pid = argv[0]
    if '--replay' in argv:
        return replay(argv[argv.index('--replay') + 1])
    prop = props.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    print('property=%s seed=%d tier=%s' % (pid, seed, tier))
    sys.stdout.flush()
    t0 = time.monotonic()
    prop.prepare()
    run = Runner(prop, seed, tier)
    # known findings: replay each recorded history
    known_lines = []
    for f in run.findings:
        if f.get('cases'):
            r = poolmod.run_fresh(f['cases'][-1]['rt'], prop.world, f['cases'],
                                  trace=f['class'] == 'no-termination')[-1]
            if r['viol'] is not None and r['viol']['class'] == f['class']:
                known_lines.append('KNOWN-FINDING: property=%s %s'
                                   % (pid, f['what']))
    run.run()
    if run.first is not None:
        i, case, r, prefix = run.first
        print('run %d: %s' % (i, json.dumps(r['viol'])))
        sys.stdout.flush()
        if os.environ.get('VERIF_FIND'):        # tools/mutate.py
            return 1
        got = minimise(prop, case, r, prefix, 60 if tier == 'quick' else 240)
        if got is None:
            print('not reproducible in a fresh process: harness fault')
            evidence(prop, run, time.monotonic() - t0, 0, {})
            return 3
        cases, rr = got
        if len(cases) > 0 and run.match_finding(cases[-1], rr):
            # minimisation slid onto a listed finding: report what was found
            cases, rr = [case], r
        path = write_replay(prop, cases, rr, seed)
        evidence(prop, run, time.monotonic() - t0, 1, {})
        print('minimised: %d case(s), %d events: %s'
              % (len(cases), len(cases[-1].get('ops', [])), json.dumps(rr['viol'])))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if run.evals < min(run.planned, prop.minimum):
        print('only %d of %d runs completed in the time allowed'
              % (run.evals, run.planned))
        return 3
    if os.environ.get('VERIF_FIND'):
        return 0
    det = determinism(prop, seed, tier)
    evidence(prop, run, time.monotonic() - t0, 0, det)
    for l in known_lines:
        print(l)
    print('held on %d runs (%d distinct), %s; %.1fs'
          % (run.evals, len(run.digests), json.dumps(run.stats, sort_keys=True),
             time.monotonic() - t0))
    zero = [p for p in prop.expected_probes if not run.probes.get(p)]
    if zero:
        print('note: probes never hit: %s' % ', '.join(zero))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except poolmod.HarnessError as e:
        print('HARNESS ERROR (no verdict): %s' % e)
        sys.exit(3)
