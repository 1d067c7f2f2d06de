#!/usr/bin/env python3
"""Validates planted changes: seedtry.py [--no-check] [--checks C01,C02] ID...
For each: demo on the clean tree (must be 0), patch applied to /repo, build,
stable tests, demo (must not be 0), the property's quick check (should be 1),
patch undone."""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace', **kw)


def main():
    args = sys.argv[1:]
    check = '--no-check' not in args
    fast = '--fast' in args           # the check only
    args = [a for a in args if not a.startswith('--no') and a != '--fast']
    extra = None
    if args and args[0] == '--checks':
        extra = args[1].split(',')
        args = args[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base if isinstance(base, list) else base.get('passed', base))
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
    for sid in args:
        d = os.path.join(V, 'seeded', sid)
        meta = json.load(open(d + '/meta.json'))
        assert not sh(['git', '-C', '/repo', 'status', '--porcelain', '-uno']).stdout
        res = [sid, meta['property']]
        if not fast:
            r = sh(['bash', d + '/demo.sh'], cwd='/repo')
            res.append('clean=%d' % r.returncode)
            if r.returncode:
                print(r.stdout[-1500:])
        r = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        if r.returncode:
            print(res, 'DOES NOT APPLY', r.stdout)
            continue
        try:
            if not fast:
                r = sh(['bash', '/opt/vp/build.sh'])
                res.append('build=%d' % r.returncode)
                sh(['bash', '/opt/vp/test.sh', '/tmp/seedtry.json'])
                t = json.load(open('/tmp/seedtry.json'))
                res.append('tests=%d/%d' % (len(t['passed']), len(t['failed'])))
                r = sh(['bash', d + '/demo.sh'], cwd='/repo')
                res.append('patched=%d' % r.returncode)
                last = r.stdout.strip().split('\n')[-1][:200]
            for pid in (extra or [meta['property']]) if check else []:
                t0 = time.time()
                r = sh(['/opt/venv/bin/python', '-B', 'sim/check.py', pid],
                       cwd=V, env=env)
                v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                res.append('%s: rc=%d %s %.0fs' % (pid, r.returncode, bool(v),
                                                   time.time() - t0))
                if r.returncode not in (0, 1):
                    print(r.stdout[-2000:])
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        print(' '.join(res), '' if fast else '| ' + last, flush=True)
    if not fast:
        sh(['bash', '/opt/vp/build.sh'])


main()
