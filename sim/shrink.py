"""Minimisation of a failing case: same violation class must persist."""
import copy
import time


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        changed = False
        i = 0
        while i < len(items) and time.monotonic() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                changed = True
            else:
                i += size
        if size == 1 and not changed:
            break
        if not changed:
            n = min(n * 2, max(2, len(items)))
        else:
            n = max(2, n - 1)
    return items


def shrink_str(s):
    if len(s) > 8:
        yield s[:len(s) // 2]
        yield s[len(s) // 2:]
    if len(s) > 1:
        yield s[:-1]
        yield s[1:]
    if any(c != 'a' for c in s) and len(s) <= 64:
        yield 'a' * len(s)


def shrink_codec(case, test, deadline):
    def with_ops(ops):
        c = dict(case)
        c['ops'] = ops
        return c
    case['ops'] = ddmin(case['ops'], lambda o: test(with_ops(o)), deadline)
    # drop connections that are no longer used
    used = sorted(set(op[1] for op in case['ops']))
    if len(used) < len(case['conns']):
        m = dict((o, n) for n, o in enumerate(used))
        c = dict(case, conns=[case['conns'][i] for i in used],
                 ops=[[op[0], m[op[1]]] + op[2:] for op in case['ops']])
        if test(c):
            case = c
    # drop parameters
    for i, spec in enumerate(case['conns']):
        for p in list(spec['params']):
            c = copy.deepcopy(case)
            c['conns'][i]['params'].remove(p)
            if time.monotonic() < deadline and test(c):
                case = c
    # drop headers, then shorten values
    for i, op in enumerate(case['ops']):
        if op[0] not in ('send', 'probe'):
            continue

        def with_h(h, i=i):
            c = dict(case)
            c['ops'] = list(case['ops'])
            c['ops'][i] = c['ops'][i][:3] + [h] + c['ops'][i][4:]
            return c
        # (the pseudo-headers stay: a message without them is out of bounds)
        def keep(names, h=op[3]):
            return [x for x in h if x[0][:1] == ':' or x[0] in names]
        h = ddmin([x[0] for x in op[3] if x[0][:1] != ':'],
                  lambda hh: test(with_h(keep(hh))), deadline)
        case = with_h(keep(h))
    for i, op in enumerate(case['ops']):
        if op[0] not in ('send', 'probe'):
            continue
        for j in range(len(case['ops'][i][3])):
            progress = True
            while progress and time.monotonic() < deadline:
                progress = False
                for v in shrink_str(case['ops'][i][3][j][1]):
                    c = copy.deepcopy(case)
                    c['ops'][i][3][j][1] = v
                    if test(c):
                        case = c
                        progress = True
                        break
                    if time.monotonic() > deadline:
                        break
    return case


def shrink_list(case, key, test, deadline):
    def w(x):
        c = dict(case)
        c[key] = x
        return c
    case[key] = ddmin(case[key], lambda o: test(w(o)), deadline)
    return case


def holds_http(case):
    """something was captured (the tool is not asked what it does otherwise)"""
    return any('entries' not in f or
               any(e['request']['url'].lower().startswith('http')
                   for e in f['entries']) for f in case['files'])


def shrink_tool(case, test, deadline):
    def ok(c):
        return time.monotonic() < deadline and holds_http(c) and test(c)
    for key in ('main', 'nolocale', 'locale', 'term'):
        if key in case:
            c = dict(case)
            del c[key]
            if ok(c):
                case = c
    # whole files, entries, then the headers of an entry
    i = len(case['files']) - 1
    while i >= 0 and len(case['files']) > 1:
        c = dict(case, files=case['files'][:i] + case['files'][i + 1:])
        if ok(c):
            case = c
        i -= 1
    for i in range(len(case['files'])):
        if 'entries' not in case['files'][i]:
            continue

        def with_e(es, i=i):
            fs = list(case['files'])
            fs[i] = dict(fs[i], entries=es)
            return dict(case, files=fs)
        es = ddmin(case['files'][i]['entries'],
                   lambda x: holds_http(with_e(x)) and test(with_e(x)), deadline)
        case = with_e(es)
        for j in range(len(es)):
            for side in ('request', 'response'):
                def with_h(hs, i=i, j=j, side=side):
                    c = copy.deepcopy(case)
                    c['files'][i]['entries'][j][side]['headers'] = hs
                    return c
                hs = ddmin(case['files'][i]['entries'][j][side]['headers'],
                           lambda x: test(with_h(x)), deadline)
                case = with_h(hs)
    # options
    k = 0
    while k < len(case['argv']):
        n = 2 if case['argv'][k] in ('-c', '-b', '-s', '-v', '--prefix') else 1
        c = dict(case, argv=case['argv'][:k] + case['argv'][k + n:])
        if ok(c):
            case = c
        else:
            k += n
    for key in ('rfaults', 'wfaults'):
        for name in list(case.get(key, {})):
            for f in list(case[key][name]):
                c = copy.deepcopy(case)
                del c[key][name][f]
                if f == 'errno':
                    continue
                if ok(c):
                    case = c
    for n in list(case['sims']):
        for key in ('acts', 'sizes'):
            if len(case['sims'][n][key]) > 1:
                c = copy.deepcopy(case)
                c['sims'][n][key] = c['sims'][n][key][:1]
                if ok(c):
                    case = c
        if not any(a.split('=')[0] == n for a in case['argv']):
            c = copy.deepcopy(case)
            del c['sims'][n]
            if ok(c):
                case = c
    return case


def shrink(case, test, deadline):
    case = copy.deepcopy(case)
    for f in (case.get('shrink') or ['codec']):
        if f == 'codec':
            case = shrink_codec(case, test, deadline)
        elif f == 'fork':
            case = shrink_list(case, 'ops', test, deadline)
            for i in range(len(case['ops'])):
                def with_h(h, i=i):
                    c = copy.deepcopy(case)
                    c['ops'][i][2] = h
                    return c
                h = ddmin(case['ops'][i][2], lambda x: test(with_h(x)), deadline)
                case = with_h(h)
            case = shrink_list(case, 'choices', test, deadline)
        elif f == 'ops':
            case = shrink_list(case, 'ops', test, deadline)
            for i in range(len(case['ops'])):
                for j, x in enumerate(case['ops'][i]):
                    if j < 2 or not isinstance(x, int) or isinstance(x, bool):
                        continue
                    for y in (0, 1, x // 2):
                        c = copy.deepcopy(case)
                        c['ops'][i][j] = y
                        if y < x and time.monotonic() < deadline and test(c):
                            case = c
                            break
        elif f == 'tool':
            case = shrink_tool(case, test, deadline)
        else:
            case = shrink_list(case, f, test, deadline)
    return case
