"""Executes cases against the C++ classes: one process per run, AddressSanitizer
and the library's own assertions on, and every value it prints compared with a
list of bits."""
import hashlib
import os
import re
import resource
import struct
import subprocess

from codec_exec import Violation, short

TICK = lambda: None
CPU_S = 5


def to_bits(byts, n):
    out = []
    for c in byts:
        for k in range(7, -1, -1):
            out.append((c >> k) & 1)
    return out[:n]


def hexbits(bits):
    if not bits:
        return '-'
    n = -len(bits) % 8
    s = ''.join(map(str, bits)) + '0' * n
    return '%0*x' % (len(s) // 4, int(s, 2))


def int_bits(v, w):
    return [(v >> k) & 1 for k in range(w - 1, -1, -1)]


def bits_int(bits):
    return int(''.join(map(str, bits)) or '0', 2)


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(name, lines):
    env = {'ASAN_OPTIONS': 'detect_leaks=0:hard_rss_limit_mb=1500:'
                           'abort_on_error=0:handle_abort=0:symbolize=0',
           'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'}
    p = subprocess.run([os.path.join(os.environ['VERIF_CPP'], name)],
                       input=('\n'.join(lines) + '\nend\n').encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                       preexec_fn=limits)
    out = p.stdout.decode('latin1').split('\n')
    err = p.stderr.decode('latin1')
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        why = 'AddressSanitizer: ' + m.group(1)
    elif p.returncode == -6:
        why = 'abort'
    elif p.returncode in (-24, -9):
        why = 'no end within %d s of CPU time' % CPU_S
    elif p.returncode:
        why = 'exit status %d' % p.returncode
    else:
        why = None
    return [x for x in out if x], why, short(err[:300] if why == 'abort' else '')


class Plan(object):
    """Lines for the driver, and what each must answer."""

    def __init__(self, case):
        self.case = case
        self.lines = []
        self.want = []        # (op index, what, checker or expected string)

    def do(self, line):
        self.lines.append(line)

    def ask(self, i, line, want):
        self.lines.append(line)
        self.want.append((i, line, want))

    def go(self, log, ends='end'):
        """ends: 'end', or 'abort' when the last line must be refused"""
        out, why, err = run_driver(self.case['impl'], self.lines)
        for k, (i, line, want) in enumerate(self.want):
            TICK()
            self.case['_opi'] = i
            if k >= len(out) or out[k] == 'end':
                self.died(i, why, err)
            got = out[k]
            log(i, line, got)
            ok = want(got) if callable(want) else got == want
            if not ok:
                raise Violation('wrong-answer', '%s: got %s, expected %s' % (
                    short(line), short(got), 'something else' if callable(want)
                    else short(want)))
        rest = out[len(self.want):]
        log('ended', why)
        if ends == 'abort':
            if why != 'abort':
                raise Violation('read-past-end', '%s: %s' % (
                    short(self.lines[-1]), why or 'got ' + short(rest[:1])))
            return
        if why or rest != ['end']:
            self.died(len(self.case['ops']), why, err)

    def died(self, i, why, err):
        raise Violation('memory' if why and 'Address' in why else 'crash',
                        'after event %d: %s %s' % (i, why, err))


class Bucket(object):
    def __init__(self, k):
        self.k = k
        self.bits, self.pos = [], 0

    def avail(self):
        return len(self.bits) - self.pos

    def align(self):
        self.bits += [0] * (-len(self.bits) % 8)

    def state(self):
        n = len(self.bits)
        return 'state %d %d %d %d %d %s' % (
            n, self.pos, self.pos >= n, n - self.pos, (n + 7) // 8,
            hexbits(self.bits))


def run_cbits(case, log, probe):
    plan = Plan(case)
    bs = [Bucket(k) for k in range(case['n'])]
    ends = 'end'
    n_ops = 0

    def get(i, b, n):
        want = b.bits[b.pos:b.pos + n]
        probe('get-unaligned' if b.pos % 8 else 'get-aligned')
        b.pos += n
        plan.ask(i, 'get %d %d' % (b.k, n), 'got ' + hexbits(want))
        return want
    for i, op in enumerate(case['ops']):
        k, b = op[0], bs[op[1]]
        if k == 'bit':
            plan.do('bit %d %d' % (b.k, op[2]))
            b.bits.append(op[2])
        elif k == 'u':
            op[3] &= (1 << op[2]) - 1
            plan.do('u%d %d %d' % (op[2], b.k, op[3]))
            probe('u-unaligned' if len(b.bits) % 8 else 'u-aligned')
            b.bits += int_bits(op[3], op[2])
        elif k == 'bits':
            op[3] = op[3][:(op[2] + 7) // 8 * 2]
            if not op[3]:
                continue
            plan.do('bits %d %d %s' % (b.k, op[2], op[3]))
            b.bits += to_bits(bytes.fromhex(op[3]), op[2])
        elif k == 'bytes':
            plan.do('bytes %d %s' % (b.k, op[2] or '-'))
            b.bits += to_bits(bytes.fromhex(op[2]), len(op[2]) * 4)
        elif k == 'al':
            plan.do('al %d %s' % (b.k, op[2] or '-'))
            b.align()
            b.bits += to_bits(bytes.fromhex(op[2]), len(op[2]) * 4)
        elif k == 'ua':
            op[3] &= (1 << op[2]) - 1
            plan.do('a%d %d %d' % (op[2], b.k, op[3]))
            b.align()
            raw = struct.pack({8: '=B', 16: '=H', 32: '=I'}[op[2]], op[3])
            b.bits += to_bits(raw, op[2])
        elif k == 'ga':
            size = len(b.bits) // 8 - op[2] // 8
            if size < 0:
                continue
            pos = op[3] % (size + 1)
            raw = bytes(bits_int(b.bits[j * 8:j * 8 + 8])
                        for j in range(pos, pos + op[2] // 8))
            v = struct.unpack({8: '=B', 16: '=H', 32: '=I'}[op[2]], raw)[0]
            plan.ask(i, 'ga %d %d %d' % (b.k, op[2], pos), 'got %d' % v)
        elif k == 'get':
            if op[2] > b.avail():
                continue
            get(i, b, op[2])
        elif k == 'gbit':
            if b.avail() < 1:
                continue
            plan.ask(i, 'gbit %d' % b.k, 'got %d' % b.bits[b.pos])
            b.pos += 1
        elif k == 'peek':
            n, w = op[2], op[3]
            have = max(0, min(n, b.avail()))
            top = ((w << have) | bits_int(b.bits[b.pos:b.pos + have])) \
                & (0xffffffff >> (n - have))

            def same(got, top=top, n=n, have=have):
                return got.startswith('got ') and \
                    int(got[4:]) >> (n - have) == top
            plan.ask(i, 'peek %d %d %d' % (b.k, n, w), same)
        elif k == 'skip':
            n = min(op[2], b.avail())
            plan.do('skip %d %d' % (b.k, n))
            b.pos += n
        elif k == 'seek':
            b.pos = op[2] % (len(b.bits) + 1)
            plan.do('seek %d %d' % (b.k, b.pos))
        elif k == 'clear':
            plan.do('clear %d' % b.k)
            b.bits, b.pos = [], 0
        elif k == 'mv':
            c = bs[op[2]]
            n = min(op[3], b.avail())
            got = get(i, b, n)
            if n:
                plan.do('bits %d %d %s' % (c.k, n, hexbits(got)))
                c.bits += got
        elif k == 'over':
            plan.do('get %d %d' % (b.k, b.avail() + op[2]))
            probe('refused')
            ends = 'abort'
            break
        plan.ask(i, 'state %d' % b.k, b.state())
        n_ops += 1
    if ends == 'end':
        for b in bs:
            get(len(case['ops']), b, b.avail())
            plan.ask(len(case['ops']), 'state %d' % b.k, b.state())
    plan.go(log, ends)
    return {'ops': n_ops}


def table_lines(case):
    out = []
    for t, spec in enumerate(case['tables']):
        # an object may be given another table before it gets the one it uses
        for s in ([spec['before']] if spec.get('before') else []) + [spec]:
            if s['kind'] == 'freq':
                out.append('hfreq %d %s' % (t, ' '.join(map(str, s['freqs']))))
            else:
                out.append('hstd %d %d' % (t, s['kind'] == 'request_freq_table'))
    return out


def run_chuff(case, log, probe):
    """First run: what was stored and where.  Second: every string is read back
    from its place, in any order."""
    plan = Plan(case)
    for x in table_lines(case):
        plan.do(x)
    ends, items = [], []

    def note(got):
        f = got.split(' ')
        ends.append(int(f[1]))
        return f[0] == 'state'
    for i, op in enumerate(case['ops']):
        if op[0] == 'u':
            op[3] &= (1 << op[2]) - 1
            plan.do('u%d 0 %d' % (op[2], op[3]))
        elif op[0] == 'bit':
            plan.do('bit 0 %d' % op[2])
        else:
            if not op[4]:
                # 'both': whoever reads takes the end symbol or the end of
                # the bits, whichever comes first
                op[5] = 'both' if op[5] == 'both' else 'bits'
                if not op[3]:
                    continue
            t = op[2] % len(case['tables'])
            plan.do('henc 0 %d %s %d' % (t, op[3] or '-', op[4]))
            probe('strings')
        plan.ask(i, 'state 0', note)
        items.append(op)
    plan.go(log)
    p2 = Plan(case)
    p2.lines = list(plan.lines)
    p2.want = [(i, l, lambda got: True) for i, l, _ in plan.want]
    start = 0
    order = []
    for i, op in enumerate(items):
        order.append((start, ends[i], i, op))
        start = ends[i]
    if len(order) > 1 and len(order) % 2:
        order.reverse()
    for s, e, i, op in order:
        if e < s:
            raise Violation('wrong-answer', 'a string took %d bits' % (e - s))
        p2.do('seek 0 %d' % s)
        if op[0] == 'u':
            p2.ask(i, 'get 0 %d' % op[2],
                   'got ' + hexbits(int_bits(op[3], op[2])))
        elif op[0] == 'bit':
            p2.ask(i, 'gbit 0', 'got %d' % op[2])
        else:
            t = op[2] % len(case['tables'])
            p2.ask(i, 'hdec 0 %d %d %d' % (t, op[4] or op[5] == 'both',
                                           0 if op[5] == 'eof' else e - s),
                   'got ' + (op[3] or '-'))
    p2.go(log)
    return {'decoded': len([x for x in items if x[0] == 'enc'])}


def capture_text(op):
    """The stream, and where its lines end: [(end, line)]"""
    out = bytearray()
    lines = []
    for block in op['blocks']:
        for k, v in block:
            out += k.encode('latin1') + b': ' + v.encode('latin1') + b'\n'
            lines.append((len(out), (k, v)))
        out += b'\n'
        lines.append((len(out), None))
    return bytes(out), lines


def frames_of(lines):
    """requests and responses, by turns, as far as these lines go"""
    frames = [[], []]
    side, fresh = 0, True
    for l in lines:
        if fresh:
            frames[side].append([])
            fresh = False
        if l is None:
            side, fresh = 1 - side, True
        else:
            frames[side][-1].append(l)
    return frames, (side if fresh else None)


def pending(frames, side):
    """the same with the message that was to come next, still empty"""
    if side is None:
        return frames
    return [f + [[]] if k == side else f for k, f in enumerate(frames)]


def parse_shown(s):
    out = []
    for f in s.split('[')[1:]:
        f = f.strip().rstrip(']')
        kv = []
        for x in f.split(',') if f else []:
            k, v = x.split('=')
            kv.append(tuple(bytes.fromhex(y if y != '-' else '').decode('latin1')
                            for y in (k, v)))
        out.append(kv)
    return out


def run_parse(case, log, probe):
    """The C++ reader of captures: whole, cut, and damaged streams."""
    plan = Plan(case)
    n = 0
    faults = {'cut': 0, 'read-error': 0}
    for i, (_, op) in enumerate(case['ops']):
        data, lines = capture_text(op)
        ret, fail = 1, -1
        part = None             # a line that may be there in part
        if op.get('bad') is not None and lines:
            # a line of another shape in the middle
            k = op['bad'][0] % (len(lines) + 1)
            at = lines[k - 1][0] if k else 0
            data = data[:at] + op['bad'][1].encode('latin1') + b'\n' + data[at:]
            lines = lines[:k]
            ret = 0
            probe('refused')
        elif op.get('cut') is not None and data:
            cut = op['cut'] % (len(data) + 1)
            whole = [l for l in lines if l[0] <= cut]
            start = whole[-1][0] if whole else 0
            if start < cut:
                k, v = lines[len(whole)][1]
                if cut - start < len(k) + 2:
                    ret = 0         # not a line
                else:
                    part = (k, v[:cut - start - len(k) - 2])
            lines = whole
            if op.get('error'):
                fail = cut
                faults['read-error'] += 1
            else:
                data = data[:cut]
                faults['cut'] += 1
        lines = [l[1] for l in lines]
        used = op.get('used', 0)
        wants = [(ret, frames_of(lines + [part] if part else lines))]
        if op.get('cut') is not None:
            wants.append((1, frames_of(lines)))     # broken line left out

        def same(got, wants=wants, used=used, op=op):
            m = re.match(r'parsed (-?\d+) q(.*) s(.*)$', got)
            if not m:
                return False
            ret, q, s = int(m[1]), parse_shown(m[2]), parse_shown(m[3])
            if used:
                return ret == -1 and \
                    q == ([[('a', 'b')]] if used & 1 else []) and \
                    s == ([[('c', 'd')]] if used & 2 else [])
            if op.get('bad') is None and op.get('cut') is None \
                    and len(op['blocks']) % 2 == 0:
                return (ret, [q, s]) == (wants[0][0], wants[0][1][0])
            return (ret, [q, s]) in [(x, f) for x, w in wants
                                     for f in (w[0], pending(*w))]
        if used:
            probe('outputs-in-use')
        plan.ask(i, 'parse %s %d %d %s' % (data.hex() or '-', fail, used,
                                           ' '.join(map(str, op['sizes']))), same)
        n += len(lines)
    plan.go(log)
    return dict(faults, lines=n)


RUN = {'cbits': run_cbits, 'chuff': run_chuff, 'parse': run_parse}


def run_case(case):
    log = hashlib.sha1()
    probes = {}
    viol = None
    stats = {}
    case['_opi'] = -1

    def note(*a):
        log.update(repr(a).encode() + b'\n')

    def probe(n, k=1):
        probes[n] = probes.get(n, 0) + k
    try:
        stats = RUN[case['kind']](case, note, probe)
    except Violation as v:
        viol = {'class': v.cls, 'detail': 'C++ %s: %s' % (case['impl'], v.detail),
                'op': case['_opi']}
        note('VIOLATION', v.cls)
    except Exception as e:
        import traceback
        viol = {'class': 'harness', 'op': case['_opi'],
                'detail': '%r | %s' % (e, traceback.format_exc()[-800:])}
    return {'viol': viol, 'stats': stats, 'probes': probes,
            'digest': log.hexdigest()}
