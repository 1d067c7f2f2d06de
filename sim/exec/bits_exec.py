"""Executes cases against the Python bit buckets, Huffman coders and LRU storage
(Jython).  A writer and a reader share a bucket; the case says who moves when.

The modules of every copy (delta, delta2, delta_bohe, delta2_bohe, bohe) are
loaded from their own directory, because two of the packages cannot be imported
as packages.
"""
import hashlib
import os
import sys

from codec_exec import ANY, Violation, excname, short

TICK = lambda: None
repo = sys.argv[1]
LOADED = {}


def load(impl, *names):
    key = (impl, names)
    if key in LOADED:
        return LOADED[key]
    d = os.path.join(repo, 'compressor', impl)

    def forget():
        for n, m in list(sys.modules.items()):
            f = getattr(m, '__file__', None)
            if f and '.' not in n and os.path.dirname(os.path.abspath(f)).startswith(
                    os.path.join(repo, 'compressor')):
                del sys.modules[n]
    forget()
    sys.path.insert(0, d)
    try:
        mods = [__import__(n) for n in names]
    finally:
        sys.path.remove(d)
        forget()
    LOADED[key] = mods
    return mods


def unhex(h):
    return [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]


def to_bits(byts, n):
    out = []
    for c in byts:
        for k in range(7, -1, -1):
            out.append((c >> k) & 1)
    return out[:n]


def to_bytes(bits):
    out = []
    for i in range(0, len(bits), 8):
        c = 0
        part = bits[i:i + 8]
        for x in part:
            c = c << 1 | x
        out.append(c << (8 - len(part)))
    return out


def int_bits(v, w):
    return [(v >> k) & 1 for k in range(w - 1, -1, -1)]


def bits_int(bits):
    v = 0
    for x in bits:
        v = v << 1 | x
    return v


class Bucket(object):
    """A real bucket and what it should hold."""

    def __init__(self, cls):
        self.real = cls()
        self.bits = []
        self.pos = 0
        self.zero = self.real.BitsRemaining()    # what 'nothing left' reads as
        self.queue = []

    def avail(self):
        return len(self.bits) - self.pos

    def take(self, n):
        out = self.bits[self.pos:self.pos + n]
        self.pos += n
        return out

    def check(self):
        r, n = self.real, len(self.bits)
        eq('NumBits', r.NumBits(), n)
        eq('BytesOfStorage', r.BytesOfStorage(), (n + 7) // 8)
        eq('AllConsumed', bool(r.AllConsumed()), n <= self.pos)
        eq('BitsRemaining', r.BitsRemaining() - self.zero, n - self.pos)
        byts, m = r.GetAllBits()
        eq('GetAllBits', (list(byts), m), (to_bytes(self.bits), n))


def eq(what, got, want):
    if got != want:
        raise Violation('wrong-bits', '%s: got %s, expected %s'
                        % (what, short(got), short(want)))


def call(what, f, *a):
    try:
        return f(*a)
    except ANY as e:
        raise Violation('exception', '%s: %s: %s' % (what, excname(e), short(str(e))))


WIDTHS = {1: 'Bit', 4: 'Bits4', 8: 'Bits8', 16: 'Bits16', 32: 'Bits32'}


def store_u(b, w, v):
    call('Store' + WIDTHS[w], getattr(b.real, 'Store' + WIDTHS[w]), v)
    b.bits += int_bits(v, w)


def get_u(b, w):
    name = 'Get' + WIDTHS[w]
    eq(name, call(name, getattr(b.real, name)), bits_int(b.take(w)))


def get_n(b, n):
    want = b.take(n)
    got = call('GetBits', b.real.GetBits, n)
    eq('GetBits', (list(got[0]), got[1]), (to_bytes(want), n))
    return got


def refused(b, n):
    """More than there is: must be refused, and take nothing."""
    try:
        got = b.real.GetBits(n)
    except ANY:
        return
    raise Violation('read-past-end', '%d bits asked for, %d available, got %s'
                    % (n, b.avail(), short(got)))


def run_bits(case, log, probe):
    bb = load(case['impl'], 'bit_bucket')[0]
    bs = [Bucket(bb.BitBucket) for _ in range(case['n'])]
    ops = 0
    for opi, op in enumerate(case['ops']):
        TICK()
        case['_opi'] = opi
        k, b = op[0], bs[op[1]]
        if k == 'bits':
            by = unhex(op[3])[:(op[2] + 7) // 8]
            if not by:
                continue
            before = list(by)
            call('StoreBits', b.real.StoreBits, (by, op[2]))
            b.bits += to_bits(before, op[2])
            eq('the caller\'s list', by, before)
            probe('store-unaligned' if (len(b.bits) - op[2]) % 8 else 'store-aligned')
        elif k == 'u':
            store_u(b, op[2], op[3] & (1 << op[2]) - 1)
        elif k == 'get':
            if op[2] > b.avail():
                continue
            probe('get-unaligned' if b.pos % 8 else 'get-aligned')
            get_n(b, op[2])
        elif k == 'getu':
            if op[2] > b.avail():
                continue
            get_u(b, op[2])
        elif k == 'over':
            refused(b, max(b.avail(), 0) + op[2])
            probe('refused')
        elif k == 'pad':
            call('PadToByteBoundary', b.real.PadToByteBoundary)
            b.bits += [0] * (-len(b.bits) % 8)
        elif k == 'adv':
            name = 'AdvanceReadPtrToByteBoundary'
            if not hasattr(b.real, name):
                name = 'AdvanceToByteBoundary'
            call(name, getattr(b.real, name))
            b.pos += -b.pos % 8
        elif k == 'clear':
            call('Clear', b.real.Clear)
            b.bits, b.pos = [], 0
        elif k == 'mv':
            c = bs[op[2]]
            n = min(op[3], b.avail())
            if n < 0:
                continue
            got = get_n(b, n)
            want = to_bits(list(got[0]), n)
            call('StoreBits', c.real.StoreBits, got)
            c.bits += want
            c.check()
        elif k == 'cp':
            c = bs[op[2]]
            if b is c:
                continue
            call('StoreBits', c.real.StoreBits, b.real.GetAllBits())
            c.bits += b.bits
            c.check()
        log(opi, k, b.real.NumBits())
        b.check()
        ops += 1
    for b in bs:
        b.check()
        if b.avail() > 0:
            get_n(b, b.avail())
            b.check()
    return {'ops': ops}


# ----------------------------------------------------------------------------

def table_of(impl, spec, mods):
    if spec['kind'] == 'freq':
        return [(chr(i) if i < 256 and spec.get('chr') else i, f)
                for i, f in enumerate(spec['freqs'])]
    ft = mods[2]
    return getattr(ft, spec['kind'])


def run_huff(case, log, probe):
    mods = load(case['impl'], 'huffman', 'bit_bucket', 'header_freq_tables')
    huffs = []
    for spec in case['tables']:
        h = call('Huffman()', mods[0].Huffman, table_of(case['impl'], spec, mods))
        huffs.append(h)
    bs = [Bucket(mods[1].BitBucket) for _ in range(case['n'])]
    done = 0

    def dec(b):
        if not b.queue:
            return 0
        item = b.queue.pop(0)
        if item[0] == 'u':
            get_u(b, item[1])
            return 0
        _, t, text, eof, nbits, how, pad = item
        if how == 'eof':
            limit = 0
        else:
            limit = nbits + pad
        got = call('DecodeFromBB', huffs[t].DecodeFromBB, b.real, eof, limit)
        if list(got) != text:
            raise Violation('wrong-string', 'table %d: got %s, encoded %s'
                            % (t, short(list(got)), short(text)))
        b.take(nbits + pad)
        if pad and how == 'eof':
            get_n(b, 0) if False else b.real.GetBits(pad)
        eq('BitsRemaining after a string', b.real.BitsRemaining() - b.zero, b.avail())
        log('dec', t, got)
        return 1
    for opi, op in enumerate(case['ops']):
        TICK()
        case['_opi'] = opi
        k, b = op[0], bs[op[1]]
        if k == 'enc':
            _, _, t, hx, eof, how, pad = op
            t %= len(huffs)
            text = unhex(hx)
            if not eof:
                how, pad = 'tuple' if how == 'tuple' else 'bits', 0
                if not text:
                    continue
            n0 = b.real.NumBits()
            if how == 'tuple':
                tup = call('Encode', huffs[t].Encode, text, eof)
                call('StoreBits', b.real.StoreBits, (list(tup[0]), tup[1]))
                how = 'bits'
            else:
                call('EncodeToBB', huffs[t].EncodeToBB, b.real, text, eof)
            nbits = b.real.NumBits() - n0
            if pad:
                b.real.StoreBits(([0] * ((pad + 7) // 8), pad))
            all_, n = b.real.GetAllBits()
            b.bits += to_bits(all_[n0 // 8:], n - n0 // 8 * 8)[n0 % 8:]
            b.queue.append(('s', t, text, eof, nbits, how, pad))
            probe('strings')
        elif k == 'u':
            store_u(b, op[2], op[3] & (1 << op[2]) - 1)
            b.queue.append(('u', op[2]))
        elif k == 'dec':
            done += dec(b)
        elif k == 'drain':
            while b.queue:
                done += dec(b)
        elif k == 'clear':
            call('Clear', b.real.Clear)
            b.bits, b.pos, b.queue = [], 0, []
        log(opi, k, b.real.NumBits())
    for b in bs:
        while b.queue:
            done += dec(b)
        b.check()
        eq('AllConsumed at the end', bool(b.real.AllConsumed()), True)
    return {'decoded': done}


# ----------------------------------------------------------------------------

def run_lru(case, log, probe):
    lru = load('delta2', 'lrustorage')[0]
    mb, mi, ms, off = case['limits']
    s = lru.LruStorage(mb, mi, ms, off)
    base = off or 0
    popped = []

    def cb(item):
        popped.append((item.seq_num, item.key(), item.val()))
    s.pop_cb = cb
    live = []            # [seq, key, key id, val, entry], oldest first
    nxt = [base]
    ids = [0]

    def size(items):
        seen, n = set(), 0
        for it in items:
            n += len(it[3])
            if it[2] not in seen:
                seen.add(it[2])
                n += len(it[1])
        return n

    def check():
        eq2('number of entries', len(s), len(live))
        eq2('byte_size', s.byte_size, size(live))
        if mb is not None and s.byte_size > mb or mi is not None and len(s) > mi:
            raise Violation('limits', 'holds %d bytes in %d entries; limits %r, %r'
                            % (s.byte_size, len(s), mb, mi))

    def eq2(what, got, want):
        if got != want:
            raise Violation('storage', '%s: %s, expected %s'
                            % (what, short(got), short(want)))

    def fits(items, new):
        return not (mi is not None and len(items) + 1 > mi
                    or mb is not None and size(items + [new]) > mb)

    for opi, op in enumerate(case['ops']):
        TICK()
        case['_opi'] = opi
        k = op[0]
        del popped[:]
        if k in ('ins', 'sto'):
            key, val, share = str(op[1]), str(op[2]), op[3]
            if share is not None and live:
                it = live[share % len(live)]
                key, kid = it[1], it[2]
                kv = lru.KV(it[4].key_, val)
                probe('shared')
            else:
                ids[0] += 1
                kid = ids[0]
                kv = lru.KV(key, val)
            new = [None, key, kid, val, kv]
            want = []
            if k == 'ins':
                ok = not (mi == 0 or mb == 0)
                if ok:
                    while not fits(live, new) and live:
                        want.append(live.pop(0))
                    ok = fits(live, new)
                got = call('Reserve', s.Reserve, kv, 1)
                eq2('Reserve', bool(got), ok)
                eq2('evicted', popped, [(x[0], x[1], x[3]) for x in want])
                probe('evictions', len(want))
            else:
                ok = fits(live, new) and not mi == 0
                if mi == 0:
                    kv.done()
                    continue       # Store takes 0 items for 'no limit'
            if ok:
                call('Store', s.Store, kv)
                new[0] = nxt[0]
                eq2('seq_num', kv.seq_num, nxt[0])
                nxt[0] += 1
                if ms is not None and nxt[0] >= ms:
                    nxt[0] = base
                    probe('wrapped')
                live.append(new)
            else:
                if k == 'sto':
                    try:
                        s.Store(kv)
                    except ANY:
                        probe('store-refused')
                    else:
                        raise Violation('storage', 'Store went over its limits')
                kv.done()
        elif k == 'pop':
            want = [live.pop(0)] if live else []
            got = call('PopOne', s.PopOne)
            eq2('PopOne', bool(got), bool(want))
            eq2('popped', popped, [(x[0], x[1], x[3]) for x in want])
        elif k == 'find':
            key, val = str(op[1]), str(op[2])
            if live and op[3] is not None:
                it = live[op[3] % len(live)]
                key, val = it[1], it[3] if op[4] else val
            want = (None, None)
            for it in live[::-1]:
                if it[1] == key and it[3] == val:
                    want = (it[0], it[0])
                    break
            else:
                for it in live[::-1]:
                    if it[1] == key:
                        want = (it[0], None)
                        break
            eq2('FindKeyValEntries', tuple(call(
                'FindKeyValEntries', s.FindKeyValEntries, key, val)), want)
            probe('found-both' if want[1] is not None else
                  'found-name' if want[0] is not None else 'not-found')
        elif k == 'look':
            top = ms if ms is not None else nxt[0] + 3
            seq = base - 2 + op[1] % (top - base + 4)
            if live and op[1] % 3:
                seq = live[op[1] // 3 % len(live)][0]
            it = [x for x in live if x[0] == seq]
            if it:
                e = call('Lookup', s.Lookup, seq)
                eq2('Lookup', (e.key(), e.val(), e.seq_num), (it[0][1], it[0][3], seq))
                probe('looked-up')
            else:
                try:
                    e = s.Lookup(seq)
                except ANY:
                    probe('lookup-refused')
                else:
                    raise Violation('storage', 'Lookup(%d) returned %s, which is '
                                    'not there' % (seq, short(e)))
        log(opi, k, s.byte_size, len(s))
        check()
    for it in live:
        e = call('Lookup', s.Lookup, it[0])
        eq2('Lookup', (e.key(), e.val(), e.seq_num), (it[1], it[3], it[0]))
    return {'entries': nxt[0]}


RUN = {'bits': run_bits, 'huff': run_huff, 'lru': run_lru}


def run_case(case):
    log = hashlib.sha1()
    probes = {}
    viol = None
    stats = {}
    case['_opi'] = -1

    def note(*a):
        log.update(repr(a) + '\n')

    def probe(n, k=1):
        probes[n] = probes.get(n, 0) + k
    try:
        stats = RUN[case['kind']](case, note, probe)
    except Violation as v:
        viol = {'class': v.cls, 'detail': '%s: %s' % (case.get('impl', 'delta2'),
                                                     v.detail),
                'op': case['_opi']}
        note('VIOLATION', v.cls)
    except ANY as e:
        import traceback
        viol = {'class': 'harness', 'op': case['_opi'],
                'detail': '%s: %s | %s' % (excname(e), short(str(e)),
                                           traceback.format_exc()[-800:])}
    return {'viol': viol, 'stats': stats, 'probes': probes,
            'digest': log.hexdigest()}
