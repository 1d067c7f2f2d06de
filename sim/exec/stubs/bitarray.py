"""Stand-in for the C extension `bitarray` (not installable under Jython):
only what compressor/simple/seven.py uses, with the extension's semantics."""


class bitarray(object):
    def __init__(self, bits=()):
        self.b = list(bits)

    def fromstring(self, s):
        for c in s:
            v = ord(c)
            for i in range(7, -1, -1):
                self.b.append((v >> i) & 1)
    frombytes = fromstring

    def extend(self, o):
        self.b.extend(o.b if isinstance(o, bitarray) else [1 if x else 0 for x in o])

    def append(self, x):
        self.b.append(1 if x else 0)

    def __len__(self):
        return len(self.b)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return bitarray(self.b[k])
        return bool(self.b[k])

    def tobytes(self):
        out = []
        for i in range(0, len(self.b), 8):
            v = 0
            ch = self.b[i:i + 8]
            for x in ch:
                v = v * 2 + x
            out.append(chr(v << (8 - len(ch))))
        return ''.join(out)
    tostring = tobytes
