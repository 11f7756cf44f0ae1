"""population count"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every bit pattern of all 24 integer vector types'


def pop(x):
    """bit-sliced reference: sum of the bits (balanced tree of SWAR steps on 64-bit words)"""
    x = x - (z3.LShR(x, 1) & 0x5555555555555555)
    x = (x & 0x3333333333333333) + (z3.LShR(x, 2) & 0x3333333333333333)
    x = (x + z3.LShR(x, 4)) & 0x0f0f0f0f0f0f0f0f
    return x


def cases():
    out = []

    def one(e, bits):
        v, n = vec(e, bits), lanes(e, bits)

        def sp(c):
            t = BV(0, 64)
            for x in c.i['a']:
                for j in range(0, ELW[e], 8):
                    y = z3.Extract(j + 7, j, x)
                    s = z3.ZeroExt(4, z3.Extract(3, 0, y)), z3.ZeroExt(4, z3.Extract(7, 4, y))
                    b = BV(0, 8)
                    for q in range(8):
                        b = b + z3.ZeroExt(7, z3.Extract(q, q, y))
                    t = t + z3.ZeroExt(56, b)
            return [c.ret == t, c.o['o'][0] == bits - t]
        out.append(Case('pop_' + v, 'let x = LD!(a, {0}); *o = Popcnt::count_zeroes(&x) as u64; Popcnt::count_ones(&x)'.format(v),
                        [In('a', e, n), Out('o', 'u64', 1)], sp, what='count_ones/count_zeroes on ' + v))
    for e in INTS:
        for bits in BITS:
            one(e, bits)
    return out
