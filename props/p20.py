"""byte order and bit reinterpretation"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every bit pattern of all 24 integer (byte order) and all 30 (reinterpretation) vector types'


def bswap(x):
    w = x.size()
    return x if w == 8 else z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)])


def cases():
    out = []

    def one(e, bits):
        v, n = vec(e, bits), lanes(e, bits)

        def sp(c):
            r = []
            for k, x in enumerate(c.i['a']):
                s = bswap(x)
                for o, y in (('o', s), ('p', s), ('q', s), ('r', x), ('s', x)):
                    r.append(c.o[o][k] == y)
            return r
        out.append(Case('end_' + v, 'let x = LD!(a, {0}); ST!(o, {0}, Reendianize::swap_bytes(&x)); ST!(p, {0}, Reendianize::to_be(&x)); '
                        'ST!(q, {0}, Reendianize::from_be(&x)); ST!(r, {0}, Reendianize::to_le(&x)); ST!(s, {0}, Reendianize::from_le(&x)); 0'.format(v),
                        [In('a', e, n)] + [Out(k, e, n) for k in 'opqrs'], sp, what='swap_bytes/to_be/from_be/to_le/from_le on ' + v))

    def tr(e, bits):
        v, n = vec(e, bits), lanes(e, bits)
        N = bits // 8
        body = 'let x = LD!(a, %s) ;' % v
        names = []
        for k, t in enumerate(ALL):
            f = 'be_%ss%s' % (t, '_unchecked' if t in ISF else '')
            names.append('o%d' % k)
            body += 'ST!(o%d, %s, Transmute::%s(&x)); ' % (k, vec(t, bits), f)
        body += '0'

        def sp(c):
            bs = []
            for x in c.i['a']:
                bs += [z3.Extract(8 * j + 7, 8 * j, x) for j in range(ELW[e] // 8)]
            return [c.o[nm][j] == bs[j] for nm in names for j in range(N)]
        out.append(Case('be_' + v, body, [In('a', e, n)] + [Out(nm, 'u8', N) for nm in names], sp, what='be_* reinterpretation of ' + v))
    for e in ALL:
        for bits in BITS:
            if e in INTS:
                one(e, bits)
            tr(e, bits)
    return out
