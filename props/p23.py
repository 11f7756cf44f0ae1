"""destriding"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every lane value of the 12 implementing vector types'


def cases():
    out = []

    def one(e, bits):
        v, n = vec(e, bits), lanes(e, bits)

        def s2(c):
            x = c.i['a'] + c.i['b']
            return [p == q for p, q in zip(c.o['o'] + c.o['p'], x[0::2] + x[1::2])]
        out.append(Case('d2_' + v, 'let x = LD!(a, {0}); let y = LD!(b, {0}); let (p0, p1) = Destride::destride_two(x, y); ST!(o, {0}, p0); ST!(p, {0}, p1); 0'.format(v),
                        [In('a', e, n), In('b', e, n), Out('o', e, n), Out('p', e, n)], s2, what='destride_two on ' + v))

        def s4(c):
            x = c.i['a'] + c.i['b'] + c.i['c'] + c.i['d']
            return [p == q for p, q in zip(c.o['o'] + c.o['p'] + c.o['q'] + c.o['r'], x[0::4] + x[1::4] + x[2::4] + x[3::4])]
        out.append(Case('d4_' + v, 'let (p0, p1, p2, p3) = Destride::destride_four(LD!(a, {0}), LD!(b, {0}), LD!(c, {0}), LD!(d, {0})); '
                        'ST!(o, {0}, p0); ST!(p, {0}, p1); ST!(q, {0}, p2); ST!(r, {0}, p3); 0'.format(v),
                        [In(k, e, n) for k in 'abcd'] + [Out(k, e, n) for k in 'opqr'], s4, what='destride_four on ' + v))
    for e in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32'):
        for bits in (128, 256):
            one(e, bits)
    return out
