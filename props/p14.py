"""saturating add/sub"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every value of every lane; 8- and 16-bit element types in 128- and 256-bit vectors; no loops'


def cases():
    out = []
    for e in ('u8', 'i8', 'u16', 'i16'):
        for bits in (128, 256):
            v, n = vec(e, bits), lanes(e, bits)
            for op in ('add', 'sub'):
                def spec(c, e=e, op=op):
                    r = []
                    for x, y, o in zip(c.i['a'], c.i['b'], c.o['o']):
                        W = ELW[e] + 2
                        x, y = ext(x, e, W), ext(y, e, W)
                        r.append(o == clamp(x + y if op == 'add' else x - y, e))
                    return r
                out.append(Case('sat_%s_%s' % (op, v),
                                'let x = LD!(a, %s); let y = LD!(b, %s); ST!(o, %s, Saturating%s::saturating_%s(&x, y)); 0' % (
                                    v, v, v, op.capitalize(), op),
                                [In('a', e, n), In('b', e, n), Out('o', e, n)], spec,
                                what='saturating_%s on %s' % (op, v)))
    return out
