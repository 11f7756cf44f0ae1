"""lane-wise equality masks"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every lane value (floats: every bit pattern) of the 20 implementing vector types'


def cases():
    out = []

    def one(e, bits):
        v, n, w = vec(e, bits), lanes(e, bits), ELW[e]
        m = 'm%d' % w

        def sp(c):
            r = []
            for x, y, o, p in zip(c.i['a'], c.i['b'], c.o['o'], c.o['p']):
                q = z3.fpEQ(tofp(x), tofp(y)) if e in ISF else x == y
                r += [o == z3.If(q, BV(M(w), w), BV(0, w)), p == z3.If(q, BV(0, w), BV(M(w), w))]
            return r
        u = 'u%d' % w
        out.append(Case('eq_' + v, 'use faster::intrin::eq::Eq as E; let x = LD!(a, {0}); let y = LD!(b, {0}); '
                        'let q = E::eq_mask(&x, y); let r = E::ne_mask(&x, y); '
                        'assert!(std::mem::size_of_val(&q) == {1} && std::mem::size_of_val(&r) == {1}); '
                        '(o as *mut <{0} as E>::Out).write_unaligned(q); (p as *mut <{0} as E>::Out).write_unaligned(r); 0'.format(v, bits // 8),
                        [In('a', e, n), In('b', e, n), Out('o', u, n), Out('p', u, n)], sp, what='eq_mask/ne_mask on ' + v))
    for e in ALL:
        for bits in (128, 256):
            one(e, bits)
    return out
