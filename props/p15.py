"""horizontal add/sub, plain and saturating"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every lane value of all 30 vector types (plain) and all 24 integer vector types (saturating)'
ASSUMPTIONS = ['plain hadd/hsub: with debug assertions a path may panic only if one of the lane results overflows; without them the '
               'result wraps']


def cases():
    out = []

    def one(e, bits, op, sat):
        v, n, w = vec(e, bits), lanes(e, bits), ELW[e]

        def pairs(c):
            a, b = c.i['a'], c.i['b']
            for k in range(0, n, 2):
                yield a[k], a[k + 1]
                yield b[k], b[k + 1]

        def sp(c):
            r = []
            for o, (x, y) in zip(c.o['o'], pairs(c)):
                if e in ISF:
                    r.append(same_float(o, (z3.fpAdd if op == 'add' else z3.fpSub)(z3.RNE(), tofp(x), tofp(y))))
                elif sat:
                    x, y = ext(x, e, w + 2), ext(y, e, w + 2)
                    r.append(o == clamp(x + y if op == 'add' else x - y, e))
                else:
                    r.append(o == (x + y if op == 'add' else x - y))
            return r

        def ovf(c):
            if not c.dbg:
                return z3.BoolVal(False)
            r = []
            for x, y in pairs(c):
                wx, wy = ext(x, e, w + 2), ext(y, e, w + 2)
                t = wx + wy if op == 'add' else wx - wy
                r.append(ext(clamp(t, e), e, w + 2) != t)
            return z3.Or(*r)
        t, m = ('SaturatingH' if sat else 'H') + op.capitalize(), ('saturating_h' if sat else 'h') + op
        out.append(Case('%s_%s' % (m, v), 'let x = LD!(a, {0}); let y = LD!(b, {0}); ST!(o, {0}, {1}::{2}(&x, y)); 0'.format(v, t, m),
                        [In('a', e, n), In('b', e, n), Out('o', e, n)], sp,
                        may_panic=None if sat or e in ISF else ovf, what='%s on %s' % (m, v)))
    for bits in BITS:
        for op in ('add', 'sub'):
            for e in ALL:
                one(e, bits, op, False)
            for e in INTS:
                one(e, bits, op, True)
    return out
