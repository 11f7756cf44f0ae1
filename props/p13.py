"""abs, min, max"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every lane value (floats: every bit pattern) of every implementing vector type'
ASSUMPTIONS = ['min/max of a NaN with anything may be either operand (the two code paths differ and the documentation is silent); '
               'min/max of zeros of different sign may be either']

ABS = ['i8x16', 'i16x8', 'i32x4', 'i64x2', 'i8x32', 'i16x16', 'i32x8', 'i64x4', 'i64x8', 'f32x4', 'f64x2', 'f32x8', 'f64x4']


def cases():
    out = []

    def ab(v):
        e, n = v.split('x')
        n = int(n)
        w = ELW[e]
        u = e if e in ISF else 'u' + e[1:]

        def sp(c):
            r = []
            for x, o in zip(c.i['a'], c.o['o']):
                if e in ISF:
                    r.append(o == (x & M(w - 1)))
                else:
                    r.append(o == z3.If(x < 0, -x, x))
            return r
        imin = None
        if e not in ISF:
            imin = lambda c: z3.And(z3.BoolVal(c.dbg), z3.BoolVal(False))
        out.append(Case('abs_' + v, 'let x = LD!(a, {0}); ST!(o, {1}x{2}, Abs::abs(&x)); 0'.format(v, u, n),
                        [In('a', e, n), Out('o', u, n)], sp, may_panic=imin, what='abs on ' + v))

    def mm(e, bits, op):
        v, n, w = vec(e, bits), lanes(e, bits), ELW[e]

        def sp(c):
            r = []
            for x, y, o in zip(c.i['a'], c.i['b'], c.o['o']):
                if e in ISF:
                    fx, fy = tofp(x), tofp(y)
                    lt = z3.fpLT(fx, fy) if op == 'min' else z3.fpGT(fx, fy)
                    r.append(z3.Or(o == x, o == y, z3.And(isnan(o), z3.Or(isnan(x), isnan(y)))))
                    r.append(z3.Implies(lt, o == x))
                    r.append(z3.Implies(z3.fpLT(fy, fx) if op == 'min' else z3.fpGT(fy, fx), o == y))
                else:
                    g = gt(x, y, e)
                    r.append(o == (z3.If(g, y, x) if op == 'min' else z3.If(g, x, y)))
            return r
        out.append(Case('%s_%s' % (op, v), 'let x = LD!(a, {0}); let y = LD!(b, {0}); ST!(o, {0}, Cmp::{1}(&x, y)); 0'.format(v, op),
                        [In('a', e, n), In('b', e, n), Out('o', e, n)], sp, what=op + ' on ' + v))
    for v in ABS:
        ab(v)
    for e in UINTS[:3] + SINTS[:3] + FLOATS:
        for bits in (128, 256):
            for op in ('min', 'max'):
                mm(e, bits, op)
    return out
