"""rounding, square root, reciprocal estimates"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every bit pattern of every lane of f32x4, f32x8, f64x2, f64x4'
OUTSIDE = ('the accuracy of the hardware reciprocal estimates (RCPPS/RSQRTPS are uninterpreted functions of their lane)')
ASSUMPTIONS = ['round: ties may go to even or away from zero (the two code paths differ and the documentation says only "nearest")',
               'recip/rsqrt: each lane is the processor\'s estimate instruction applied to that lane, or the correctly rounded quotient']


def cases():
    out = []

    def rnd(e, bits, op):
        v, n = vec(e, bits), lanes(e, bits)
        rms = {'round': [z3.RNE(), z3.RNA()], 'ceil': [z3.RTP()], 'floor': [z3.RTN()], 'trunc': [z3.RTZ()]}[op]

        def sp(c):
            return [z3.Or(*[same_float(o, z3.fpRoundToIntegral(rm, tofp(x))) for rm in rms]) for x, o in zip(c.i['a'], c.o['o'])]
        out.append(Case('%s_%s' % (op, v), 'let x = LD!(a, {0}); ST!(o, {0}, Round::{1}(&x)); 0'.format(v, op),
                        [In('a', e, n), Out('o', e, n)], sp, what=op + ' on ' + v))

    def sq(e, bits):
        v, n = vec(e, bits), lanes(e, bits)
        out.append(Case('sqrt_' + v, 'let x = LD!(a, {0}); ST!(o, {0}, faster::intrin::sqrt::Sqrt::sqrt(&x)); 0'.format(v),
                        [In('a', e, n), Out('o', e, n)],
                        lambda c: [same_float(o, z3.fpSqrt(z3.RNE(), tofp(x))) for x, o in zip(c.i['a'], c.o['o'])], what='sqrt on ' + v))

    def est(bits, op):
        v, n = vec('f32', bits), lanes('f32', bits)
        f = z3.Function('hw_rcp' if op == 'recip' else 'hw_rsqrt', z3.BitVecSort(32), z3.BitVecSort(32))

        def sp(c):
            r = []
            one = z3.FPVal(1.0, z3.Float32())
            for x, o in zip(c.i['a'], c.o['o']):
                d = tofp(x) if op == 'recip' else z3.fpSqrt(z3.RNE(), tofp(x))
                r.append(z3.Or(o == f(x), same_float(o, z3.fpDiv(z3.RNE(), one, d))))
            return r
        out.append(Case('%s_%s' % (op, v), 'let x = LD!(a, {0}); ST!(o, {0}, {1}::{2}(&x)); 0'.format(v, op.capitalize(), op),
                        [In('a', 'f32', n), Out('o', 'f32', n)], sp, what=op + ' on ' + v))
    for bits in (128, 256):
        for e in FLOATS:
            for op in ('round', 'ceil', 'floor', 'trunc'):
                rnd(e, bits, op)
            sq(e, bits)
        for op in ('recip', 'rsqrt'):
            est(bits, op)
    return out
