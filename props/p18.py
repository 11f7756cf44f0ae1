"""widening conversions"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every lane value of every implementing pair of vector types'
T = [('u8', 'u16'), ('i8', 'i16'), ('u16', 'u32'), ('i16', 'i32'), ('f32', 'f64'), ('i32', 'f64'), ('i32', 'i64'), ('u32', 'u64')]


def cases():
    out = []

    def one(e, t, bits):
        v, n = vec(e, bits), lanes(e, bits)
        u, m = vec(t, bits), lanes(t, bits)

        def sp(c):
            r = []
            for x, o in zip(c.i['a'], c.o['o'] + c.o['p']):
                if t == 'f64':
                    if e == 'f32':
                        r.append(same_float(o, z3.fpFPToFP(z3.RNE(), tofp(x), z3.Float64())))
                    else:
                        r.append(o == z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), x, z3.Float64())))
                else:
                    r.append(o == ext(x, e, ELW[t]))
            return r
        out.append(Case('up_%s_%s' % (v, u), 'let x = LD!(a, {0}); let (p0, p1) = Upcast::<{1}>::upcast(x); ST!(o, {1}, p0); ST!(p, {1}, p1); 0'.format(v, u),
                        [In('a', e, n), Out('o', t, m), Out('p', t, m)], sp, what='upcast %s to %s' % (v, u)))
    for e, t in T:
        for bits in (128, 256) + ((512,) if e in ('f32', 'i32', 'u32') else ()):
            one(e, t, bits)
    return out
