"""saturating narrowing conversions"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'every lane value of every implementing pair of vector types'
T = [('i32', 'i16'), ('i64', 'i32'), ('u64', 'u32'), ('f64', 'f32'), ('i16', 'i8'), ('u32', 'u16'), ('u16', 'u8')]


def cases():
    out = []

    def one(e, t, bits):
        v, n = vec(e, bits), lanes(e, bits)
        u, m = vec(t, bits), lanes(t, bits)

        def sp(c):
            r = []
            for x, o in zip(c.i['a'] + c.i['b'], c.o['o']):
                if t == 'f32':
                    r.append(same_float(o, z3.fpFPToFP(z3.RNE(), tofp(x), z3.Float32())))
                else:
                    r.append(o == clamp(ext(x, e, ELW[e] + 1), t))
            return r
        out.append(Case('down_%s_%s' % (v, u), 'let x = LD!(a, {0}); let y = LD!(b, {0}); let z: {1} = Downcast::<{1}>::saturating_downcast(x, y); ST!(o, {1}, z); 0'.format(v, u),
                        [In('a', e, n), In('b', e, n), Out('o', t, m)], sp, what='saturating_downcast %s to %s' % (v, u)))
    for e, t in T:
        for bits in (128, 256):
            one(e, t, bits)
    return out
