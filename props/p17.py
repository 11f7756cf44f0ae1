"""sum, sum_upcast, product"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = ('integer sums: every lane value of all 24 integer vector types; float sums: lane values are integers small enough that no '
          'addition rounds (the order of additions is then immaterial), all 6 types; integer products: all lane values for release builds, '
          'sum_upcast: every lane value')
OUTSIDE = 'rounding of float sums and products'
ASSUMPTIONS = ['without debug assertions results wrap; with debug assertions sums are decided for lane values whose magnitude is at most '
               'MAX/lanes, so that no order of additions overflows, and must then not panic', 'products: release builds only']


def cases():
    out = []

    def isum(e, bits):
        v, n, w = vec(e, bits), lanes(e, bits), ELW[e]

        def sp(c):
            t = c.i['a'][0]
            for x in c.i['a'][1:]:
                t = t + x
            return [c.o['o'][0] == t]

        def small(ww):
            # with debug assertions: magnitudes whose sum always fits
            return lambda c: ({'a': (-(M(ww - 1) // n), M(ww - 1) // n) if signed(e) else (0, M(w - 1 if ww == 64 else w) // n)}
                              if c.dbg and ww <= w else {})
        out.append(Case('sum_' + v, 'let x = LD!(a, {0}); *o = Sum::sum(&x); 0'.format(v), [In('a', e, n), Out('o', e, 1)], sp,
                        bound=small(w), what='sum on ' + v))

        def up(c):
            t = ext(c.i['a'][0], e, 64) if w < 64 else c.i['a'][0]
            for x in c.i['a'][1:]:
                t = t + (ext(x, e, 64) if w < 64 else x)
            return [c.ret == t]

        out.append(Case('sumup_' + v, 'let x = LD!(a, {0}); UpcastSum::sum_upcast(&x) as usize'.format(v), [In('a', e, n)], up,
                        bound=small(64), what='sum_upcast on ' + v))

        def pr(c):
            t = c.i['a'][0]
            for x in c.i['a'][1:]:
                t = t * x
            return [c.o['o'][0] == t]
        out.append(Case('prod_' + v, 'let x = LD!(a, {0}); *o = Packed::product(&x); 0'.format(v), [In('a', e, n), Out('o', e, 1)], pr,
                        profiles=('rel',), what='product on ' + v))

    def fsum(e, bits):
        v, n, w = vec(e, bits), lanes(e, bits), ELW[e]
        lim = (1 << 18) if w == 32 else (1 << 46)

        asm = lambda c: {'a': (-lim, lim)}

        def sp(c):
            t = c.i['a'][0]
            for x in c.i['a'][1:]:
                t = t + x
            return [c.o['o'][0] == t]

        def up(c):
            t = z3.SignExt(64 - w, c.i['a'][0]) if w < 64 else c.i['a'][0]
            for x in c.i['a'][1:]:
                t = t + (z3.SignExt(64 - w, x) if w < 64 else x)
            return [c.ret == t]
        out.append(Case('sum_' + v, 'let x = LD!(a, {0}); *o = Sum::sum(&x); 0'.format(v), [In('a', e, n), Out('o', e, 1)], sp,
                        fpmode='exact', bound=asm, what='sum on ' + v))
        out.append(Case('sumup_' + v, 'let x = LD!(a, {0}); UpcastSum::sum_upcast(&x) as usize'.format(v), [In('a', e, n)], up,
                        fpmode='exact', bound=asm, what='sum_upcast on ' + v))
    for bits in BITS:
        for e in INTS:
            isum(e, bits)
        for e in FLOATS:
            fsum(e, bits)
    return out
