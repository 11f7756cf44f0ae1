"""merging two vectors"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'all 30 vector types, every lane value; partition points 0..=WIDTH (any 64-bit value for safety)'


def cases():
    out = []

    def one(e, bits):
        v, n, w = vec(e, bits), lanes(e, bits), ELW[e]
        P = [In('a', e, n), In('b', e, n), Out('o', e, n), Out('p', e, n)]

        def sp(c):
            a, b = c.i['a'], c.i['b']
            return ([c.o['o'][k] == (a[k] if k < n // 2 else b[k]) for k in range(n)] +
                    [c.o['p'][k] == (b[k] if k % 2 else a[k]) for k in range(n)])
        out.append(Case('merge_' + v, 'let x = LD!(a, {0}); let y = LD!(b, {0}); ST!(o, {0}, Merge::merge_halves(&x, y)); '
                        'ST!(p, {0}, Merge::merge_interleaved(&x, y)); 0'.format(v), P, sp, what='merge_halves/merge_interleaved'))
        def spp(c):
            a, b = c.i['a'], c.i['b']
            return [c.o['o'][k] == z3.If(z3.ULT(BV(k, 64), BV(c.off, 64) if isinstance(c.off, int) else c.off), a[k], b[k]) for k in range(n)]
        body = 'let x = LD!(a, {0}); let y = LD!(b, {0}); ST!(o, {0}, Merge::merge_partitioned(&x, y, off)); 0'.format(v)
        out.append(Case('mpart_' + v, body, [In('a', e, n), In('b', e, n), Out('o', e, n), Int('off', range(n + 1)) if bits >= 256 else Sym('off', 0, n)], spp,
                        what='merge_partitioned at the points 0..=WIDTH'))
        big = lambda c: z3.BoolVal(True)
        out.append(Case('mpartbig_' + v, body, [In('a', e, n), In('b', e, n), Out('o', e, n), Sym('off', n + 1, M(64))],
                        lambda c: [], may_panic=big, must_panic=big, what='merge_partitioned beyond WIDTH is rejected'))
    for e in ALL:
        for bits in BITS:
            one(e, bits)
    return out
