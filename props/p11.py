"""pattern constructors"""
from .common import *
EXTRA_LEVELS = ('sse3', 'ssse3', 'avx')
BOUNDS = 'all 30 vector types, every value of the arguments; partition points: every 64-bit value (in-range ones case-split)'
ASSUMPTIONS = ['partition and partition_mask are specified for points 0..=WIDTH; beyond that they must only be memory safe '
               '(in builds with debug assertions they must panic)']


def cases():
    out = []

    def one(e, bits):
        v, n, w = vec(e, bits), lanes(e, bits), ELW[e]
        P = [In('a', e, 2), Out('o', e, n), Out('p', e, n), Out('q', e, n), Out('r', e, n)]
        one_ = {'f32': 0xFFFFFFFF, 'f64': M(64)}.get(e, M(w))

        def sp(c):
            h, l = c.i['a']
            return ([c.o['o'][k] == (h if k < n // 2 else l) for k in range(n)] + [c.o['p'][k] == (l if k % 2 else h) for k in range(n)] +
                    [x == 0 for x in c.o['r']])
        out.append(Case('pat_' + v, 'let (h, l) = (*a, *a.add(1)); ST!(o, {0}, <{0} as Pattern>::halfs(h, l)); '
                        'ST!(p, {0}, <{0} as Pattern>::interleave(h, l)); ST!(r, {0}, <{0} as Pattern>::zeroes()); 0'.format(v), P, sp, what='halfs/interleave/zeroes'))
        out.append(Case('ones_' + v, 'ST!(o, {0}, <{0} as Pattern>::ones()); 0'.format(v), [Out('o', e, n)],
                        lambda c: [x == one_ for x in c.o['o']], what='ones: every bit set'))
        inr = lambda c: z3.ULE(c.off, BV(n, 64))
        big = lambda c: z3.UGT(c.off, BV(n, 64))

        def spp(c):
            h, l = c.i['a']
            return [z3.Implies(inr(c), c.o['o'][k] == z3.If(z3.ULT(BV(k, 64), c.off), h, l)) for k in range(n)] + [
                z3.Implies(big(c), z3.BoolVal(not c.dbg))]

        def spm(c):
            return [z3.Implies(inr(c), c.o['o'][k] == z3.If(z3.ULT(BV(k, 64), c.off), BV(0, w), BV(M(w), w))) for k in range(n)] + [
                z3.Implies(big(c), z3.BoolVal(not c.dbg))]
        out.append(Case('part_' + v, 'ST!(o, {0}, <{0} as Pattern>::partition(*a, *a.add(1), off)); 0'.format(v),
                        [In('a', e, 2), Out('o', e, n), Sym('off', 0, M(64))], spp, may_panic=big, what='partition'))
        out.append(Case('pmask_' + v, 'ST!(o, {0}, <{0} as Pattern>::partition_mask(off)); 0'.format(v),
                        [Out('o', e, n), Sym('off', 0, M(64))], spm, may_panic=big, must_panic=big, what='partition_mask'))
    for e in ALL:
        for bits in BITS:
            one(e, bits)
    return out
