"""zip refuses what does not line up, and never reads outside"""
from .iterlib import *
BOUNDS = ('2 to 13 zipped slices whose lengths and positions are all independent and symbolic (0..2^36); every pair of element widths in every place of a tuple of two and three; '
          'strides against slices; then an advance by any 64-bit amount, next() and end()')
OUTSIDE = 'longer slices'
ZU = 'use faster::zip::*; '


def cases():
    out = []

    def neq(c, k):
        return z3.Or(*[x for j in range(1, k) for x in (c.ints['n%d' % j] != c.n0, c.ints['p%d' % j] != c.p0)])

    def lines(k, e):
        P = [Sym('n%d' % j, 0, PMAX) for j in range(k)] + [Sym('p%d' % j, 0, PMAX) for j in range(k)]
        P += [SymSlice('a%d' % j, e, (lambda j: lambda c: c.ints['n%d' % j])(j)) for j in range(k)]
        V = e + 's'
        its = ['{ let mut t = std::slice::from_raw_parts(a%d, n%d).simd_iter(%s(0 as %s)); t.advance(p%d); t }' % (j, j, V, e, j) for j in range(k)]
        out.append(Case('line%d_%s' % (k, e), ZU + 'let z = (%s).zip(); z.scalar_pos()' % ', '.join(its), P, lambda c: [c.ret == c.p0],
                        may_panic=lambda c: neq(c, k), must_panic=lambda c: neq(c, k), what='zip of %d iterators of any lengths and positions' % k))

    def widths(es, only=None):
        k = len(es)
        P = [Sym('n', 0, PMAX)] + [SymSlice('a%d' % j, e, lambda c: c.n) for j, e in enumerate(es)]
        its = ['std::slice::from_raw_parts(a%d, n).simd_iter(%ss(0 as %s))' % (j, e, e) for j, e in enumerate(es)]
        bad = z3.BoolVal(len({ELW[e] for e in es}) > 1)
        out.append(Case('width_' + '_'.join(es), ZU + 'let z = (%s).zip(); z.scalar_len()' % ', '.join(its), P, lambda c: [c.ret == c.n],
                        may_panic=lambda c: bad, must_panic=lambda c: bad, what='zip of different element widths', cpus=('sse2', 'avx2')))

    def strided(e, c_, order):
        # a strided and a plain iterator: counts have to agree
        P = [Sym('m', 0, PMAX), Int('s', sorted({0, c_ - 1})), Sym('n', 0, PMAX), SymSlice('a', e, lambda c: c.m * c_ + c.s), SymSlice('b', e, lambda c: c.n)]
        V = '%ss(0 as %s)' % (e, e)
        its = ['s.stride(%d, &[%s; %d]).swap_remove(%d)' % (c_, V, c_, c_ - 1), 'std::slice::from_raw_parts(b, n).simd_iter(%s)' % V]
        if order:
            its.reverse()
        out.append(Case('strided%d%s_%s' % (c_, 'r' if order else '', e), ZU + 'let s = std::slice::from_raw_parts(a, m * %d + s); let z = (%s).zip(); z.scalar_len()' % (c_, ', '.join(its)), P,
                        lambda c: [c.ret == c.n], may_panic=lambda c: c.n != c.m, must_panic=lambda c: c.n != c.m, what='zip of a stride and a slice', cpus=('sse2', 'avx2')))

    def safe(es, kind):
        k = len(es)
        w = ELW[es[0]]
        P = [Sym('n', 0, PMAX), Sym('p', 0, PMAX), Sym('q', 0, M(64))] + [SymSlice('a%d' % j, e, lambda c: c.n) for j, e in enumerate(es)]
        its = ['{ let mut t = std::slice::from_raw_parts(a%d, n).simd_iter(%ss(0 as %s)); t.advance(p); t }' % (j, e, e) for j, e in enumerate(es)]
        vs = '(%s)' % ', '.join('v%d' % j for j in range(k))
        ob = ' '.join('OBS!(%d, v%d, %ss);' % (j, j, e) for j, e in enumerate(es))
        body = ZU + 'let mut z = (%s).zip(); z.advance(q); ' % ', '.join(its)
        if kind == 'next':
            body += 'if let Some(%s) = z.next() { %s } 0' % (vs, ob)
        else:
            # too much left for one vector: must not read outside
            body += 'if let Some((%s, _)) = z.end() { %s } 0' % (vs, ob)

        def sp(c):
            W = c.width(es[0])
            t = c.obs(es[0])
            pos = c.p + c.q
            if kind == 'next':
                if not t:
                    return [z3.Or(z3.ULT(c.n, W), z3.UGT(pos, c.n - W))]
                return [z3.ULE(pos + W, c.n), z3.ULE(pos, c.n), z3.BoolVal(len(t) == k)] + [
                    x for j in range(k) for x in same(t[j][1], [c.i['a%d' % j].at(pos + i) for i in range(W)])]
            return [z3.UGE(pos, c.n)] if not t else [z3.ULT(pos, c.n)]
        over = lambda c: z3.ULT(c.p + c.q, c.p) if c.dbg else z3.BoolVal(False)
        long = lambda c: z3.And(z3.ULT(c.p + c.q, c.n), z3.UGT(c.n - (c.p + c.q), c.width(es[0])))
        out.append(Case('safe_%s%d_%s' % (kind, k, es[0]), body, P, sp,
                        may_panic=(lambda c: over(c)) if kind == 'next' else (lambda c: z3.Or(over(c), long(c))), what='%s after any advance of a zip' % kind))
    for k in range(2, 14):
        for e in ('u8', 'f32') if k < 4 else ('f32',) if k % 2 else ('u64',):
            lines(k, e)
    one = {8: 'u8', 16: 'i16', 32: 'f32', 64: 'u64'}
    for w in one:
        for x in one:
            widths([one[w], one[x]])
            if w != x:
                widths([one[w], one[w], one[x]])
                widths([one[w], one[x], one[w]])
    widths(['f32', 'u32', 'i32', 'f32', 'f64'])
    widths(['u8'] * 12 + ['u16'])
    widths(['i8', 'u8'])
    for e in ('u8', 'f32', 'u64'):
        for c_ in (2, 3, 4):
            strided(e, c_, False)
            strided(e, c_, True)
    for es in (['u8', 'i8'], ['f32', 'u32', 'i32'], ['u64', 'f64'], ['i16', 'u16', 'i16', 'u16']):
        safe(es, 'next')
        if es[0][1:] in ('32', '64'):
            safe(es[:2], 'end')
    safe(['u64'] * 13, 'next')
    return out
