"""lengths and positions; single steps at any position of a slice of any length"""
from .iterlib import *
BOUNDS = ('slice lengths 0..2^36 and every 64-bit position, symbolic; the kinds of iterator listed as functions; '
          'next() with every content, in slices, mutable slices and Vecs of all ten element types')
OUTSIDE = 'slices longer than 2^36 elements; advancing so often that the position exceeds 2^64; maps to elements of another size; stride_zip of an advanced iterator'


def cases():
    out = []

    def mk_next(e, kind):
        w, V = ELW[e], e + 's'
        mut = kind != 'ref'
        mkit = {'ref': 's.simd_iter(LD!(d, %s))', 'mut': 's.simd_iter_mut(LD!(d, %s))',
                'vec': 'Vec::from_raw_parts(a, n, n).into_simd_iter(LD!(d, %s))'}[kind] % V
        sl = {'ref': SLICE, 'mut': 'let s = std::slice::from_raw_parts_mut(a, n);', 'vec': ''}[kind]
        P = [Sym('n', 0, PMAX), Sym('p', 0, M(64)), SymSlice('a', e, lambda c: c.n, mut), In('d', e, 256 // w)]

        def sp(c):
            W = c.width(e)
            n, p = c.n, c.p
            t = c.obs(e)
            if t:
                return [z3.ULE(p + W, n), z3.ULE(p, n), c.ret == p + W, z3.BoolVal(len(t) == 1)] + same(t[0][1], [c.i['a'].at(p + j) for j in range(W)])
            return [z3.Or(z3.ULT(n, W), z3.UGT(p, n - W)), c.ret == p]
        out.append(Case('next_%s_%s' % (kind, e), sl + 'let mut it = std::mem::ManuallyDrop::new(%s); it.advance(p); if let Some(v) = it.next() { OBS!(1, v, %s); } it.scalar_pos()' % (mkit, V),
                        P, sp, what='next() at any position of a %s of %s' % (kind, e)))

    def mk_end(e):
        w, V = ELW[e], e + 's'

        def sp(c):
            W = c.width(e)
            a, d = c.i['a'], c.i['d']
            t = c.obs(e)
            if c.r == 0:
                return [z3.BoolVal(not t), c.ret == c.p]
            v = t[0][1]
            n = c.p + c.r
            return [z3.BoolVal(len(t) == 1), c.ret == n, c.ints_seen()[0][1] == W - c.r] + same(v, [d[j] for j in range(W - c.r)] + [a.at(c.p + j) for j in range(c.r)])
        out.append(Case('end_' + e, TAILS + 'let mut it = s.simd_iter(LD!(d, %s)); it.advance(p); if r <= %s::WIDTH { if let Some((v, k)) = it.end() { OBS!(1, v, %s); OBSI!(2, k); } } it.scalar_pos()' % (V, V, V),
                        tailp(e, range(256 // w + 1)) + [In('d', e, 256 // w)], lambda c: sp(c) if c.r <= c.width(e) else [], what='end() at any position'))

    # ---- accounting without loads: kind -> (construction, elements seen by the iterator, traits)
    def mk_count(name, e, cons, elems, lim=PMAX, extra='', vlen=True, cpus=('sse2', 'avx2'), start=0, by=None, sel=None, after=''):
        V = e + 's'
        body = ('use faster::zip::*; let s = std::slice::from_raw_parts(a, n); %s let mut it = %s; '
                'OBSI!(1, it.scalar_len()); OBSI!(2, it.vector_len()); OBSI!(3, it.len()); OBSI!(4, it.scalar_pos()); '
                'it.advance(p); OBSI!(5, it.scalar_pos()); OBSI!(6, it.vector_pos()); it.advance(q); OBSI!(7, it.scalar_pos()); OBSI!(8, it.scalar_len()); '
                'OBSI!(9, it.vector_pos()); %s it.width()' % (extra, cons, after))
        P = [Sym('n', 0, lim), Sym('p', 0, lim), Sym('q', 0, lim), SymSlice('a', e, lambda c: c.n)]
        if by:
            P = [Sym('m', 0, lim), Sym('p', 0, lim), Sym('q', 0, lim), Int('s', sel or range(by)), SymSlice('a', e, lambda c: c.m * by + c.s)]
            body = 'let n = m * %d + s;' % by + body.replace('let s =', 'let s =')

        def sp(c):
            W = c.width(e)
            m = elems(c)
            g = dict(c.ints_seen())
            p, q = c.p, c.q
            vl = z3.UDiv(m, z3.BitVecVal(W, 64))
            r = [g[1] == m, g[4] == start, g[5] == p + start, g[7] == p + q + start, g[8] == m, g[6] == z3.UDiv(p + start, z3.BitVecVal(W, 64)),
                 g[9] == z3.UDiv(p + q + start, z3.BitVecVal(W, 64)), c.ret == W]
            if vlen:
                r += [g[2] == vl, g[3] == vl]
            return r
        out.append(Case('count_%s_%s' % (name, e), body, P, sp, what='counts of %s over %s' % (name, e), cpus=cpus if not by else ('avx2',)))

    def mk_final(name, e, cons, elems, lim=PMAX, extra='', by=None, sel=None):
        body = ('use faster::zip::*; let s = std::slice::from_raw_parts(a, n); %s let mut it = %s; it.advance(p); it.finalize(); '
                'assert!(it.next().is_none()); assert!(it.end().is_none()); it.scalar_pos()' % (extra, cons))
        P = [Sym('n', 0, lim), Sym('p', 0, lim), SymSlice('a', e, lambda c: c.n)]
        if by:
            P = [Sym('m', 0, lim), Sym('p', 0, lim), Int('s', sel or range(by)), SymSlice('a', e, lambda c: c.m * by + c.s)]
            body = 'let n = m * %d + s;' % by + body
        out.append(Case('final_%s_%s' % (name, e), body, P, lambda c: [c.ret == elems(c)], assume=lambda c: [z3.ULE(c.p, elems(c))],
                        what='finalize() of %s over %s' % (name, e), cpus=('sse2', 'avx2') if not by else ('avx2',)))
    for e in ALL:
        for kind in ('ref', 'mut', 'vec'):
            mk_next(e, kind)
        mk_end(e)
    N = lambda c: c.n
    div = lambda k: (lambda c: z3.UDiv(c.n, z3.BitVecVal(k, 64)))
    for e in ALL:
        V = e + 's'
        D = '%s(0 as %s)' % (V, e)
        it = 's.simd_iter(%s)' % D
        kinds = [('iter', it, N, PMAX, '', None), ('map', it + '.simd_map(|v| v)', N, PMAX, '', None), ('map2', it + '.simd_map(|v| v).simd_map(|v| v)', N, PMAX, '', None),
                 ('zip2', '(%s, %s).zip()' % (it, it), N, PMAX, '', None), ('zip3', '(%s, %s, %s).zip()' % (it, it, it), N, PMAX, '', None),
                 ('zipmap', '(%s, %s).zip().simd_map(|(v, _)| v)' % (it, it), N, PMAX, '', None),
                 ('two0', 's.stride_two((%s, %s)).0' % (D, D), div(2), PMAX, '', None), ('two1', 's.stride_two((%s, %s)).1' % (D, D), div(2), PMAX, '', None),
                 ('four3', 's.stride_four((%s, %s, %s, %s)).3' % (D, D, D, D), div(4), PMAX, '', None),
                 ('three2', 's.stride_three((%s, %s, %s)).2' % (D, D, D), lambda c: c.m, PMAX, '', 3),
                 ('stride5', 's.stride(5, &[%s; 5]).swap_remove(4)' % D, lambda c: c.m, PMAX, '', 5),
                 ('stridemap', 's.stride_two((%s, %s)).1.simd_map(|v| v)' % (D, D), div(2), PMAX, '', None),
                 ('stridezip2', 's.stride_two((%s, %s)).zip()' % (D, D), div(2), PMAX, '', None),
                 ('nine8', 's.stride_nine((%s)).8' % ', '.join([D] * 9), lambda c: c.m, 1 << 16, '', 9)]
        SEL = {'nine8': (0, 8), 'stride5': (0, 4), 'three2': (0, 1, 2)}
        for name, cons, el, lim, extra, by in kinds:
            if by and e not in {'nine8': ('u8',), 'stride5': ('u8', 'u64'), 'three2': ('u8', 'f32')}[name]:
                continue
            if name in ('iter', 'map', 'zip2', 'two1', 'zipmap') or e in ('u8', 'f32', 'i16', 'u64'):
                mk_count(name, e, cons, el, lim=lim, extra=extra, by=by, sel=SEL.get(name))
                mk_final(name, e, cons, el, lim=lim, extra=extra, by=by, sel=SEL.get(name))
        if e in ('u8', 'u16', 'i8', 'i16'):
            mk_count('pairs', e, it + '.stride_zip()', div(2), vlen=True)
            mk_final('pairs', e, it + '.stride_zip()', div(2))

    def chunk(e, k):
        V = e + 's'
        P = [Sym('n', 0, PMAX), Sym('p', 0, PMAX), SymSlice('a', e, lambda c: c.n)]
        out.append(Case('chunk_%d_%s' % (k, e), SLICE + 'let mut it = s.simd_iter(%s(0 as %s)); it.advance(p); let u = it.unroll(%d); OBSI!(1, u.chunk_len()); u.chunk_pos()' % (V, e, k), P,
                        lambda c: [c.ints_seen()[0][1] == k, c.ret == z3.UDiv(z3.UDiv(c.p, z3.BitVecVal(c.width(e), 64)), z3.BitVecVal(k, 64))],
                        what='chunk position'))
    for e in ('u8', 'u64'):
        for k in (1, 2, 3, 8):
            chunk(e, k)
    return out
