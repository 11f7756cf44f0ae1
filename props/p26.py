"""unrolling"""
from .iterlib import *
BOUNDS = ('groups of 1..8 vectors (9, 10 and 2^63 must be rejected); slices, mutable slices, maps, zips and strides resumed at a symbolic position (slices of any length up to 2^36); remaining '
          'elements case-split around every whole number of groups up to two groups and a bit; every content')
OUTSIDE = 'groups of zero vectors; more than two groups left'
ZU = 'use faster::zip::*; '


def cases():
    out = []

    def mk(e, k, kind, rs, cpus=('sse2', 'avx2')):
        w, V = ELW[e], e + 's'
        G = 256 // w
        st = 2 if kind == 'stride' else 1
        P = [Sym('p', 0, PMAX), Int('r', rs), SymSlice('a', e, lambda c: (c.p + c.r) * st, kind == 'mut'), In('d', e, G)]
        it = {'ref': 's.simd_iter(LD!(d, %s))' % V, 'mut': 's.simd_iter_mut(LD!(d, %s))' % V, 'map': 's.simd_iter(LD!(d, %s)).simd_map(%s)' % (V, fmap(e)),
              'zip': '(s.simd_iter(LD!(d, %s)), s.simd_iter(LD!(d, %s))).zip().simd_map(|(x, _)| x)' % (V, V),
              'stride': 's.stride_two((LD!(d, %s), LD!(d, %s))).1' % (V, V)}[kind]
        sl = 'let s = std::slice::from_raw_parts%s(a, (p + r) * %d);' % ('_mut' if kind == 'mut' else '', st)
        # each group is read before the next one is asked for; what does not fill a vector is left for end()
        body = (ZU + sl + ' let mut it = %s; it.advance(p); let mut t = 0usize; { let mut u = it.unroll(%d); assert!(u.chunk_len() == %d); '
                'while let Some(g) = u.next() { OBSI!(1, g.len()); for v in g.iter() { OBS!(t, *v, %s); t += 1; } } assert!(u.next().is_none()); } '
                'OBSI!(2, it.scalar_pos()); if let Some((v, n)) = it.end() { OBS!(t, v, %s); OBSI!(3, n); t += 1; } t' % (it, k, k, V, V))

        def sp(c):
            W = c.width(e)
            F = c.F[w] if kind == 'map' else lambda x: x
            el = [c.i['a'].at((c.p + i) * st + st - 1) for i in range(c.r)]
            vs, emp = padded(c, e, el, c.i['d'])
            iv = c.ints_seen()
            nv = c.r // W
            groups = [k] * (nv // k) + ([nv % k] if nv % k else [])
            g = [c.ret == len(vs)]
            want = [(1, x) for x in groups] + [(2, c.p + nv * W)] + ([(3, emp)] if emp is not None else [])
            if [t for t, _ in iv] != [t for t, _ in want]:
                return [z3.BoolVal(False)]
            g += [x == y for (_, x), (_, y) in zip(iv, want)]
            got = c.obs(e)
            if len(got) != len(vs):
                return [z3.BoolVal(False)]
            for t, ((t1, l1), l2) in enumerate(zip(got, vs)):
                g.append(z3.BoolVal(t1 == t))
                g += same(l1, [F(x) for x in l2])
            return g
        out.append(Case('unroll%d_%s_%s' % (k, kind, e), body, P, sp, what='groups of %d vectors of %s' % (k, e), cpus=cpus))

    def held(e, both):
        """groups that are kept while later ones are fetched"""
        V = e + 's'
        P = [Sym('p', 0, PMAX), SymSlice('a', e, lambda c: c.p + 2 * 256 // ELW[e])]
        body = ('let s = std::slice::from_raw_parts(a, p + %d); let mut it = s.simd_iter(%s(0 as %s)); it.advance(p); let mut u = it.unroll(1); '
                'let g = u.next().unwrap(); let h = u.next().unwrap(); OBS!(0, g[0], %s); OBS!(1, h[0], %s); 0' % (2 * 256 // ELW[e], V, e, V, V))

        def sp(c):
            W = c.width(e)
            got = c.obs(e)
            return [z3.BoolVal(len(got) == 2)] + [x for j in range(0 if both else 1, 2) for x in same(got[j][1], [c.i['a'].at(c.p + j * W + i) for i in range(W)])]
        out.append(Case(('held_' if both else 'latest_') + e, body, P, sp, what='two groups held at once', cpus=('avx2',), profiles=('rel',), known={'held-groups': lambda c: z3.BoolVal(True)} if both else None))

    def many(e):
        for k in ('9', '10', '1 << 63'):
            out.append(Case('reject%s_%s' % (k.replace(' << ', '_'), e), SLICE + 'let mut it = s.simd_iter(%ss(0 as %s)); it.unroll(%s).chunk_len()' % (e, e, k),
                            [Sym('n', 0, PMAX), SymSlice('a', e, lambda c: c.n)], lambda c: [z3.BoolVal(False)], may_panic=lambda c: z3.BoolVal(True),
                            must_panic=lambda c: z3.BoolVal(True), what='more than eight vectors at a time', cpus=('avx2',)))

    def lens(e, k):
        s = {0, 1}
        for W in (256 // ELW[e], 128 // ELW[e]):
            for q in (k, 2 * k):
                s |= {q * W - 1, q * W, q * W + 1}
            s |= {W, k * W + W, k * W + W + 1}
        return sorted(s)
    for e in ('f32', 'u64'):
        for k in range(1, 9):
            mk(e, k, 'ref', lens(e, k))
    for k in (2, 3):
        mk('u8', k, 'ref', lens('u8', k))
        mk('i16', k, 'mut', lens('i16', k))
        for e in ALL:
            if e not in ('f32', 'u64', 'u8', 'i16'):
                mk(e, k, 'ref', lens(e, k)[-5:])
    for kind in ('map', 'zip', 'stride', 'mut'):
        for k in (1, 2, 4, 8):
            mk('u64', k, kind, lens('u64', k))
        mk('f32', 3, kind, lens('f32', 3))
    held('u64', True)
    held('u64', False)
    many('f32')
    return out
