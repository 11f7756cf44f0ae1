"""map + collect"""
from .iterlib import *
BOUNDS = ('slice lengths 0..66 (8-bit elements), 0..34 (16-bit), 0..26 (32-bit), 0..14 (64-bit) for four element types, and the lengths around '
          'every half and whole vector for all ten; every content, every default, every lane-wise function')
OUTSIDE = 'longer slices; closures that are not lane-wise or not pure; reinterpretation to wider elements when the last one is incomplete'
COLLECT = 'let r = %s.scalar_collect(); vf_obs(1, r.as_ptr() as *const u8, r.len() * %d); 0'


def cases():
    out = []

    def mk(e, kind, lens):
        w = ELW[e]
        D = 'LD!(d, %ss)' % e
        src = {'ref': 's.simd_iter(%s)' % D, 'vec': 's.to_vec().into_simd_iter(%s)' % D, 'mut': 't.simd_iter_mut(%s)' % D,
               'refref': '(&s).simd_iter(%s)' % D}[kind]
        pre = SLICE + (' let mut t = s.to_vec();' if kind == 'mut' else '')
        P = [In('a', e, nl), In('d', e, 256 // w), Int('n', lens)]
        F = lambda c: c.F[w]
        out.append(Case('collect_%s_%s' % (kind, e), pre + COLLECT % (src + '.simd_map(%s)' % fmap(e), w // 8), P,
                        lambda c: same(one(c, e), [F(c)(x) for x in c.i['a']]), what='map+collect of %s, %s' % (e, kind)))
        if kind == 'ref':
            out.append(Case('plain_%s' % e, pre + COLLECT % (src, w // 8), P, lambda c: same(one(c, e), c.i['a']), what='collect without map'))
            out.append(Case('chain_%s' % e, pre + COLLECT % (src + '.simd_map({0}).simd_map({0})'.format(fmap(e)), w // 8), P,
                            lambda c: same(one(c, e), [F(c)(F(c)(x)) for x in c.i['a']]), what='chained maps'))

            def alls(c):
                vs, _ = padded(c, e, c.i['a'], c.i['d'])
                return same(one(c, e), [F(c)(x) for v in vs for x in v])
            out.append(Case('all_%s' % e, pre + (COLLECT % (src + '.simd_map(%s)' % fmap(e), w // 8)).replace('scalar_collect', 'scalar_collect_all'),
                            P, alls, what='scalar_collect_all'))

    def re(e, t, lens):
        w, u = ELW[e], ELW[t]
        def sp(c):
            bs = [z3.Extract(8 * j + 7, 8 * j, x) for x in c.i['a'] for j in range(w // 8)]
            return same(one(c, 'u8'), bs)
        out.append(Case('reint_%s_%s' % (e, t), SLICE + COLLECT % (
            's.simd_iter(LD!(d, %ss)).simd_map(|v| Transmute::be_%ss(&v))' % (e, t), u // 8),
            [In('a', e, nl), In('d', e, 256 // w), Int('n', [n for n in lens if n * w % u == 0])], sp, what='map from %s to %s' % (e, t)))
    FULL = ('u8', 'i16', 'f32', 'u64')
    for e in ALL:
        for kind in ('ref', 'vec', 'mut', 'refref'):
            mk(e, kind, LENS(e, e in FULL and kind == 'ref'))
    for e, t in (('u64', 'u8'), ('u64', 'u16'), ('i64', 'u32'), ('u32', 'u8'), ('f32', 'i16'), ('u16', 'u8'), ('u8', 'u16'), ('u8', 'u32'), ('u16', 'u64'),
                 ('f64', 'u32'), ('u32', 'u64'), ('f32', 'u32'), ('i8', 'u64')):
        re(e, t, LENS(e, ELW[e] >= 32))
    return out
