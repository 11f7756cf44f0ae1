"""in-place iteration"""
from .iterlib import *
BOUNDS = ('slice lengths as in P01, every starting position from 0 to one vector past the end; the slice lies inside a larger buffer of arbitrary contents, '
          'which must not change; every content, every default, every lane-wise function')
OUTSIDE = 'longer slices'


def cases():
    out = []

    def mk(e, lens, poss, name):
        w = ELW[e]
        V = e + 's'
        G = 256 // w
        P = [InOut('b', e, lambda d: d['n'] + 2 * G), In('d', e, G), Int('n', lens), Int('p', poss)]

        def sp(c):
            n, p, W = c.n, c.p, c.width(e)
            a = c.i['b'][G:G + n]
            b = c.o['b']
            r = []
            for k in range(n + 2 * G):
                j = k - G
                x = c.i['b'][k]
                r.append(b[k] == (c.F[w](x) if p <= j < n else x))
            vs, emp = padded(c, e, a, c.i['d'], min(p, n))
            t = c.obs(e)
            r.append(z3.BoolVal(len(t) == len(vs)))
            for v, (tg, ls) in zip(vs, t):
                r += same(ls, v)
            return r + [c.ret == max(p, n) if p <= n else z3.BoolVal(True)]
        out.append(Case('%s_%s' % (name, e), 'let s = std::slice::from_raw_parts_mut(b.add(%d), n); let mut it = s.simd_iter_mut(LD!(d, %s)); it.advance(p); '
                        'it.simd_for_each(|v| { OBS!(1, *v, %s); *v = F!(*v, %s, %d); }); assert!(it.next().is_none()); assert!(it.end().is_none()); it.scalar_pos()' % (G, V, V, V, w),
                        P, sp, skip_int=lambda d: d['p'] > d['n'] + 256 // w, what='simd_for_each over %s' % e))
    FULL = ('u8', 'i16', 'f32', 'u64')
    for e in ALL:
        W = 256 // ELW[e]
        if e in FULL:
            mk(e, LENS(e), [0], 'each')
        pos = range(0, 2 * W + 3) if W <= 8 else sorted({1, 2, W // 4, W // 2 - 1, W // 2, W // 2 + 1, W - 1, W, W + 1, W + W // 2, 2 * W})
        lens = LENS(e, W <= 8) if e in FULL else LENS(e, False)
        mk(e, lens, [p for p in pos if p or e not in FULL] if W <= 8 and e in FULL else
           [p for p in sorted({0, 1, W // 2 - 1, W // 2, W // 2 + 1, W + 1}) if p or e not in FULL], 'from')
    return out
