"""filling slices"""
from .iterlib import *
BOUNDS = ('slice lengths as in P01; destination lengths 0, 1 and around the length and its roundings to both vector widths; the destination lies inside a larger '
          'buffer of arbitrary contents, which must not change; every content, every default, every lane-wise function')
OUTSIDE = 'longer slices; what a destination that is too short contains after the panic'


def cases():
    out = []

    def mk(e, lens):
        w = ELW[e]
        V = e + 's'
        G = 256 // w

        def dest(n):
            s = {0, 1, n - 1, n, n + 1, n // 2}
            for W in (G, G // 2):
                u = (n + W - 1) // W * W
                s |= {u - W, u - 1, u, u + 1, u + W}
            return s
        for kind in ('fill', 'fill_all'):
            P = [In('a', e, nl), InOut('b', e, lambda d: d['m'] + 2 * G), In('d', e, G), Int('n', lens), Int('m', range(max(lens) + 2 * G + 2))]

            def want(c, kind=kind):
                if kind == 'fill':
                    return [c.F[w](x) for x in c.i['a']]
                vs, _ = padded(c, e, c.i['a'], c.i['d'])
                return [c.F[w](x) for v in vs for x in v]

            def sp(c, want=want):
                r = []
                q = want(c)
                for k, x in enumerate(c.i['b']):
                    j = k - G
                    r.append(c.o['b'][k] == (q[j] if 0 <= j < len(q) else x))
                return r + [c.ret == c.m]
            short = lambda c, want=want: z3.BoolVal(c.m < len(want(c)))
            out.append(Case('%s_%s' % (kind, e), SLICE + 'let t = std::slice::from_raw_parts_mut(b.add(%d), m); let q = t.as_ptr(); '
                            'let r = s.simd_iter(LD!(d, %s)).simd_map(%s).scalar_%s(t); assert!(r.as_ptr() == q); r.len()' % (G, V, fmap(e), kind),
                            P, sp, may_panic=short, must_panic=short, skip_int=lambda d: d['m'] not in dest(d['n']), what='scalar_%s of %s' % (kind, e)))
    for e in ALL:
        mk(e, LENS(e, e in ('i16', 'f32', 'u64')))
    return out
