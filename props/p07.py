"""zipped iterators"""
from .iterlib import *
BOUNDS = ('2 to 13 zipped slices; the position they are zipped at (or advanced to afterwards) is symbolic (0..2^36, slices of any length up to there); remaining elements case-split '
          'around one and two vectors; every content, every default, every lane-wise function')
OUTSIDE = 'more than two vectors left; zipped iterators of kinds other than slices and strides (strides: see P09)'
GRP = {8: ['u8', 'i8'], 16: ['i16', 'u16'], 32: ['f32', 'u32', 'i32'], 64: ['u64', 'f64', 'i64']}
ZU = 'use faster::zip::*; '


def cases():
    out = []

    def mk(k, w, op, rs, pre='before'):
        es = [GRP[w][j % len(GRP[w])] for j in range(k)]
        G = 256 // w
        P = [Sym('p', 0, PMAX), Int('r', rs)] + [SymSlice('a%d' % j, e, lambda c: c.p + c.r) for j, e in enumerate(es)]
        P += [In('d%d' % j, e, G) for j, e in enumerate(es)]
        mk1 = ['{ let mut t = std::slice::from_raw_parts(a%d, p + r).simd_iter(LD!(d%d, %ss)); %s t }' % (j, j, e, 't.advance(p);' if pre == 'before' else '')
               for j, e in enumerate(es)]
        z = ZU + 'let mut z = (%s).zip(); %s ' % (', '.join(mk1), 'z.advance(p);' if pre == 'after' else 'let h = z.advance(p / 2); z.advance(p - p / 2);' if pre == 'twice' else '')
        vs = '(%s)' % ', '.join('v%d' % j for j in range(k))
        ob = lambda b: ' '.join('OBS!(%s + %d, v%d, %ss);' % (b, j, j, e) for j, e in enumerate(es))
        L = k - 1
        eL = es[L]
        body = {
            'step': 'let mut t = 0usize; while let Some(%s) = z.next() { %s t += 16; } if let Some((%s, n)) = z.end() { %s OBSI!(1, n); t += 16; } '
                    'assert!(z.next().is_none()); assert!(z.end().is_none()); z.scalar_pos()' % (vs, ob('t'), vs, ob('t')),
            'reduce': 'z.simd_reduce(0usize, |t, %s| { %s t + 16 })' % (vs, ob('t')),
            'each': 'let mut t = 0usize; z.simd_do_each(|%s| { %s t += 16; }); t' % (vs, ob('t')),
            'collect': 'let mut t = 0usize; let r = z.simd_map(|%s| { %s t += 16; F!(v%d, %ss, %d) }).scalar_collect(); vf_obs(255, r.as_ptr() as *const u8, r.len() * %d); r.len()' % (
                vs, ob('t'), L, eL, w, w // 8),
            'all': 'let mut t = 0usize; let r = z.simd_map(|%s| { %s t += 16; F!(v%d, %ss, %d) }).scalar_collect_all(); vf_obs(255, r.as_ptr() as *const u8, r.len() * %d); r.len()' % (
                vs, ob('t'), L, eL, w, w // 8),
            'default': 'let %s = z.default(); let t = 0usize; %s OBSI!(1, z.scalar_len()); OBSI!(2, z.size()); OBSI!(3, z.scalar_pos()); z.width()' % (vs, ob('t')),
        }[op]

        def sp(c):
            W = c.width(es[0])
            got = c.obs(es[0])
            want = []
            if op == 'default':
                iv = c.ints_seen()
                if len(iv) != 3:
                    return [z3.BoolVal(False)]
                return [c.ret == W, iv[0][1] == c.p + c.r, iv[1][1] == w // 8, iv[2][1] == c.p, z3.BoolVal(len(got) == k)] + [x for (t, l), e, j in zip(got, es, range(k)) for x in [z3.BoolVal(t == j)] + same(l, c.i['d%d' % j][:W])]
            cols = []
            for j, e in enumerate(es):
                vv, emp = padded(c, e, [c.i['a%d' % j].at(c.p + i) for i in range(c.r)], c.i['d%d' % j])
                cols.append(vv)
            nv = len(cols[0])
            for t in range(nv):
                for j in range(k):
                    want.append((16 * t + j, cols[j][t]))
            g = []
            if op in ('collect', 'all'):
                F = c.F[w]
                res = [F(c.i['a%d' % L].at(c.p + i)) for i in range(c.r)] if op == 'collect' else [F(x) for v in cols[L] for x in v]
                want.append((255, res))
                g.append(c.ret == len(res))
            elif op == 'step':
                g.append(c.ret == c.p + c.r)
                iv = c.ints_seen()
                g.append(z3.BoolVal(len(iv) == (1 if emp is not None else 0)))
                if iv and emp is not None:
                    g.append(iv[0][1] == emp)
            else:
                g.append(c.ret == 16 * nv)
            if len(got) != len(want):
                return [z3.BoolVal(False)]
            for (t1, l1), (t2, l2) in zip(got, want):
                g.append(z3.BoolVal(t1 == t2))
                g += same(l1, l2)
            return g
        out.append(Case('%s%d_%d_%s' % (op, k, w, pre), z + body, P, sp, what='%s over %d zipped slices of %d-bit elements' % (op, k, w),
                        thorough_ints={'r': TAILALL(es[0])} if op != 'default' else None, cpus=('sse2', 'sse42', 'avx2') if w in (32, 64) or k < 4 else ('sse2', 'avx2')))
    for k in range(2, 14):
        for w in (32, 64):
            mk(k, w, 'step', TAIL(GRP[w][0], True) if k < 5 else [1, 128 // w - 1, 128 // w + 1, 256 // w, 256 // w + 1])
            mk(k, w, 'default', [0, 3])
        w = 32 if k % 2 else 64
        mk(k, w, 'collect', [0, 1, 128 // w + 1, 256 // w + 1])
        mk(k, 96 - w, 'reduce', [0, 1, 128 // (96 - w) + 1, 256 // (96 - w) + 1])
        mk(k, w, 'step', [1, 128 // w + 1, 256 // w + 1], 'after')
    for w in (8, 16, 32, 64):
        for k in (2, 3):
            for op in ('step', 'reduce', 'each', 'collect', 'all'):
                if (op, w) in (('step', 32), ('step', 64)):
                    continue
                if (op, k, w) in (('collect', 2, 64), ('collect', 3, 32), ('reduce', 2, 32), ('reduce', 3, 64)):
                    continue
                mk(k, w, op, TAIL(GRP[w][0], True))
        mk(2, w, 'step', TAIL(GRP[w][0], True), 'twice')
    mk(2, 8, 'collect', TAIL('u8', True), 'after')
    mk(4, 16, 'step', TAIL('u16', True))
    mk(13, 8, 'step', [0, 1, 15, 16, 17, 31, 33])
    return out
