"""strides"""
from .iterlib import *
BOUNDS = ('stride counts 1..9 and 16 through stride(), the forms for 2, 3, 4 and 9, and a stride of a stride; the position is symbolic (slices of any length up to 2^36 strides); remaining '
          'elements case-split around one and two vectors, every remainder of the length at least for short strides; every content, every default')
OUTSIDE = 'more than two vectors left; other stride counts'
ZU = 'use faster::zip::*; '
FIX = {2: 'stride_two', 3: 'stride_three', 4: 'stride_four', 9: 'stride_nine'}


def cases():
    out = []

    def source(e, c_, form, src='slice'):
        D = ['LD!(d%d, %ss)' % (j, e) for j in range(c_)]
        s = {'slice': 's', 'iter': '{s}.simd_iter(%ss(0 as %s))' % (e, e)}[src].replace('{s}', 's')
        if form == 'fixed':
            return 'let o = %s; let its = o.%s((%s));' % (s, FIX[c_], ', '.join(D))
        if form == 'into':
            return 'let o = %s; let its: std::collections::VecDeque<_> = o.stride_into(%d, &[%s]);' % (s, c_, ', '.join(D))
        return 'let o = %s; let its = o.stride(%d, &[%s]);' % (s, c_, ', '.join(D))

    def mk(e, c_, form, op, ks, ss, rs, src='slice'):
        w, V = ELW[e], e + 's'
        G = 256 // w
        for k in ks:
            P = [Sym('p', 0, PMAX), Int('r', rs), Int('s', ss), SymSlice('a', e, lambda c: (c.p + c.r) * c_ + c.s)] + [In('d%d' % j, e, G) for j in range(c_)]
            get = 'its.%d' % k if form == 'fixed' else 'its[%d].clone()' % k
            body = ZU + 'let s = std::slice::from_raw_parts(a, (p + r) * %d + s); %s let mut it = %s; it.advance(p); ' % (c_, source(e, c_, form, src), get)
            body += {'step': 'let mut t = 0usize; while let Some(v) = it.next() { OBS!(t, v, %s); t += 1; } if let Some((v, n)) = it.end() { OBS!(t, v, %s); OBSI!(1, n); t += 1; } '
                             'assert!(it.next().is_none()); assert!(it.end().is_none()); OBSI!(2, it.scalar_pos()); t' % (V, V),
                     'collect': 'let v = it.simd_map(%s).scalar_collect(); vf_obs(0, v.as_ptr() as *const u8, v.len() * %d); v.len()' % (fmap(e), w // 8),
                     'reduce': 'it.simd_reduce(0usize, |t, v| { OBS!(t, v, %s); t + 1 })' % V}[op]

            def sp(c, k=k):
                el = [c.i['a'].at((c.p + i) * c_ + k) for i in range(c.r)]
                got = c.obs(e)
                if op == 'collect':
                    return [c.ret == c.r] + same(one(c, e), [c.F[w](x) for x in el])
                vs, emp = padded(c, e, el, c.i['d%d' % k])
                g = [c.ret == len(vs)]
                if op == 'step':
                    iv = dict(c.ints_seen())
                    g += [iv[2] == c.p + c.r, z3.BoolVal((1 in iv) == (emp is not None))]
                    if 1 in iv and emp is not None:
                        g.append(iv[1] == emp)
                if len(got) != len(vs):
                    return [z3.BoolVal(False)]
                for t, ((t1, l1), l2) in enumerate(zip(got, vs)):
                    g.append(z3.BoolVal(t1 == t))
                    g += same(l1, l2)
                return g
            out.append(Case('%s_%s%d_%d_%s_%s' % (op, form, c_, k, src, e), body, P, sp, what='%s of iterator %d of a stride by %d over %s' % (op, k, c_, e),
                            cpus=('sse2', 'avx2'), thorough_ints={'r': TAILALL(e), 's': range(c_)}))

    def zipped(e, c_, op, ss, rs, form='fixed'):
        w, V = ELW[e], e + 's'
        G = 256 // w
        P = [Sym('p', 0, PMAX), Int('r', rs), Int('s', ss), SymSlice('a', e, lambda c: (c.p + c.r) * c_ + c.s)] + [In('d%d' % j, e, G) for j in range(c_)]
        vs = '(%s)' % ', '.join('v%d' % j for j in range(c_))
        ob = ' '.join('OBS!(t + %d, v%d, %s);' % (j, j, V) for j in range(c_))
        body = ZU + 'let s = std::slice::from_raw_parts(a, (p + r) * %d + s); %s let mut z = its.zip(); z.advance(p); ' % (c_, source(e, c_, 'fixed'))
        body += {'step': 'let mut t = 0usize; while let Some(%s) = z.next() { %s t += 16; } if let Some((%s, n)) = z.end() { %s OBSI!(1, n); t += 16; } assert!(z.end().is_none()); t' % (vs, ob, vs, ob),
                 'collect': 'let mut t = 0usize; let v = z.simd_map(|%s| { %s t += 16; F!(v%d, %s, %d) }).scalar_collect(); vf_obs(255, v.as_ptr() as *const u8, v.len() * %d); v.len()' % (
                     vs, ob, c_ - 1, V, w, w // 8)}[op]

        def sp(c):
            cols = []
            for k in range(c_):
                vv, emp = padded(c, e, [c.i['a'].at((c.p + i) * c_ + k) for i in range(c.r)], c.i['d%d' % k])
                cols.append(vv)
            want = [(16 * t + k, cols[k][t]) for t in range(len(cols[0])) for k in range(c_)]
            g = []
            if op == 'collect':
                g.append(c.ret == c.r)
                want.append((255, [c.F[w](c.i['a'].at((c.p + i) * c_ + c_ - 1)) for i in range(c.r)]))
            else:
                g.append(c.ret == 16 * len(cols[0]))
                iv = c.ints_seen()
                g.append(z3.BoolVal(len(iv) == (1 if emp is not None else 0)))
                if iv and emp is not None:
                    g.append(iv[0][1] == emp)
            got = c.obs(e)
            if len(got) != len(want):
                return [z3.BoolVal(False)]
            for (t1, l1), (t2, l2) in zip(got, want):
                g.append(z3.BoolVal(t1 == t2))
                g += same(l1, l2)
            return g
        out.append(Case('z%s%d_%s' % (op, c_, e), body, P, sp, what='%s of all %d strides zipped over %s' % (op, c_, e), cpus=('sse2', 'avx2'),
                        thorough_ints={'r': TAILALL(e), 's': range(c_)}))

    def load(e, c_, k):
        """load at any offset: the elements, or a panic"""
        w, V = ELW[e], e + 's'
        P = [Sym('m', 0, PMAX), Int('s', sorted({0, k, c_ - 1})), Sym('q', 0, M(64)), SymSlice('a', e, lambda c: c.m * c_ + c.s)]
        head = 'let s = std::slice::from_raw_parts(a, m * %d + s); let it = s.stride(%d, &[%s(0 as %s); %d]).swap_remove(%d); ' % (c_, c_, V, e, c_, k)
        n = lambda c: c.m * c_ + c.s
        cap = lambda c: c.m + (1 if c.s > k else 0)       # elements k, k+c_, ... of the slice

        def fits(c, W):
            return z3.And(z3.UGE(cap(c), W), z3.ULE(c.q, cap(c) - W))

        def sp(c):
            W = c.width(e)
            return [fits(c, W)] + same(one(c, e), [c.i['a'].at((c.q + i) * c_ + k) for i in range(W)])
        out.append(Case('load%d_%d_%s' % (c_, k, e), head + 'OBS!(0, it.load(q), %s); 0' % V, P, sp, may_panic=lambda c: z3.Not(fits(c, c.width(e))),
                        what='load at any offset', cpus=('sse2', 'avx2')))
        small = lambda c: [z3.ULE(c.q, 1 << 40)]
        out.append(Case('scalar%d_%d_%s' % (c_, k, e), head + 'let x = it.load_scalar(q); vf_obs(0, &x as *const %s as *const u8, %d); 0' % (e, w // 8), P,
                        lambda c: [z3.ULT(c.q, cap(c)), one(c, e)[0] == c.i['a'].at(c.q * c_ + k)], may_panic=lambda c: z3.UGE(c.q, cap(c)), assume=small,
                        what='load_scalar at any offset', cpus=('sse2', 'avx2')))

    def nested(e, rs):
        """every third of every second element"""
        w, V = ELW[e], e + 's'
        G = 256 // w
        for k, j in ((0, 0), (1, 2), (0, 1)):
            P = [Sym('p', 0, PMAX), Int('r', rs), Int('s', [0, 5]), SymSlice('a', e, lambda c: (c.p + c.r) * 6 + c.s), In('d', e, G)]
            body = ('let s = std::slice::from_raw_parts(a, (p + r) * 6 + s); let z = %s(0 as %s); let t = s.stride_two((z, z)); let u = t.%d.stride_three((LD!(d, %s), LD!(d, %s), LD!(d, %s))); '
                    'let mut it = u.%d; it.advance(p); it.simd_reduce(0usize, |t, v| { OBS!(t, v, %s); t + 1 })' % (V, e, k, V, V, V, j, V))

            def sp(c, k=k, j=j):
                el = [c.i['a'].at((c.p + i) * 6 + 2 * j + k) for i in range(c.r)]
                vs, emp = padded(c, e, el, c.i['d'])
                got = c.obs(e)
                if len(got) != len(vs):
                    return [z3.BoolVal(False)]
                return [c.ret == len(vs)] + [x for (t, l), v in zip(got, vs) for x in same(l, v)]
            out.append(Case('nested%d%d_%s' % (k, j, e), body, P, sp, what='stride of a stride', cpus=('sse2', 'avx2')))

    def count(e):
        """as many defaults as strides"""
        V = e + 's'
        for c_, dl in ((2, 1), (3, 4), (1, 0), (5, 5)):
            out.append(Case('defaults%d_%d_%s' % (c_, dl, e), 'let s = std::slice::from_raw_parts(a, n); let d: &[%s] = &[%s(0 as %s); %d]; s.stride(%d, d).len()' % (V, V, e, dl, c_),
                            [Sym('n', 0, PMAX), SymSlice('a', e, lambda c: c.n)], lambda c, c_=c_: [c.ret == c_],
                            may_panic=lambda c, b=(c_ != dl): z3.BoolVal(b), must_panic=lambda c, b=(c_ != dl): z3.BoolVal(b), what='number of defaults', cpus=('avx2',)))

    def pairs(e, op, rs, ss=(0, 1), pre='adv'):
        """stride_zip: elements 2i and 2i+1"""
        w, V = ELW[e], e + 's'
        G = 256 // w
        P = [Sym('p', 0, PMAX), Int('r', rs), Int('s', ss), SymSlice('a', e, lambda c: c.p + c.r * 2 + c.s), In('d', e, G)]
        body = ZU + 'let s = std::slice::from_raw_parts(a, p + r * 2 + s); let mut it = s.simd_iter(LD!(d, %s)); it.advance(p); let mut z = it.stride_zip(); ' % V
        body += {'step': 'let mut t = 0usize; while let Some((x, y)) = z.next() { OBS!(t, x, %s); OBS!(t + 1, y, %s); t += 2; } '
                         'if let Some(((x, y), n)) = z.end() { OBS!(t, x, %s); OBS!(t + 1, y, %s); OBSI!(1, n); t += 2; } assert!(z.next().is_none()); assert!(z.end().is_none()); t' % (V, V, V, V),
                 'collect': 'let mut t = 0usize; let v = z.simd_map(|(x, y)| { OBS!(t, x, %s); OBS!(t + 1, y, %s); t += 2; F!(y, %s, %d) }).scalar_collect(); '
                            'vf_obs(255, v.as_ptr() as *const u8, v.len() * %d); v.len()' % (V, V, V, w, w // 8),
                 'reduce': 'z.simd_reduce(0usize, |t, (x, y)| { OBS!(t, x, %s); OBS!(t + 1, y, %s); t + 2 })' % (V, V)}[op]

        def sp(c):
            W = c.width(e)
            ev = [c.i['a'].at(c.p + 2 * i) for i in range(c.r)]
            od = [c.i['a'].at(c.p + 2 * i + 1) for i in range(c.r)]
            v0, emp = padded(c, e, ev, c.i['d'])
            v1, _ = padded(c, e, od, c.i['d'])
            got = c.obs(e)
            # a whole vector of pairs may also come from end()
            want = [(2 * t + k, v[t]) for t in range(len(v0)) for k, v in ((0, v0), (1, v1))]
            g = []
            if op == 'collect':
                want.append((255, [c.F[w](x) for x in od]))
                g.append(c.ret == c.r)
            else:
                g.append(c.ret == 2 * len(v0))
            if op == 'step':
                iv = c.ints_seen()
                if emp is not None:
                    g.append(iv[0][1] == emp if iv else z3.BoolVal(False))
                elif iv:
                    g.append(iv[0][1] == 0)
            if len(got) != len(want):
                return [z3.BoolVal(False)]
            for (t1, l1), (t2, l2) in zip(got, want):
                g.append(z3.BoolVal(t1 == t2))
                g += same(l1, l2)
            return g
        out.append(Case('pairs_%s_%s' % (op, e), body, P, sp, what='stride_zip of %s' % e, thorough_ints={'r': TAILALL(e)}))
    FOUR = ('u8', 'i16', 'f32', 'u64')
    for e in FOUR:
        T = TAIL(e, True)
        few = [1, 128 // ELW[e], 256 // ELW[e] + 1]
        for c_ in (2, 3, 4, 9):
            mk(e, c_, 'fixed', 'step', range(c_) if c_ < 4 else (0, c_ // 2, c_ - 1), range(c_) if c_ < 4 and ELW[e] > 8 else (0, c_ - 1), T if c_ == 2 else few)
            if c_ < 9 or ELW[e] > 16:
                zipped(e, c_, 'step' if c_ != 3 else 'collect', sorted({0, c_ - 1}), few)
        zipped(e, 2, 'collect', (0, 1), T)
        nested(e, few)
    for c_ in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16):
        for e in ('f32', 'u64'):
            mk(e, c_, 'vec', 'step' if c_ % 2 else 'reduce', sorted({0, c_ - 1}), sorted({0, c_ - 1}), [1, 128 // ELW[e], 256 // ELW[e] + 1])
    for e in ALL:
        mk(e, 2, 'fixed', 'collect', (0, 1), (0, 1) if ELW[e] > 16 else (1,), TAIL(e, True))
        load(e, 2, 1)
    for e in ('u8', 'f32'):
        for c_, k in ((1, 0), (2, 0), (3, 1), (3, 2), (4, 3)):
            load(e, c_, k)
    mk('f32', 3, 'into', 'step', (0, 2), (0, 2), TAIL('f32', True))
    mk('u8', 2, 'fixed', 'step', (1,), (0, 1), [1, 16, 33], src='iter')
    mk('u64', 5, 'vec', 'collect', (1, 4), (0, 4), TAIL('u64', True))
    count('f32')
    for e in ('u8', 'i8', 'u16', 'i16'):
        for op in ('step',) if e[0] == 'u' else ('step', 'collect', 'reduce'):
            pairs(e, op, sorted(set(TAIL(e, True)) | {256 // ELW[e] * 2, 128 // ELW[e] * 2 - 1}))
    return out
