"""closures are called once per vector"""
from .iterlib import *
BOUNDS = ('stateful closures given to maps (also chained, of zips, strides, stride_zips, owning and packing iterators, and unrolled), simd_do_each, simd_reduce and simd_for_each; the position at which '
          'the iteration is resumed is symbolic (slices of any length up to 2^36); remaining elements case-split around half, one and two vectors; every content, every default')
OUTSIDE = 'closures that panic; more than two vectors left'
ZU = 'use faster::zip::*; '
ENDS = ('step', 'collect', 'collect_all', 'fill', 'fill_all', 'each', 'reduce', 'one', 'unroll', 'skip')


def cases():
    out = []

    def src(e, kind):
        """(columns, elements of the slice per element iterated, setup, iterator, closure argument)"""
        w, V = ELW[e], e + 's'
        D, D2 = 'LD!(d, %s)' % V, 'LD!(d2, %s)' % V
        # the underlying iterator is resumed at p before a closure is attached
        adv = lambda x: 'let mut i0 = %s; i0.advance(p);' % x
        return {'ref': (1, 1, adv('s.simd_iter(%s)' % D), 'i0', 'v0'),
                'mut': (1, 1, adv('s.simd_iter_mut(%s)' % D), 'i0', 'v0'),
                'chain': (1, 1, adv('s.simd_iter(%s)' % D), 'i0.simd_map(|v| { OBS!(100 + c0.get(), v, %s); c0.set(c0.get() + 1); F!(v, %s, %d) })' % (V, V, w), 'v0'),
                'adapter': (1, 1, '', 'faster::iters::SIMDAdapter { iter: s[p..].iter().cloned(), scratch: %s, default: %s, position: 0 }' % (D2, D), 'v0'),
                'zip': (2, 1, adv('(s.simd_iter(%s), s.simd_iter(%s)).zip()' % (D, D2)), 'i0', '(v0, v1)'),
                'stride': (1, 2, adv('s.stride_two((%s, %s)).1' % (D2, D)), 'i0', 'v0'),
                'stride_zip': (2, 2, adv('s.simd_iter(%s).stride_zip()' % D), 'i0', '(v0, v1)')}[kind]

    def mk(e, kind, end, rs, cpus=('sse2', 'avx2')):
        w, V = ELW[e], e + 's'
        G = 256 // w
        cols, st, pre, it, arg = src(e, kind)
        P = [Sym('p', 0, PMAX), Int('r', rs), SymSlice('a', e, lambda c: (c.p + c.r) * st, kind == 'mut'), In('d', e, G), In('d2', e, G)]
        see = ' '.join('OBS!(2 * c.get() + %d, v%d, %s);' % (j, j, V) for j in range(cols))
        clo = '|%s| { %s c.set(c.get() + 1); F!(v0, %s, %d) }' % (arg, see, V, w)
        body = (ZU + 'use std::cell::Cell; let (c, c0) = (Cell::new(0usize), Cell::new(0usize)); let s = std::slice::from_raw_parts%s(a, (p + r) * %d); %s '
                % ('_mut' if kind == 'mut' else '', st, pre))
        if end in ('each', 'reduce') and kind != 'chain':
            # the closure is given to the consumer itself
            body += 'let mut it = %s; ' % it
            body += {'each': 'it.simd_do_each(|%s| { %s c.set(c.get() + 1); }); OBSI!(1, c.get());' % (arg, see),
                     'reduce': 'let t = it.simd_reduce(5usize, |t, %s| { OBSI!(2, t); %s c.set(c.get() + 1); t + 3 }); OBSI!(1, c.get()); OBSI!(3, t);' % (arg, see)}[end]
        else:
            body += 'let mut it = (%s).simd_map(%s); ' % (it, clo)
            # nothing but consuming a vector may call the closure
            body += ('OBSI!(1, c.get() + c0.get()); let _ = (it.scalar_len(), it.vector_len(), it.len(), it.scalar_pos(), it.vector_pos(), SIMDIterable::default(&it)); OBSI!(2, c.get() + c0.get()); ')
            body += {'step': 'while let Some(_) = it.next() { OBSI!(3, c.get()); } {four} if let Some(_) = it.end() { OBSI!(3, c.get()); } let _ = it.next(); let _ = it.end();',
                     'collect': 'let _v = it.scalar_collect();', 'collect_all': 'let _v = it.scalar_collect_all();',
                     'fill': 'let mut f = [0 as %s; %d]; it.scalar_fill(&mut f[..]);' % (e, 4 * G), 'fill_all': 'let mut f = [0 as %s; %d]; it.scalar_fill_all(&mut f[..]);' % (e, 4 * G),
                     'each': 'it.simd_do_each(|_| ());', 'reduce': 'it.simd_reduce((), |_, _| ());',
                     'one': 'let _ = it.next();',
                     'skip': 'let w = it.width(); it.advance(if r < w { r } else { w }); OBSI!(8, c.get() + c0.get()); let _ = it.next(); it.advance(1); OBSI!(7, c.get() + c0.get());',
                     'unroll': '{ let mut u = it.unroll(2); while let Some(_) = u.next() { OBSI!(3, c.get()); } } let _ = it.end();'}[end].replace('{four}', 'OBSI!(4, c.get());' if kind != 'stride_zip' else '')
            body += ' OBSI!(9, c.get());'
        body += ' 0'

        def sp(c):
            W = c.width(e)
            F = c.F[w]
            at = c.i['a'].at
            col = []
            if kind == 'stride_zip':
                # the underlying iterator is consumed two vectors at a time
                el = [at(c.p * 2 + i) for i in range(2 * c.r)]
                col = [padded(c, e, el[j::2], [])[0] if c.r % W == 0 else None for j in range(2)]
            else:
                for j in range(cols):
                    d = c.i['d2'] if j else c.i['d']
                    col.append(padded(c, e, [at((c.p + i) * st + (1 if kind == 'stride' else 0)) for i in range(c.r)], d)[0])
            n, full = -(-c.r // W), c.r // W
            first, count = 0, n
            if end == 'one':
                count = min(1, full)
            if end == 'skip':
                first, count = (1, 1) if full >= 2 else (0, 0)
            want = []
            for k in range(count):
                if kind == 'chain':
                    want += [(100 + k, col[0][first + k]), (2 * k, [F(x) for x in col[0][first + k]])]
                else:
                    want += [(2 * k + j, col[j][first + k] if col[j] is not None else None) for j in range(cols)]
            if end in ('each', 'reduce') and kind != 'chain':
                iv = ([(2, 5 + 3 * k) for k in range(n)] if end == 'reduce' else []) + [(1, n)] + ([(3, 5 + 3 * n)] if end == 'reduce' else [])
            else:
                iv = [(1, 0), (2, 0)]
                if end == 'step':
                    # the last pair of whole vectors of a stride_zip may come from next() or end()
                    iv += [(3, k + 1) for k in range(full)] + ([(4, full)] if kind != 'stride_zip' else []) + ([(3, n)] if n > full else [])
                if end == 'unroll':
                    iv += [(3, min(2 * k + 2, full)) for k in range((full + 1) // 2)]
                if end == 'skip':
                    iv += [(8, 0), (7, 2 * count if kind == 'chain' else count)]
                iv += [(9, count)]
            got, gi = c.obs(e), c.ints_seen()
            if [t for t, _ in got] != [t for t, _ in want] or [t for t, _ in gi] != [t for t, _ in iv]:
                return [z3.BoolVal(False)]
            return [x for (_, l), (_, v) in zip(got, want) if v is not None for x in same(l, v)] + [x == y for (_, x), (_, y) in zip(gi, iv)]
        out.append(Case('%s_%s_%s' % (end, kind, e), body, P, sp, what='calls of a closure: %s over %s of %s' % (end, kind, e), cpus=cpus, thorough_ints={'r': TAILALL(e)}))

    def each(e, rs):
        w, V = ELW[e], e + 's'
        G = 256 // w
        P = tailp(e, rs, True) + [In('d', e, G)]
        body = (TAILM + 'let mut k = 0usize; let mut it = s.simd_iter_mut(LD!(d, %s)); it.advance(p); it.simd_for_each(|v| { OBS!(k, *v, %s); k += 1; *v = F!(*v, %s, %d); }); OBSI!(1, k); 0' % (V, V, V, w))

        def sp(c):
            vs, _ = padded(c, e, rest(c), c.i['d'])
            got, gi = c.obs(e), c.ints_seen()
            if [t for t, _ in got] != list(range(len(vs))) or [t for t, _ in gi] != [1]:
                return [z3.BoolVal(False)]
            return [gi[0][1] == len(vs)] + [x for (_, l), v in zip(got, vs) for x in same(l, v)]
        out.append(Case('for_each_%s' % e, body, P, sp, what='calls of the closure of simd_for_each over %s' % e, cpus=('sse2', 'avx2'), thorough_ints={'r': TAILALL(e)}))

    for e in ALL:
        each(e, TAIL(e, e not in ('u8', 'i16', 'f32', 'u64')))
    for e in ('u8', 'i16', 'f32', 'u64'):
        for end in ENDS:
            mk(e, 'ref', end, TAIL(e))
        for kind in ('mut', 'chain', 'zip', 'stride', 'adapter'):
            for end in ENDS if e == 'u64' else ('step', 'collect', 'reduce'):
                if kind == 'adapter' and end == 'skip':
                    continue
                mk(e, kind, end, TAIL(e, True))
        for end in ('step', 'collect', 'fill_all', 'each', 'reduce') if e in ('u8', 'i16') else ():
            G = 256 // ELW[e]
            mk(e, 'stride_zip', end, sorted({0, G // 2, G, G + G // 2, 2 * G}))
    return out
