"""resuming a partly consumed iterator"""
from .iterlib import *
BOUNDS = ('the position the iterator is resumed at is symbolic (0..2^36, slices of any length up to there); then up to two next() calls, up to W+1 scalar steps and further '
          'advances; remaining elements case-split from 0 past two vectors; every content, every default, every lane-wise function')
OUTSIDE = 'more than two vectors left when the iteration is finished; longer sequences of steps; end() called directly while more than a vector is left'

PRE = {   # name -> (code, steps)
    'adv': ('', []),
    'adv2': ('it.advance(q);', []),
    'next': ('NEXT', ['N']),
    'next2': ('NEXT NEXT', ['N', 'N']),
    'unp1': ('UNP1', ['U1']),
    'unp3': ('UNP3', ['U3']),
    'unpw': ('UNPW', ['UW']),
    'mixa': ('UNP1 NEXT ADV1', ['U1', 'N', 'A1']),
    'mixb': ('NEXT UNP3 NEXT', ['N', 'U3', 'N']),
    'mixc': ('ADV2 NEXT UNP1 ADV1', ['A2', 'N', 'U1', 'A1']),
}


def cases():
    out = []

    def mk(e, pre, fin, rs):
        w, V = ELW[e], e + 's'
        G = 256 // w
        code = PRE[pre][0]
        code = code.replace('NEXT', 'if let Some(v) = it.next() { OBS!(1, v, %s); }' % V)
        for k, num in (('UNP1', '1'), ('UNP3', '3'), ('UNPW', '%s::WIDTH + 1' % V)):
            code = code.replace(k, 'let mut u = it.unpack(); for _ in 0..%s { if let Some(x) = u.next() { vf_obs(2, &x as *const %s as *const u8, %d); } } let mut it = u.pack();' % (
                num, e, w // 8))
        code = code.replace('ADV1', 'it.advance(1);').replace('ADV2', 'it.advance(2);')
        mut = fin == 'each_mut'
        head = (TAILM if mut else TAILS) if pre != 'adv2' else (TAILM if mut else TAILS).replace('p + r', 'p + q + r')
        head += ' let mut it = s.%s(LD!(d, %s)); it.advance(p); ' % ('simd_iter_mut' if mut else 'simd_iter', V)
        tail = {'collect': 'let v = it.scalar_collect(); vf_obs(3, v.as_ptr() as *const u8, v.len() * %d); 0' % (w // 8),
                'map': 'let v = it.simd_map(%s).scalar_collect(); vf_obs(3, v.as_ptr() as *const u8, v.len() * %d); 0' % (fmap(e), w // 8),
                'all': 'let v = it.scalar_collect_all(); vf_obs(3, v.as_ptr() as *const u8, v.len() * %d); 0' % (w // 8),
                'fill': 'let t = std::slice::from_raw_parts_mut(b.add(%d), %d); it.scalar_fill(t); 0' % (G, 3 * G),
                'fillall': 'let t = std::slice::from_raw_parts_mut(b.add(%d), %d); it.scalar_fill_all(t); 0' % (G, 3 * G),
                'reduce': 'it.simd_reduce(0usize, |k, v| { OBS!(3 + k, v, %s); k + 1 })' % V,
                'each': 'let mut k = 0usize; it.simd_do_each(|v| { OBS!(3 + k, v, %s); k += 1; }); k' % V,
                'step': 'let mut k = 0usize; while let Some(v) = it.next() { OBS!(3 + k, v, %s); k += 1; } if let Some((v, n)) = it.end() { OBS!(3 + k, v, %s); OBSI!(9, n); k += 1; } '
                        'assert!(it.next().is_none()); assert!(it.end().is_none()); k' % (V, V),
                'each_mut': 'let mut k = 0usize; it.simd_for_each(|v| { OBS!(3 + k, *v, %s); *v = F!(*v, %s, %d); k += 1; }); k' % (V, V, w)}[fin]
        P = [Sym('p', 0, PMAX)] + ([Sym('q', 0, PMAX)] if pre == 'adv2' else []) + [Int('r', rs)]
        P.append(SymSlice('a', e, (lambda c: c.p + c.q + c.r) if pre == 'adv2' else (lambda c: c.p + c.r), mut))
        P.append(In('d', e, G))
        if fin.startswith('fill'):
            P.append(InOut('b', e, 5 * G))

        def sp(c, steps=PRE[pre][1], fin=fin):
            W = c.width(e)
            a, d, r = c.i['a'], c.i['d'], c.r
            base = c.p + c.q if pre == 'adv2' else c.p
            el = lambda i: a.at(base + i)
            pos = 0
            want = []       # (tag, lanes)
            g = []
            for s in steps:
                if s == 'N':
                    if pos + W <= r:
                        want.append((1, [el(i) for i in range(pos, pos + W)]))
                        pos += W
                elif s[0] == 'U':
                    k = W + 1 if s == 'UW' else int(s[1:])
                    for _ in range(k):
                        if pos < r:
                            want.append((2, [el(pos)]))
                            pos += 1
                else:
                    pos += int(s[1:])
            left = [el(i) for i in range(pos, r)]
            vs, emp = padded(c, e, left, d)
            F = c.F[w]
            if fin == 'collect':
                want.append((3, left))
            elif fin == 'map':
                want.append((3, [F(x) for x in left]))
            elif fin == 'all':
                want.append((3, [x for v in vs for x in v]))
            elif fin in ('fill', 'fillall'):
                ws = left if fin == 'fill' else [x for v in vs for x in v]
                for k, x in enumerate(c.i['b']):
                    j = k - G
                    g.append(c.o['b'][k] == (ws[j] if 0 <= j < len(ws) else x))
            else:
                for k, v in enumerate(vs):
                    want.append((3 + k, v))
                g.append(c.ret == len(vs))
                if fin == 'step':
                    iv = c.ints_seen()
                    g.append(z3.BoolVal(len(iv) == (emp is not None)))
                    if iv and emp is not None:
                        g.append(iv[0][1] == emp)
                if fin == 'each_mut':
                    g += [c.o['a'].at(base + i) == F(el(i)) for i in range(pos, r)]
                    g += c.o['a'].frame(a, lambda ix: z3.Or([ix == base + i for i in range(pos, r)] + [z3.BoolVal(False)]))
            got = c.obs(e)
            if len(got) != len(want):
                return [z3.BoolVal(False)]
            for (t1, l1), (t2, l2) in zip(got, want):
                g.append(z3.BoolVal(t1 == t2))
                g += same(l1, l2)
            return g
        out.append(Case('%s_%s_%s' % (pre, fin, e), head + code + tail, P, sp, what='%s of a resumed iterator over %s' % (fin, e),
                        skip_int=None, thorough_ints={'r': TAILALL(e)}))

    def past(e):
        """advanced past the end: nothing is left"""
        w, V = ELW[e], e + 's'
        P = [Sym('n', 0, PMAX), Sym('p', 0, M(64)), SymSlice('a', e, lambda c: c.n, True), In('d', e, 256 // w)]
        body = ('let s = std::slice::from_raw_parts_mut(a, n); let mut it = s.simd_iter_mut(LD!(d, %s)); it.advance(p); assert!(it.next().is_none()); assert!(it.end().is_none()); '
                'let mut k = 0usize; it.simd_do_each(|_| k += 1); it.simd_for_each(|v| { *v = F!(*v, %s, %d); k += 1; }); k = it.simd_reduce(k, |k, _| k + 1); '
                'k + it.scalar_collect().len() + it.scalar_collect_all().len() + it.unpack().count()' % (V, V, w))
        out.append(Case('past_' + e, body, P, lambda c: [c.ret == 0] + c.o['a'].frame(c.i['a'], lambda ix: z3.BoolVal(False)),
                        assume=lambda c: [z3.UGE(c.p, c.n)], what='nothing left past the end of %s' % e))
    for e in ALL:
        for fin in ('collect', 'each_mut', 'step'):
            mk(e, 'adv', fin, TAIL(e, True))
        past(e)
    for e in ('u8', 'i16', 'f32', 'u64'):
        for fin in ('map', 'all', 'fill', 'fillall', 'reduce', 'each'):
            mk(e, 'adv', fin, TAIL(e, True))
        for pre in PRE:
            if pre != 'adv':
                for fin in ('collect', 'each_mut', 'step'):
                    if e in ('f32', 'u64') or pre in ('adv2', 'unp3', 'mixb'):
                        mk(e, pre, fin, TAIL(e, True))
    return out
