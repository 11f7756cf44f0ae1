"""SIMDAdapter"""
from .iterlib import *
BOUNDS = ('iterators over slices of 0 to 2W+1 elements, mapped and chained iterators, ranges with a symbolic start, owning iterators; up to two vectors, with scalar steps of the '
          'underlying iterator and advances in between; every content, every default')
OUTSIDE = 'longer iterators; iterators that lie about their length; end() while more than a vector is left'
MK = 'faster::iters::SIMDAdapter { iter: %s, scratch: LD!(x, %s), default: LD!(d, %s), position: 0 }'
SRC = {'cloned': ('s.iter().cloned()', lambda a: a), 'map': ('s.iter().map(|v| !*v)', lambda a: [~x for x in a]), 'rev': ('s.iter().rev().cloned()', lambda a: a[::-1]),
       'vec': ('s.to_vec().into_iter()', lambda a: a), 'skip': ('s.iter().cloned().skip(1)', lambda a: a[1:]),
       'step': ('s.iter().cloned().step_by(2)', lambda a: a[::2])}


def cases():
    out = []

    def mk(e, src, ns, pre='', steps=(), fin='step'):
        """pre: code before the iteration, steps: what it does"""
        w, V = ELW[e], e + 's'
        G = 256 // w
        code = ''
        for k, s in enumerate(steps):
            code += {'N': 'if let Some(v) = it.next() { OBS!(1, v, %s); }' % V, 'A': 'it.advance(%s);' % s[1:], 'L': 'OBSI!(4, it.scalar_len()); OBSI!(5, it.scalar_pos()); OBSI!(6, it.len()); OBSI!(7, it.vector_pos()); OBSI!(8, it.vector_len());'}[s[0]]
        body = SLICE + 'let mut it = %s; %s ' % (MK % (SRC[src][0], V, V), code)
        body += {'step': 'let mut k = 0usize; while let Some(v) = it.next() { OBS!(2 + k, v, %s); k += 1; } if let Some((v, n)) = it.end() { OBS!(2 + k, v, %s); OBSI!(1, n); k += 1; } '
                         'assert!(it.next().is_none()); assert!(it.end().is_none()); OBSI!(2, it.scalar_pos()); OBSI!(3, it.scalar_len()); k' % (V, V),
                 'reduce': 'it.simd_reduce(0usize, |k, v| { OBS!(2 + k, v, %s); k + 1 })' % V,
                 'each': 'let mut k = 0usize; it.simd_do_each(|v| { OBS!(2 + k, v, %s); k += 1; }); k' % V,
                 'mapped': 'let mut it = it.simd_map(%s); let mut k = 0usize; while let Some(v) = it.next() { OBS!(2 + k, v, %s); k += 1; } if let Some((v, n)) = it.end() { OBS!(2 + k, v, %s); k += 1; } k' % (
                     fmap(e), V, V)}[fin]

        def sp(c):
            W = c.width(e)
            a = SRC[src][1](c.i['a'])
            pos, want, iv = 0, [], []
            for s in steps:
                if s == 'N':
                    if pos + W <= len(a):
                        want.append((1, a[pos:pos + W]))
                        pos += W
                elif s == 'L':
                    iv += [(4, len(a)), (5, pos), (6, len(a) // W), (7, pos // W), (8, len(a) // W)]
                else:
                    pos = min(len(a), pos + int(s[1:]))
            vs, emp = padded(c, e, a[pos:], c.i['d'])
            want += [(2 + k, v if fin != 'mapped' else [c.F[w](x) for x in v]) for k, v in enumerate(vs)]
            if fin == 'step':
                iv += ([(1, emp)] if emp is not None else []) + [(2, len(a)), (3, len(a))]
            got, gi = c.obs(e), c.ints_seen()
            if [t for t, _ in got] != [t for t, _ in want] or [t for t, _ in gi] != [t for t, _ in iv]:
                return [z3.BoolVal(False)]
            return [c.ret == len(vs)] + [x for (_, l), (_, v) in zip(got, want) for x in same(l, v)] + [x == y for (_, x), (_, y) in zip(gi, iv)]
        nm = '%s_%s_%s%s' % (fin, src, e, ''.join('_' + s for s in steps))
        out.append(Case(nm, body, [In('a', e, nl), In('d', e, G), In('x', e, G), Int('n', ns)], sp, what='packing of an iterator over %s' % e,
                        cpus=('sse2', 'avx2'), thorough_ints={'n': range(2 * G + 3)}))

    def rng(e):
        w, V = ELW[e], e + 's'
        G = 256 // w
        P = [Sym('p', 0, 1 << 30), Int('r', LENS('f32', False)), In('d', e, G), In('x', e, G)]
        body = 'let mut it = %s; it.simd_reduce(0usize, |k, v| { OBS!(k, v, %s); k + 1 })' % (MK % ('(p as %s..(p + r) as %s)' % (e, e), V, V), V)

        def sp(c):
            vs, emp = padded(c, e, [z3.Extract(w - 1, 0, c.p + i) for i in range(c.r)], c.i['d'])
            got = c.obs(e)
            return [c.ret == len(vs), z3.BoolVal(len(got) == len(vs))] + [x for (_, l), v in zip(got, vs) for x in same(l, v)]
        out.append(Case('range_' + e, body, P, sp, what='a range of %s' % e, cpus=('sse2', 'avx2')))
    for e in ALL:
        mk(e, 'cloned', LENS(e, ELW[e] >= 32))
    for e in ('u8', 'i16', 'f32', 'u64'):
        L = LENS(e, False)
        for fin in ('reduce', 'each', 'mapped'):
            mk(e, 'cloned', L, fin=fin)
        for src in ('map', 'rev', 'vec') if e != 'f32' else ('rev', 'vec'):
            mk(e, src, L)
        mk(e, 'skip', [n for n in L if n])
        mk(e, 'step', [n for n in L if n % 2])
        for steps in (('L', 'N', 'L'), ('A1', 'N', 'L'), ('N', 'A3', 'L'), ('A%d' % (256 // ELW[e] + 1), 'L'), ('A1000', 'L')):
            mk(e, 'cloned', L, steps=steps)
    for e in ('u32', 'i32'):
        rng(e)
    return out
