"""stepping, visiting, reducing"""
from .iterlib import *
BOUNDS = ('slice lengths as in P01 (u8, i16, f32, u64 in full, all ten element types around half and whole vectors); every content, every default; '
          'the accumulator is threaded as a call counter and, for reductions, as a vector folded with an uninterpreted lane function')
OUTSIDE = 'longer slices'


def stepq(c, e, lanesof=lambda c, x: x, tag=None):
    """observations: every vector of the iteration, in order"""
    vs, emp = padded(c, e, c.i['a'], c.i['d'])
    t = c.obs(e)
    if len(t) != len(vs):
        return [z3.BoolVal(False)]
    r = []
    for k, (v, (tg, ls)) in enumerate(zip(vs, t)):
        r += same(ls, [lanesof(c, x) for x in v])
    return r, vs, emp, t


def cases():
    out = []

    def mk(e, lens, kinds):
        w = ELW[e]
        V = e + 's'
        D = 'LD!(d, %s)' % V
        P = [In('a', e, nl), In('d', e, 256 // w), Int('n', lens)]
        F = lambda c, x: c.F[w](x)
        step = ('let mut k = 0; while let Some(v) = it.next() { OBS!(1, v, %s); k += 1; } let mut r = 999; '
                'if let Some((v, m)) = it.end() { OBS!(2, v, %s); r = m; } '
                'assert!(it.next().is_none()); assert!(it.end().is_none()); k * 1000 + r' % (V, V))

        def q(f, ends=True):
            def sp(c):
                x = stepq(c, e, f)
                if len(x) == 1:
                    return x
                r, vs, emp, t = x
                full = len(vs) - (emp is not None)
                r.append(z3.BoolVal([tg for tg, _ in t] == [1] * full + [2] * (emp is not None)))
                r.append(c.ret == full * 1000 + (999 if emp is None else emp))
                return r
            return sp

        def fold(c):
            """accumulator folded lane by lane: acc = F(acc) + v"""
            vs, emp = padded(c, e, c.i['a'], c.i['d'])
            acc = list(c.i['z'][:c.width(e)])
            for v in vs:
                acc = [F(c, x) ^ y for x, y in zip(acc, v)]
            return [x == y for x, y in zip(c.o['o'], acc)] + [c.ret == len(vs)]
        src = {'ref': 'let mut it = s.simd_iter(%s);' % D, 'vec': 'let mut it = s.to_vec().into_simd_iter(%s);' % D,
               'mut': 'let mut t = s.to_vec(); let mut it = t.simd_iter_mut(%s);' % D}
        for k in kinds:
            out.append(Case('step_%s_%s' % (k, e), SLICE + src[k] + step, P, q(lambda c, x: x), what='next/end over %s, %s' % (e, k)))
        out.append(Case('mapstep_%s' % e, SLICE + src['ref'][:-1] + '.simd_map(%s);' % fmap(e) + step, P, q(F), what='next/end of a map'))
        one_tag = lambda f: (lambda c: (lambda x: x if len(x) == 1 else x[0] + [c.ret == len(x[1])])(stepq(c, e, f)))
        out.append(Case('each_%s' % e, SLICE + src['ref'] + 'let mut k = 0; it.simd_do_each(|v| { OBS!(1, v, %s); k += 1; }); '
                        'assert!(it.next().is_none() && it.end().is_none()); k' % V, P, one_tag(lambda c, x: x), what='simd_do_each'))
        out.append(Case('reduce_%s' % e, SLICE + src['ref'] + 'let k = it.simd_reduce(0usize, |k, v| { vf_obs(k, &v as *const %s as *const u8, std::mem::size_of::<%s>()); k + 1 }); '
                        'assert!(it.next().is_none() && it.end().is_none()); k' % (V, V), P,
                        lambda c: one_tag(lambda c, x: x)(c) + [z3.BoolVal([t for t, _ in c.trace] == list(range(len(c.trace))))], what='simd_reduce threads its accumulator'))
        xor = {'f32': 'Transmute::be_f32s_unchecked(&(Transmute::be_u32s(&F!(k.1, f32s, 32)) ^ Transmute::be_u32s(&v)))',
               'f64': 'Transmute::be_f64s_unchecked(&(Transmute::be_u64s(&F!(k.1, f64s, 64)) ^ Transmute::be_u64s(&v)))'}.get(
                   e, 'F!(k.1, %s, %d) ^ v' % (V, w))
        out.append(Case('fold_%s' % e, SLICE + src['ref'] + 'let k = it.simd_reduce((0usize, LD!(z, %s)), |k, v| (k.0 + 1, %s)); ST!(o, %s, k.1); k.0' % (V, xor, V),
                        P + [In('z', e, 256 // w), Out('o', e, 256 // w)], fold, what='simd_reduce folds the vectors in order'))
    FULL = ('u8', 'i16', 'f32', 'u64')
    for e in ALL:
        mk(e, LENS(e, e in FULL), ('ref', 'vec', 'mut'))
    return out
