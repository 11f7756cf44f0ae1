"""vectors as memory: load/store/extract/replace/splat/default/coalesce/scalar_reduce/width"""
from .common import *
LMAX = 1 << 36
BOUNDS = ('all 30 vector types; slices of every length up to 2^36 elements (symbolic) with arbitrary contents; offset and index are any 64-bit value; slices, mutable slices and Vecs of '
          'all ten element types through the array traits')
OUTSIDE = 'slices longer than 2^36 elements'


def sel(lst, off, k, dflt=None):
    """lst[off+k] for a symbolic in-range off"""
    r = lst[min(k, len(lst) - 1)]
    for j in range(len(lst) - k):
        r = z3.If(off == j, lst[j + k], r)
    return r


def arrays(out, e):
    """the array traits of slices, mutable slices and Vecs, and the iterators over them"""
    w, V = ELW[e], e + 's'
    P = [Sym('n', 0, LMAX), Sym('off', 0, M(64)), SymSlice('a', e, lambda c: c.n, True), In('x', e, 256 // w)]
    fits = lambda c: z3.And(z3.UGE(c.n, c.width(e)), z3.ULE(c.off, c.n - c.width(e)))
    one = lambda c: z3.ULT(c.off, c.n)
    kinds = {'ref': ('std::slice::from_raw_parts(a as *const %s, n)' % e, False), 'mut': ('std::slice::from_raw_parts_mut(a, n)', True),
             'vec': ('std::mem::ManuallyDrop::new(Vec::from_raw_parts(a, n, n))', False)}
    for k, (mk, mut) in kinds.items():
        r = '&s' if k != 'vec' else '&*s'
        rm = '&mut s' if k != 'vec' else '&mut *s'
        for un in ('', '_unchecked'):
            def add(nm, body, ok, spec):
                ok2 = (lambda c: z3.Not(ok(c)))
                out.append(Case('%s_%s%s_%s' % (nm, k, un, e), 'let mut s = %s; %s' % (mk, body.replace('@', un)), P, spec, what='%s%s of a %s of %s' % (nm, un, k, e),
                                may_panic=None if un else ok2, must_panic=None if un else ok2, assume=(lambda c: [ok(c)]) if un else None, cpus=('sse2', 'avx2')))
            T = {'ref': '&[%s]', 'mut': '&mut [%s]', 'vec': 'Vec<%s>'}[k] % e
            tr = 'faster::iters::SIMDArray'
            add('aload', 'OBS!(1, <%s as %s>::load@(%s, off), %s); 0' % (T, tr, r, V), fits,
                lambda c: [z3.And(*[x == c.i['a'].at(c.off + j) for j, x in enumerate(c.obs(e)[0][1])])])
            add('ascalar', 'let v = <%s as %s>::load_scalar@(%s, off); vf_obs(1, &v as *const %s as *const u8, %d); 0' % (T, tr, r, e, w // 8), one,
                lambda c: [c.obs(e)[0][1][0] == c.i['a'].at(c.off)])
            if mut:
                tr = 'faster::iters::SIMDArrayMut'
                add('astore', '<%s as %s>::store@(%s, LD!(x, %s), off); 0' % (T, tr, rm, V), fits,
                    lambda c: [c.o['a'].at(c.off + j) == c.i['x'][j] for j in range(c.width(e))] + c.o['a'].frame(c.i['a'], lambda ix: z3.ULT(ix - c.off, c.width(e))))
                add('ascstore', '<%s as %s>::store_scalar@(%s, *x, off); 0' % (T, tr, rm), one,
                    lambda c: [c.o['a'].at(c.off) == c.i['x'][0]] + c.o['a'].frame(c.i['a'], lambda ix: ix == c.off))
        out.append(Case('alen_%s_%s' % (k, e), 'let s = %s; faster::iters::SIMDSized::scalar_len(%s)' % (mk, r), P, lambda c: [c.ret == c.n], what='length of a %s' % k, cpus=('avx2',)))


def cases():
    out = []
    for e in ALL:
        for bits in BITS:
            v, n = vec(e, bits), lanes(e, bits)
            N = n + 3
            feq = (lambda x, y: x == y) if e not in ISF else (
                lambda x, y: z3.And(z3.Not(isnan(x)), z3.Not(isnan(y)), z3.Or(x == y, z3.And(iszero(x), iszero(y)))))
            inb = lambda c, n=n: z3.And(z3.UGE(c.n, n), z3.ULE(c.off, c.n - n))
            oob = lambda c, f=inb: z3.Not(f(c))

            def ld(c, n=n):
                return [c.o['o'][k] == c.i['a'].at(c.off + k) for k in range(n)]

            def stq(c, n=n):
                return [c.o['d'].at(c.off + k) == c.i['a'][k] for k in range(n)] + c.o['d'].frame(c.i['d'], lambda ix, n=n: z3.ULT(ix - c.off, n))
            P = [Sym('n', 0, LMAX), Sym('off', 0, M(64)), SymSlice('a', e, lambda c: c.n), Out('o', e, n)]
            out.append(Case('load_' + v, 'let s = std::slice::from_raw_parts(a, n); ST!(o, %s, <%s as Packed>::load(s, off)); 0' % (v, v),
                            P, ld, may_panic=oob, must_panic=oob, what='load reads exactly [offset, offset+WIDTH)'))
            out.append(Case('loadu_' + v, 'let s = std::slice::from_raw_parts(a, n); ST!(o, %s, <%s as Packed>::load_unchecked(s, off)); 0' % (v, v),
                            P, ld, assume=lambda c, f=inb: [f(c)], what='load_unchecked in range'))
            P = [Sym('n', 0, LMAX), Sym('off', 0, M(64)), In('a', e, n), SymSlice('d', e, lambda c: c.n, True)]
            out.append(Case('store_' + v, 'let x = LD!(a, %s); let s = std::slice::from_raw_parts_mut(d, n); Packed::store(x, s, off); 0' % v,
                            P, stq, may_panic=oob, must_panic=oob, what='store writes exactly [offset, offset+WIDTH)'))
            out.append(Case('storeu_' + v, 'let x = LD!(a, %s); let s = std::slice::from_raw_parts_mut(d, n); Packed::store_unchecked(x, s, off); 0' % v,
                            P, stq, assume=lambda c, f=inb: [f(c)], what='store_unchecked in range'))
            # extract / replace: any index
            big = lambda c, n=n: z3.UGE(c.off, BV(n, 64))
            P = [In('a', e, n), In('b', e, 1), Out('o', e, 1), Out('r', e, n), Sym('off', 0, M(64))]

            def exq(c, n=n):
                return [c.o['o'][0] == sel(c.i['a'], c.off, 0)] + [
                    c.o['r'][k] == z3.If(c.off == k, c.i['b'][0], c.i['a'][k]) for k in range(n)]
            out.append(Case('extract_' + v, 'let x = LD!(a, %s); *o = Packed::extract(&x, off); 0' % v,
                            P, lambda c, f=exq: f(c)[:1], may_panic=big, must_panic=big, what='extract'))
            out.append(Case('replace_' + v, 'let mut x = LD!(a, %s); let y = Packed::replace(&mut x, off, *b); ST!(r, %s, y); 0' % (v, v),
                            P, lambda c, f=exq: f(c)[1:], may_panic=big, must_panic=big, what='replace'))
            out.append(Case('exreu_' + v, 'let mut x = LD!(a, %s); *o = Packed::extract_unchecked(&x, off); '
                            'let y = Packed::replace_unchecked(&mut x, off, *b); ST!(r, %s, y); 0' % (v, v),
                            P, exq, assume=lambda c, f=big: [z3.Not(f(c))], what='extract_unchecked/replace_unchecked'))
            # splat/default/width/coalesce/scalar_reduce
            def mis(c, n=n, feq=feq):
                a = c.i['a']
                return z3.And(z3.BoolVal(True), *[feq(a[k - 1], a[k]) for k in range(1, n)])
            out.append(Case('splat_' + v, 'ST!(o, %s, <%s as Packed>::splat(*b)); ST!(r, %s, <%s as Packed>::default()); '
                            'let x = LD!(r, %s); (Packed::width(&x) << 16) + <%s as Packed>::WIDTH' % ((v,) * 6),
                            [In('b', e, 1), Out('o', e, n), Out('r', e, n)],
                            lambda c, n=n: [x == c.i['b'][0] for x in c.o['o']] + [x == 0 for x in c.o['r']] + [c.ret == (n << 16) + n],
                            what='splat, default, width'))
            out.append(Case('coalesce_' + v, 'let x = LD!(a, %s); *o = Packed::coalesce(x); 0' % v,
                            [In('a', e, n), Out('o', e, 1)],
                            lambda c, f=mis: z3.Implies(f(c), c.o['o'][0] == c.i['a'][0]),
                            may_panic=lambda c, f=mis: z3.And(z3.BoolVal(c.dbg), z3.Not(f(c))), what='coalesce'))
            out.append(Case('sreduce_' + v, 'let x = LD!(a, %s); Packed::scalar_reduce(&x, 7usize, |t, s| { vf_obs(t, &s as *const %s as *const u8, %d); t + 1 })' % (
                v, e, ELW[e] // 8), [In('a', e, n)],
                            lambda c, e=e, n=n: [c.ret == 7 + n, z3.BoolVal(len(c.trace) == n)] + [
                                z3.And(z3.BoolVal(t == 7 + k), b[0] == c.i['a'][k]) for k, (t, b) in enumerate(c.obs(e)[:n])],
                            what='scalar_reduce visits every lane once, in order'))
    for e in ALL:
        arrays(out, e)
    return out
