"""Models of LLVM intrinsics, x86 SIMD intrinsics and the Rust runtime (allocator)."""
import re, z3
from . import ranges, bigmem
from .bv import *
from .bv import _bump

NORETURN = object()


def unsup(m):
    from .symexec import Unsupported
    raise Unsupported(m)


def lanes(ty):
    return ty[2][1]


def vmap(fn, ty, *vs):
    if ty[0] == 'v':
        return [fn(*xs) for xs in zip(*vs)]
    return fn(*vs)


def elem(ty):
    return ty[2] if ty[0] == 'v' else ty


def sat(x, w_in, w_out, in_signed, out_signed):
    """saturate the w_in-bit value x to w_out bits"""
    lo = -(1 << (w_out - 1)) if out_signed else 0
    hi = (1 << (w_out - 1)) - 1 if out_signed else (1 << w_out) - 1
    if isinstance(x, int):
        v = sx(x, w_in) if in_signed else x
        return max(lo, min(hi, v)) & M(w_out)
    x = tobv(x, w_in)
    t = z3.Extract(w_out - 1, 0, x)
    if in_signed:
        return z3.If(x < lo, z3.BitVecVal(lo & M(w_out), w_out), z3.If(x > hi, z3.BitVecVal(hi, w_out), t))
    return z3.If(z3.UGT(x, z3.BitVecVal(hi, w_in)), z3.BitVecVal(hi, w_out), t)


def addsub_sat(op, signed, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        x, y = (sx(a, w), sx(b, w)) if signed else (a, b)
        r = x + y if op == 'add' else x - y
        lo = -(1 << (w - 1)) if signed else 0
        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        return max(lo, min(hi, r)) & M(w)
    e = sext if signed else zext
    x, y = tobv(e(a, w, w + 2), w + 2), tobv(e(b, w, w + 2), w + 2)
    r = x + y if op == 'add' else x - y
    return sat(r, w + 2, w, True, signed)


def with_overflow(op, signed, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        x, y = (sx(a, w), sx(b, w)) if signed else (a, b)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        m = r & M(w)
        return [m, int((sx(m, w) if signed else m) != r)]
    a, b = tobv(a, w), tobv(b, w)
    if ranges.never_overflows(op, signed, a, b, w):
        return [a + b if op == 'add' else a - b if op == 'sub' else a * b, 0]
    if op == 'add':
        ok = (z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)) if signed
              else z3.BVAddNoOverflow(a, b, False))
        r = a + b
    elif op == 'sub':
        ok = (z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)) if signed
              else z3.UGE(a, b))
        r = a - b
    else:
        ok = (z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)) if signed
              else z3.BVMulNoOverflow(a, b, False))
        r = a * b
    return [r, z3.Not(ok)]


def minmax(kind, a, b, w):
    p = {'smin': 'slt', 'smax': 'sgt', 'umin': 'ult', 'umax': 'ugt'}[kind]
    return ite(icmp(p, a, b, w), a, b, w)


def iabs(x, w):
    if isinstance(x, int):
        return abs(sx(x, w)) & M(w)
    x = tobv(x, w)
    return z3.If(x < 0, -x, x)


def ctlz(x, w):
    if isinstance(x, int):
        return w - x.bit_length()
    x = tobv(x, w)
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


def cttz(x, w):
    if isinstance(x, int):
        return w if x == 0 else (x & -x).bit_length() - 1
    x = tobv(x, w)
    r = z3.BitVecVal(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
    return r


def bitreverse(x, w):
    if isinstance(x, int):
        return int(bin(x)[2:].zfill(w)[::-1], 2)
    x = tobv(x, w)
    return z3.Concat(*[z3.Extract(i, i, x) for i in range(w)])


def call(ex, mod, st, name, rt, tys, a):
    n = name[5:]
    # --- no-ops
    if n.startswith(('lifetime.', 'dbg.', 'invariant.', 'experimental.noalias', 'donothing', 'prefetch', 'var.annot')):
        return None
    if n.startswith('expect.'):
        return a[0]
    if n.startswith('assume'):
        c = a[0]
        if isinstance(c, int):
            if not c:
                ex.ub(st, 'llvm.assume(false)')
        else:
            ex.ub(st, 'violated llvm.assume', z3.Not(tobool(c)))
        return None
    if n.startswith(('trap', 'debugtrap')):
        return NORETURN
    if n.startswith(('memcpy.', 'memmove.')):
        ex.memcpy(st, a[0], a[1], a[2])
        return None
    if n.startswith('memset.'):
        k = ex.concretize(st, a[2], 'memset length')
        if k:
            b = to_bytes(a[1], 8)[0]
            ex.write_bytes(st, a[0], [b] * k)
        return None
    if n.startswith('objectsize'):
        return M(64)
    if n.startswith('is.constant'):
        return 0
    m = re.match(r'(s|u)(add|sub|mul)\.with\.overflow\.(i|v\d+i)(\d+)', n)
    if m:
        return with_overflow(m.group(2), m.group(1) == 's', a[0], a[1], int(m.group(4)))
    m = re.match(r'(s|u)(add|sub)\.sat\.', n)
    if m:
        w = elem(tys[0])[1]
        return vmap(lambda x, y: addsub_sat(m.group(2), m.group(1) == 's', x, y, w), tys[0], a[0], a[1])
    m = re.match(r'(smin|smax|umin|umax)\.', n)
    if m:
        w = elem(tys[0])[1]
        return vmap(lambda x, y: minmax(m.group(1), x, y, w), tys[0], a[0], a[1])
    if n.startswith('abs.'):
        w = elem(tys[0])[1]
        return vmap(lambda x: iabs(x, w), tys[0], a[0])
    for k, fn in (('ctpop.', ctpop), ('bswap.', bswap), ('ctlz.', ctlz), ('cttz.', cttz), ('bitreverse.', bitreverse)):
        if n.startswith(k):
            w = elem(tys[0])[1]
            return vmap(lambda x: fn(x, w), tys[0], a[0])
    if n.startswith(('fshl.', 'fshr.')):
        w = elem(tys[0])[1]

        def fsh(x, y, s):
            s = binop('urem', s, w, w)
            if isinstance(s, int):
                if s == 0:
                    return x if n.startswith('fshl') else y
                l = s if n.startswith('fshl') else w - s
                return binop('or', binop('shl', x, l, w), binop('lshr', y, w - l, w), w)
            c = z3.Concat(tobv(x, w), tobv(y, w))
            sh = z3.ZeroExt(w, tobv(s, w))
            if n.startswith('fshl'):
                return z3.Extract(2 * w - 1, w, c << sh)
            return z3.Extract(w - 1, 0, z3.LShR(c, sh))
        return vmap(fsh, tys[0], *a)
    # --- floating point
    fp = ex.fp
    m = re.match(r'(floor|ceil|trunc|rint|nearbyint|round|roundeven|fabs|sqrt|copysign|minnum|maxnum|minimum|maximum|fma|fmuladd)\.', n)
    if m:
        k = m.group(1)
        w = elem(tys[0])[1]
        if k in ('fma', 'fmuladd'):
            return vmap(lambda x, y, z: fp.bits(z3.fpFMA(z3.RNE(), fp.term(x, w), fp.term(y, w), fp.term(z, w)), w), tys[0], *a)
        if k == 'fabs':
            return vmap(lambda x: fp.abs(x, w), tys[0], a[0])
        if k == 'sqrt':
            return vmap(lambda x: fp.sqrt(x, w), tys[0], a[0])
        if k == 'copysign':
            return vmap(lambda x, y: fp.copysign(x, y, w), tys[0], a[0], a[1])
        if k in ('minnum', 'maxnum'):
            def mm(x, y):
                x, y = undef_fix(x, w), undef_fix(y, w)
                lt = fp.lt(x, y, w) if k == 'minnum' else fp.lt(y, x, w)
                # equal operands (+0/-0): either one
                tie = 0
                if not (isinstance(x, int) and isinstance(y, int)):
                    tie = z3.And(tobool(fp.eq(x, y, w)), z3.Bool('tie!%d' % _bump()))
                r = ite(binop('or', lt, tie, 1), x, y, w)
                r = ite(fp.isnan(y, w), x, r, w)
                return ite(fp.isnan(x, w), y, r, w)
            return vmap(mm, tys[0], a[0], a[1])
        mode = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'rint': 'rne', 'nearbyint': 'rne',
                'roundeven': 'rne', 'round': 'rna'}.get(k)
        if mode:
            return vmap(lambda x: fp.round(x, w, mode), tys[0], a[0])
    m = re.match(r'fpto(s|u)i\.sat\.', n)
    if m:
        src, dst = elem(tys[0]), elem(rt)

        def ts(x):
            t = fp.term(x, src[1])
            sg = m.group(1) == 's'
            w = dst[1]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            S = t.sort()
            v = z3.fpToSBV(z3.RTZ(), t, z3.BitVecSort(w)) if sg else z3.fpToUBV(z3.RTZ(), t, z3.BitVecSort(w))
            return z3.If(z3.fpIsNaN(t), z3.BitVecVal(0, w),
                         z3.If(z3.fpLT(t, z3.FPVal(float(lo), S)), z3.BitVecVal(lo & M(w), w),
                               z3.If(z3.fpGEQ(t, z3.FPVal(float(hi + 1), S)), z3.BitVecVal(hi, w), v)))
        return vmap(ts, tys[0], a[0])
    # --- vector reductions
    m = re.match(r'(?:experimental\.)?vector\.reduce\.(?:v2\.)?(\w+)\.', n)
    if m:
        k = m.group(1)
        if k in ('fadd', 'fmul'):
            w = tys[1][2][1]
            r = a[0]
            for x in a[1]:
                r = fp.bin(k, r, x, w)
            return r
        w = tys[0][2][1]
        v = a[0]
        r = v[0]
        for x in v[1:]:
            if k in ('add', 'mul', 'and', 'or', 'xor'):
                r = binop(k, r, x, w)
            elif k in ('smin', 'smax', 'umin', 'umax'):
                r = minmax(k, r, x, w)
            elif k in ('fmin', 'fmax'):
                r = call(ex, mod, st, 'llvm.%snum.f%d' % (k[1:], w), rt, [tys[0][2]] * 2, [r, x])
            else:
                unsup(name)
        return r
    if n.startswith('masked.load'):
        # (ptr, align, mask, passthru)
        s = elem(rt)[1] // 8
        out = []
        for i, (mk, pt) in enumerate(zip(a[2], a[3])):
            if isinstance(mk, int):
                out.append(ex.load(st, mod, elem(rt), binop('add', a[0], i * s, 64)) if mk else pt)
            else:
                unsup('symbolic masked load')
        return out
    if n.startswith('x86.'):
        r = x86(ex, mod, st, n[4:], rt, tys, a)
        if r is not None:
            return r
    unsup('intrinsic ' + name)


def msb(x, w):
    if isinstance(x, int):
        return x >> (w - 1) & 1
    x = tobv(x, w)
    return z3.Extract(w - 1, w - 1, x) == 1


def chunk(v, n):
    return [v[i:i + n] for i in range(0, len(v), n)]


def x86(ex, mod, st, n, rt, tys, a):
    fp = ex.fp
    W = elem(tys[0])[1] if tys and tys[0][0] in 'vif' else None
    m = re.match(r'(?:sse2|sse41|avx2)\.pack(s|u)s(wb|dw)(?:\.\d+)?$', n)
    if m:
        w = 16 if m.group(2) == 'wb' else 32
        per = 128 // w
        out = []
        for x, y in zip(chunk(a[0], per), chunk(a[1], per)):
            out += [sat(v, w, w // 2, True, m.group(1) == 's') for v in x]
            out += [sat(v, w, w // 2, True, m.group(1) == 's') for v in y]
        return out
    if n in ('sse41.packusdw', 'avx2.packusdw'):
        out = []
        for x, y in zip(chunk(a[0], 4), chunk(a[1], 4)):
            out += [sat(v, 32, 16, True, False) for v in x + y]
        return out
    m = re.match(r'(?:ssse3|avx2)\.ph(add|sub)\.(w|d|sw)(?:\.128)?$', n)
    if m:
        w = 32 if m.group(2) == 'd' else 16
        per = 128 // w
        op = m.group(1)
        out = []
        for x, y in zip(chunk(a[0], per), chunk(a[1], per)):
            for v in (x, y):
                for i in range(0, per, 2):
                    if m.group(2) == 'sw':
                        out.append(addsub_sat(op, True, v[i], v[i + 1], w))
                    else:
                        out.append(binop(op, v[i], v[i + 1], w))
        return out
    m = re.match(r'(?:sse3|avx)\.h(add|sub)\.p(s|d)(?:\.256)?$', n)
    if m:
        w = 32 if m.group(2) == 's' else 64
        per = 128 // w
        out = []
        for x, y in zip(chunk(a[0], per), chunk(a[1], per)):
            for v in (x, y):
                for i in range(0, per, 2):
                    out.append(fp.bin('f' + m.group(1), v[i], v[i + 1], w))
        return out
    m = re.match(r'(?:sse3|avx)\.addsub\.p(s|d)(?:\.256)?$', n)
    if m:
        return [fp.bin('fadd' if i & 1 else 'fsub', x, y, W) for i, (x, y) in enumerate(zip(a[0], a[1]))]
    m = re.match(r'(?:sse2|avx2)\.psad\.bw$', n)
    if m:
        out = []
        for x, y in zip(chunk(a[0], 8), chunk(a[1], 8)):
            acc = 0
            for p, q in zip(x, y):
                p, q = undef_fix(p, 8), undef_fix(q, 8)
                d = p if isc(q) and q == 0 else q if isc(p) and p == 0 else ite(icmp('ugt', p, q, 8), binop('sub', p, q, 8), binop('sub', q, p, 8), 8)
                acc = binop('add', acc, zext(d, 8, 64), 64)
            out.append(acc)
        return out
    m = re.match(r'(?:ssse3\.pshuf\.b\.128|avx2\.pshuf\.b)$', n)
    if m:
        out = []
        for x, c in zip(chunk(a[0], 16), chunk(a[1], 16)):
            for i in c:
                if isinstance(i, int):
                    out.append(0 if i & 0x80 else x[i & 15])
                else:
                    i = tobv(i, 8)
                    idx = z3.Extract(3, 0, i)
                    r = x[15]
                    for k in range(14, -1, -1):
                        r = ite(idx == k, x[k], r, 8)
                    out.append(ite(z3.Extract(7, 7, i) == 1, 0, r, 8))
        return out
    m = re.match(r'avx2\.perm(d|ps)$', n)
    if m:
        out = []
        for i in a[1]:
            if isinstance(i, int):
                out.append(a[0][i & 7])
            else:
                i = z3.Extract(2, 0, tobv(i, 32))
                r = a[0][7]
                for k in range(6, -1, -1):
                    r = ite(i == k, a[0][k], r, 32)
                out.append(r)
        return out
    if n in ('sse41.pblendvb', 'avx2.pblendvb', 'sse41.blendvps', 'sse41.blendvpd', 'avx.blendv.ps.256',
             'avx.blendv.pd.256'):
        return [ite(msb(c, W), y, x, W) for x, y, c in zip(a[0], a[1], a[2])]
    m = re.match(r'(?:sse2\.pmovmskb\.128|avx2\.pmovmskb|sse\.movmsk\.ps|sse2\.movmsk\.pd|avx\.movmsk\.p[sd]\.256)$', n)
    if m:
        bs = [msb(x, W) for x in a[0]]
        if all(isinstance(b, int) for b in bs):
            return sum(b << i for i, b in enumerate(bs))
        v = z3.Concat(*[tobv(b, 1) for b in reversed(bs)])
        return z3.ZeroExt(32 - len(bs), v) if len(bs) < 32 else v
    m = re.match(r'(?:sse|sse2|avx)\.(min|max)\.(p|s)(s|d)(?:\.256)?$', n)
    if m:
        fn = fp.sse_min if m.group(1) == 'min' else fp.sse_max
        if m.group(2) == 's':
            return [fn(a[0][0], a[1][0], W)] + list(a[0][1:])
        return [fn(x, y, W) for x, y in zip(a[0], a[1])]
    m = re.match(r'(?:sse41|avx)\.round\.(p|s)(s|d)(?:\.256)?$', n)
    if m:
        src, imm = (a[0], a[1]) if m.group(1) == 'p' else (a[1], a[2])
        mode = 'rne' if imm & 4 else {0: 'rne', 1: 'floor', 2: 'ceil', 3: 'trunc'}[imm & 3]
        if m.group(1) == 's':
            return [fp.round(src[0], W, mode)] + list(a[0][1:])
        return [fp.round(x, W, mode) for x in src]
    m = re.match(r'(?:sse|avx)\.(rcp|rsqrt)\.(ps|ss)(?:\.256)?$', n)
    if m:
        f = approx(m.group(1))
        if m.group(2) == 'ss':
            return [f(tobv(a[0][0], 32))] + list(a[0][1:])
        return [f(tobv(x, 32)) for x in a[0]]
    m = re.match(r'(?:sse|sse2|avx)\.sqrt\.(ps|pd)(?:\.256)?$', n)
    if m:
        return [fp.sqrt(x, W) for x in a[0]]
    m = re.match(r'(?:sse|sse2)\.cmp\.p[sd]$|avx\.cmp\.p[sd]\.256$', n)
    if m:
        imm = a[2]
        pred = {0: 'oeq', 1: 'olt', 2: 'ole', 3: 'uno', 4: 'une', 5: 'uge', 6: 'ugt', 7: 'ord',
                8: 'ueq', 9: 'ult', 10: 'ule', 11: 'false', 12: 'one', 13: 'oge', 14: 'ogt', 15: 'true'}[imm & 15]
        return [ite(fp.cmp(pred, x, y, W), M(W), 0, W) for x, y in zip(a[0], a[1])]
    m = re.match(r'(?:sse2|avx2)\.p(madd)\.wd$', n)
    if m:
        out = []
        for i in range(0, len(a[0]), 2):
            p = [binop('mul', sext(a[0][i + k], 16, 32), sext(a[1][i + k], 16, 32), 32) for k in (0, 1)]
            out.append(binop('add', p[0], p[1], 32))
        return out
    m = re.match(r'(?:ssse3|avx2)\.pmadd\.ub\.sw(?:\.128)?$', n)
    if m:
        out = []
        for i in range(0, len(a[0]), 2):
            p = [binop('mul', zext(a[0][i + k], 8, 32), sext(a[1][i + k], 8, 32), 32) for k in (0, 1)]
            out.append(sat(binop('add', p[0], p[1], 32), 32, 16, True, True))
        return out
    m = re.match(r'(?:ssse3|avx2)\.psign\.(b|w|d)(?:\.128)?$', n)
    if m:
        return [ite(msb(y, W), binop('sub', 0, x, W), ite(icmp('eq', y, 0, W), 0, x, W), W) for x, y in zip(a[0], a[1])]
    m = re.match(r'(?:sse41|avx)\.ptest(z|c|nzc)(?:\.256)?$', n)
    if m:
        def allz(xs):
            c = [tobool(icmp('eq', x, 0, 64)) for x in xs]
            return z3.And(*c)
        z = allz([binop('and', x, y, 64) for x, y in zip(a[0], a[1])])
        c = allz([binop('and', binop('xor', x, M(64), 64), y, 64) for x, y in zip(a[0], a[1])])
        r = {'z': z, 'c': c, 'nzc': z3.And(z3.Not(z), z3.Not(c))}[m.group(1)]
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else tobv(r, 32)
    m = re.match(r'(?:sse2|avx2)\.ps(ll|rl|ra)(i?)\.(w|d|q)(?:\.256)?$', n)
    if m:
        op = {'ll': 'shl', 'rl': 'lshr', 'ra': 'ashr'}[m.group(1)]
        if m.group(2) == 'i':
            cnt = a[1]
        else:
            cnt = from_bytes(sum([to_bytes(x, W) for x in a[1]], [])[:8])
        if not isinstance(cnt, int):
            n64 = tobv(cnt, 64) if m.group(2) != 'i' else z3.ZeroExt(32, tobv(cnt, 32))
            return [varshift(op, x, n64, 64, W) for x in a[0]]
        if cnt >= W:
            return [0 if op != 'ashr' else binop('ashr', x, W - 1, W) for x in a[0]]
        return [binop(op, x, cnt, W) for x in a[0]]
    m = re.match(r'(?:ssse3|avx2)\.pmul\.hr\.sw|(?:sse2|avx2)\.pmul(h|hu)\.w$', n)
    if m and not m.group(1):
        out = []
        for x, y in zip(a[0], a[1]):
            p = binop('lshr', binop('mul', sext(x, 16, 32), sext(y, 16, 32), 32), 14, 32)
            out.append(trunc(binop('lshr', binop('add', p, 1, 32), 1, 32), 32, 16))
        return out
    if m and m.group(1):
        e = sext if m.group(1) == 'h' else zext
        return [trunc(binop('lshr', binop('mul', e(x, 16, 32), e(y, 16, 32), 32), 16, 32), 32, 16) for x, y in zip(a[0], a[1])]
    if n in ('sse2.cvtps2dq', 'sse2.cvttps2dq', 'avx.cvt.ps2dq.256', 'avx.cvtt.ps2dq.256'):
        rm = z3.RTZ() if 'tt' in n else z3.RNE()

        def cv(x):
            t = fp.term(x, 32)
            S = z3.Float32()
            bad = z3.Or(z3.fpIsNaN(t), z3.fpLT(t, z3.FPVal(-2147483648.0, S)), z3.fpGEQ(t, z3.FPVal(2147483648.0, S)))
            return z3.If(bad, z3.BitVecVal(0x80000000, 32), z3.fpToSBV(rm, t, z3.BitVecSort(32)))
        return [cv(x) for x in a[0]]
    m = re.match(r'(?:sse2|avx2)\.pavg\.[bw]$', n)
    if m:
        return [trunc(binop('lshr', binop('add', binop('add', zext(x, W, 32), zext(y, W, 32), 32), 1, 32), 1, 32), 32, W) for x, y in zip(a[0], a[1])]
    m = re.match(r'avx2\.ps(ll|rl|ra)v\.(d|q)(?:\.256)?$', n)
    if m:
        op = {'ll': 'shl', 'rl': 'lshr', 'ra': 'ashr'}[m.group(1)]
        return [varshift(op, x, y, W, W) for x, y in zip(a[0], a[1])]
    m = re.match(r'avx\.vpermilvar\.p(s|d)(?:\.256)?$', n)
    if m:
        out = []
        per = 128 // W
        for x, c in zip(chunk(a[0], per), chunk(a[1], per)):
            for i in c:
                k = trunc(i if W == 32 else binop('lshr', i, 1, W), W, 2 if W == 32 else 1)
                r = x[per - 1]
                for j in range(per - 2, -1, -1):
                    r = ite(icmp('eq', k, j, 2 if W == 32 else 1), x[j], r, W)
                out.append(r)
        return out
    m = re.match(r'avx2\.gather\.(d|q)\.(d|q|ps|pd)(?:\.256)?$', n)
    if m:
        iw = elem(tys[2])[1]
        out = list(a[0])
        for k in range(min(len(a[0]), len(a[2]))):
            mk = msb(a[3][k], W)
            if not isinstance(mk, int):
                unsup('gather with a symbolic mask')
            if mk:
                off = binop('mul', sext(a[2][k], iw, 64) if iw < 64 else a[2][k], a[4], 64)
                out[k] = ex.load(st, mod, elem(rt), binop('add', a[1], off, 64))
        return out
    m = re.match(r'avx2?\.maskload\.(?:ps|pd|d|q)(?:\.256)?$', n)
    if m:
        w = elem(rt)[1]
        ms = [msb(x, w) for x in a[1]]
        if not all(isinstance(x, int) for x in ms):
            unsup('masked load with a symbolic mask')
        return [ex.load(st, mod, elem(rt), binop('add', a[0], k * w // 8, 64)) if mk else 0 for k, mk in enumerate(ms)]
    m = re.match(r'(?:sse|sse2)\.u?comi(eq|ge|gt|le|lt|neq)\.s[sd]$', n)
    if m:
        pred = {'neq': 'une'}.get(m.group(1), 'o' + m.group(1))
        return ite(fp.cmp(pred, a[0][0], a[1][0], W), 1, 0, 32)
    m = re.match(r'(?:sse|sse2)\.cmp\.s[sd]$', n)
    if m:
        r = x86(ex, mod, st, n[:-2] + 'p' + n[-1], rt, tys, [[a[0][0]], [a[1][0]], a[2]])
        return r + list(a[0][1:])
    if n == 'sse41.insertps':
        r = list(a[0])
        r[a[2] >> 4 & 3] = a[1][a[2] >> 6 & 3]
        return [0 if a[2] >> k & 1 else x for k, x in enumerate(r)]
    m = re.match(r'(?:sse41|avx)\.dpp?\.?(s|d)(?:\.256)?$', n)
    if m or n == 'avx.dp.ps.256':
        out, per = [], 128 // W
        for x, y in zip(chunk(a[0], per), chunk(a[1], per)):
            p = [fp.bin('fmul', x[k], y[k], W) if a[2] >> (4 + k) & 1 else 0 for k in range(per)]
            t = fp.bin('fadd', p[0], p[1], W)
            if per == 4:
                t = fp.bin('fadd', t, fp.bin('fadd', p[2], p[3], W), W)
            out += [t if a[2] >> k & 1 else 0 for k in range(per)]
        return out
    if n in ('popcnt.32', 'popcnt.64'):
        return ctpop(a[0], W)
    return None


def varshift(op, x, n, nw, w):
    """x86 shift of a w-bit lane by an nw-bit count: counts beyond the lane shift everything out"""
    big = icmp('uge', n, w, nw)
    c = n if nw == w else trunc(n, nw, w) if nw > w else zext(n, nw, w)
    c = ite(big, w - 1, c, w)
    r = binop(op, x, c, w)
    return r if op == 'ashr' else ite(big, 0, r, w)


_approx = {}


def approx(kind):
    """hardware reciprocal / reciprocal square root approximation: an uninterpreted function of the lane"""
    f = _approx.get(kind)
    if f is None:
        f = _approx[kind] = z3.Function('hw_' + kind, z3.BitVecSort(32), z3.BitVecSort(32))
    return f


# ---------------------------------------------------------------- runtime
def r_alloc(ex, mod, st, a):
    al = ex.concretize(st, a[1], 'allocation alignment')
    if not isinstance(a[0], int):
        from .symexec import NeedSplit
        try:
            size = ex.concretize(st, a[0], 'allocation size')
        except NeedSplit as e:
            if e.expr is None or al not in (1, 2, 4, 8) or ex.values_of(st, a[0], 64, 8) is not None:
                raise
            # a block of symbolic size; its contents start out arbitrary
            k = al.bit_length() - 1
            sz = tobv(a[0], 64)
            if k and ex.feasible(st.pc, z3.Extract(k - 1, 0, sz) != 0):
                raise
            name = 'heap block %d' % len(ex.bigs)
            arr = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8 * al))
            o = ex.alloc_big(st, al, bigmem.shr(sz, k, lambda c: ex.feasible(st.pc, c)) if k else sz, 0, name, arr, False)
            o.kind = 'heap'
            return o.base
    else:
        size = a[0]
    return ex.alloc(st, size, al, 'heap', 'heap block of %d bytes' % size).base


def r_alloc_zeroed(ex, mod, st, a):
    size = ex.concretize(st, a[0], 'allocation size')
    return ex.alloc(st, size, ex.concretize(st, a[1], 'alignment'), 'heap', 'heap block of %d bytes' % size,
                    [0] * size).base


def r_dealloc(ex, mod, st, a):
    p = ex.concretize(st, a[0], 'freed pointer')
    o = st.mem.get(p)
    if o is None or o.kind != 'heap':
        ex.ub(st, 'dealloc of a pointer that is not a live heap block')
    if o.arr:
        esz, ln = o.arr[1:3]
        bad = z3.simplify(tobv(a[1], 64) != ln * z3.BitVecVal(esz, 64))
        if not z3.is_false(bad):
            ex.ub(st, 'dealloc of a block with another size', bad)
        del st.mem[p]
        return None
    size = ex.concretize(st, a[1], 'dealloc size')
    if size != o.size or a[2] != o.align:
        ex.ub(st, 'dealloc with layout (%s,%s) of a block of layout (%d,%d)' % (size, a[2], o.size, o.align))
    del st.mem[p]
    return None


def r_realloc(ex, mod, st, a):
    p = ex.concretize(st, a[0], 'realloc pointer')
    old = ex.concretize(st, a[1], 'old size')
    new = ex.concretize(st, a[3], 'new size')
    o = st.mem.get(p)
    if o is not None and o.arr:
        raise Unsupported('realloc of a block of symbolic size')
    if o is None or o.kind != 'heap' or o.size != old:
        ex.ub(st, 'realloc of a pointer that is not a live heap block of that size')
    data = list(o.data[:new]) + [None] * max(0, new - old)
    n = ex.alloc(st, new, ex.concretize(st, a[2], 'alignment'), 'heap', 'heap block of %d bytes' % new, data)
    del st.mem[p]
    return n.base


def r_memcmp(ex, mod, st, a):
    n = ex.concretize(st, a[2], 'memcmp length')
    x = ex.read_bytes(st, a[0], n)
    y = ex.read_bytes(st, a[1], n)
    r = 0
    for p, q in reversed(list(zip(x, y))):
        p, q = from_bytes([p]), from_bytes([q])
        r = ite(icmp('eq', p, q, 8), r, ite(icmp('ult', p, q, 8), M(32), 1, 32), 32)
    return r


def fround(mode, w):
    def f(ex, mod, st, a):
        return ex.fp.round(a[0], w, mode)
    return f


def r_memcpy(ex, mod, st, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


def r_memset(ex, mod, st, a):
    k = ex.concretize(st, a[2], 'memset length')
    if k:
        ex.write_bytes(st, a[0], [to_bytes(trunc(a[1], 32, 8), 8)[0]] * k)
    return a[0]


RUNTIME = {
    '__rust_alloc': r_alloc, '__rust_alloc_zeroed': r_alloc_zeroed, '__rust_dealloc': r_dealloc,
    '__rust_realloc': r_realloc, 'memcmp': r_memcmp, 'bcmp': r_memcmp, 'memcpy': r_memcpy, 'memmove': r_memcpy,
    'memset': r_memset,
    'floorf': fround('floor', 32), 'floor': fround('floor', 64), 'ceilf': fround('ceil', 32),
    'ceil': fround('ceil', 64), 'truncf': fround('trunc', 32), 'trunc': fround('trunc', 64),
    'roundf': fround('rna', 32), 'round': fround('rna', 64),
    'sqrtf': lambda ex, mod, st, a: ex.fp.sqrt(a[0], 32), 'sqrt': lambda ex, mod, st, a: ex.fp.sqrt(a[0], 64),
    'fabsf': lambda ex, mod, st, a: ex.fp.abs(a[0], 32), 'fabs': lambda ex, mod, st, a: ex.fp.abs(a[0], 64),
    'fminf': lambda ex, mod, st, a: call(ex, mod, st, 'llvm.minnum.f32', ('f', 32), [('f', 32)] * 2, a),
    'fmaxf': lambda ex, mod, st, a: call(ex, mod, st, 'llvm.maxnum.f32', ('f', 32), [('f', 32)] * 2, a),
    'fmin': lambda ex, mod, st, a: call(ex, mod, st, 'llvm.minnum.f64', ('f', 64), [('f', 64)] * 2, a),
    'fmax': lambda ex, mod, st, a: call(ex, mod, st, 'llvm.maxnum.f64', ('f', 64), [('f', 64)] * 2, a),
}


def runtime_by_pattern(name):
    return None


def is_panic(name):
    return bool(re.search(r'panicking|panic_fmt|begin_panic|unwrap_failed|expect_failed|slice_index_\w*fail|'
                          r'capacity_overflow|handle_alloc_error|abort|panic_bounds|len_mismatch_fail', name))
