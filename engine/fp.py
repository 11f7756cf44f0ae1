"""Floating point.  A float value is its IEEE bit pattern (int or BitVec).

mode 'ieee'  : z3 floating-point theory, NaN results have an unconstrained quiet payload.
mode 'exact' : idealised exact arithmetic; a float value *is* an integer (BitVec of the same width) and
               fadd/fsub/fmul/fneg are the ring operations.  Used for claims that are independent of
               the order of additions; see each property's assumptions.
"""
import z3, struct
from .bv import *
from .bv import _bump

SORT = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()
RTZ = z3.RTZ()


class Sat(int):
    """a constant beyond the modelled range (mode 'exact'): only fit for comparisons"""


class FP:
    def __init__(self, mode, ex):
        self.mode = mode
        self.ex = ex
        self.cache = {}      # bits term id -> (bits, fp term)

    # constants parsed as ('fc', bits, width, float)
    def const(self, o):
        if self.mode == 'exact':
            d = o[3]
            if d != d or d in (float('inf'), float('-inf')) or d != int(d):
                if d != d or abs(d) < 2 ** 40:
                    raise_unsupported('non-integer float constant in exact mode')
            if d >= 2 ** (o[2] - 1):
                return Sat(M(o[2] - 1))
            if d < -2 ** (o[2] - 1):
                return Sat(1 << (o[2] - 1))
            return int(d) & M(o[2])
        return o[1]

    def term(self, x, w):
        """bits -> z3 FP term"""
        if isinstance(x, int):
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(x, w), SORT[w]))
        x = tobv(x, w)
        c = self.cache.get(x.get_id())
        if c is not None:
            return c[1]
        return z3.fpBVToFP(x, SORT[w])

    def bits(self, t, w):
        """z3 FP term -> bits; NaN becomes an arbitrary quiet NaN"""
        s = z3.simplify(t)
        if z3.is_fp_value(s) and not s.isNaN():
            b = z3.simplify(z3.fpToIEEEBV(s))
            return b.as_long()
        mb = 22 if w == 32 else 51
        k = _bump()
        nan = z3.Concat(z3.BitVec('nans!%d' % k, 1), z3.BitVecVal(M(w - 1 - mb), w - 1 - mb),
                        z3.BitVec('nanp!%d' % k, mb))
        if z3.is_fp_value(s):
            return nan
        b = z3.BitVec('fpb!%d' % k, w)
        # b is the encoding of t: defined by its meaning (equal as a float, with the sign of zero)
        r = z3.If(z3.fpIsNaN(t), nan, z3.fpToIEEEBV(t))
        self.cache[r.get_id()] = (r, t)
        return r

    def bin(self, op, a, b, w):
        if self.mode == 'exact':
            if isinstance(a, Sat) or isinstance(b, Sat):
                raise_unsupported('huge float constant in exact mode')
            if op in ('fadd', 'fsub', 'fmul'):
                return binop(op[1:], a, b, w)
            raise_unsupported('%s in exact mode' % op)
        x, y = self.term(a, w), self.term(b, w)
        if op == 'fadd': t = z3.fpAdd(RNE, x, y)
        elif op == 'fsub': t = z3.fpSub(RNE, x, y)
        elif op == 'fmul': t = z3.fpMul(RNE, x, y)
        elif op == 'fdiv': t = z3.fpDiv(RNE, x, y)
        else:
            raise_unsupported(op)
        return self.bits(t, w)

    def neg(self, a, w):
        if self.mode == 'exact':
            return binop('sub', 0, a, w)
        return binop('xor', a, 1 << (w - 1), w)

    def abs(self, a, w):
        if self.mode == 'exact':
            raise_unsupported('fabs in exact mode')
        return binop('and', a, M(w - 1), w)

    def copysign(self, a, b, w):
        if self.mode == 'exact':
            raise_unsupported('copysign in exact mode')
        return binop('or', binop('and', a, M(w - 1), w), binop('and', b, 1 << (w - 1), w), w)

    def isnan(self, a, w):
        """NaN test on bits"""
        e = 8 if w == 32 else 11
        inf = M(e) << (w - 1 - e)
        if isinstance(a, int):
            return int((a & M(w - 1)) > inf)
        return z3.UGT(tobv(a, w) & M(w - 1), z3.BitVecVal(inf, w))

    def iszero(self, a, w):
        if isinstance(a, int):
            return int((a & M(w - 1)) == 0)
        return (tobv(a, w) & M(w - 1)) == 0

    def lt(self, a, b, w):
        """a < b on bits (pure bit-vector encoding, exact for all IEEE values)"""
        if isinstance(a, int) and isinstance(b, int):
            if self.isnan(a, w) or self.isnan(b, w):
                return 0
            f = ('<f', '<I') if w == 32 else ('<d', '<Q')
            x = struct.unpack(f[0], struct.pack(f[1], a))[0]
            y = struct.unpack(f[0], struct.pack(f[1], b))[0]
            return int(x < y)
        a, b = tobv(a, w), tobv(b, w)

        def key(x):
            # monotone map of the non-NaN floats to unsigned integers, with -0 and +0 identified
            neg = z3.Extract(w - 1, w - 1, x) == 1
            top = z3.BitVecVal(1 << (w - 1), w)
            return z3.If(neg, top - (x & M(w - 1)), top + x)
        return z3.And(z3.Not(self.isnan(a, w)), z3.Not(self.isnan(b, w)), z3.ULT(key(a), key(b)))

    def eq(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            if self.isnan(a, w) or self.isnan(b, w):
                return 0
            return int(a == b or (self.iszero(a, w) and self.iszero(b, w)))
        a, b = tobv(a, w), tobv(b, w)
        return z3.And(z3.Not(tobool(self.isnan(a, w))), z3.Not(tobool(self.isnan(b, w))),
                      z3.Or(a == b, z3.And(tobool(self.iszero(a, w)), tobool(self.iszero(b, w)))))

    def cmp(self, pred, a, b, w):
        if pred == 'true': return 1
        if pred == 'false': return 0
        if self.mode == 'exact':
            p = {'eq': 'eq', 'ne': 'ne', 'lt': 'slt', 'le': 'sle', 'gt': 'sgt', 'ge': 'sge'}
            if pred == 'ord': return 1
            if pred == 'uno': return 0
            return icmp(p[pred[1:]], a, b, w)
        a, b = undef_fix(a, w), undef_fix(b, w)
        nan = binop('or', self.isnan(a, w), self.isnan(b, w), 1)
        if pred == 'uno': return nan
        if pred == 'ord': return binop('xor', nan, 1, 1)
        k = pred[1:]
        if k == 'eq': r = self.eq(a, b, w)
        elif k == 'ne':
            r = binop('and', binop('xor', self.eq(a, b, w), 1, 1), binop('xor', nan, 1, 1), 1)
        elif k == 'lt': r = self.lt(a, b, w)
        elif k == 'gt': r = self.lt(b, a, w)
        elif k == 'le': r = binop('or', self.lt(a, b, w), self.eq(a, b, w), 1)
        elif k == 'ge': r = binop('or', self.lt(b, a, w), self.eq(a, b, w), 1)
        if pred[0] == 'u':
            r = binop('or', r, nan, 1)
        return r

    def cast(self, op, a, v, b):
        wa, wb = a[1], b[1]
        if self.mode == 'exact':
            if op in ('sitofp',):
                return sext(v, wa, wb) if wb > wa else trunc(v, wa, wb) if wb < wa else v
            if op in ('uitofp',):
                return zext(v, wa, wb) if wb > wa else trunc(v, wa, wb) if wb < wa else v
            if op == 'fpext':
                return sext(v, wa, wb)
            if op == 'fptrunc':
                return trunc(v, wa, wb)
            if op in ('fptosi', 'fptoui'):
                return sext(v, wa, wb) if wb > wa else trunc(v, wa, wb) if wb < wa else v
            raise_unsupported(op + ' in exact mode')
        if op == 'fpext' or op == 'fptrunc':
            return self.bits(z3.fpFPToFP(RNE, self.term(v, wa), SORT[wb]), wb)
        if op == 'sitofp':
            return self.bits(z3.fpSignedToFP(RNE, tobv(v, wa), SORT[wb]), wb)
        if op == 'uitofp':
            return self.bits(z3.fpUnsignedToFP(RNE, tobv(v, wa), SORT[wb]), wb)
        if op == 'fptosi' or op == 'fptoui':
            t = self.term(v, wa)
            s = z3.BitVecSort(wb)
            r = z3.fpToSBV(RTZ, t, s) if op == 'fptosi' else z3.fpToUBV(RTZ, t, s)
            # out of range: poison
            lo, hi = (-(1 << (wb - 1)), (1 << (wb - 1))) if op == 'fptosi' else (0, 1 << wb)
            S = SORT[wa]
            if op == 'fptosi':
                below = z3.fpLT(t, z3.FPVal(float(lo), S))
            else:
                below = z3.fpLEQ(t, z3.FPVal(-1.0, S))
            bad = z3.Or(z3.fpIsNaN(t), below, z3.fpGEQ(t, z3.FPVal(float(hi), S)))
            r = z3.simplify(z3.If(bad, z3.BitVec('undef!%d' % _bump(), wb), r))
            return r.as_long() if z3.is_bv_value(r) else r
        raise_unsupported(op)

    def round(self, a, w, mode):
        rm = {'rne': z3.RNE(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rna': z3.RNA()}[mode]
        if self.mode == 'exact':
            return a
        return self.bits(z3.fpRoundToIntegral(rm, self.term(a, w)), w)

    def sqrt(self, a, w):
        if self.mode == 'exact':
            raise_unsupported('sqrt in exact mode')
        return self.bits(z3.fpSqrt(RNE, self.term(a, w)), w)

    def sse_min(self, a, b, w):
        if self.mode == 'exact':
            return ite(icmp('slt', a, b, w), a, b, w)
        a, b = undef_fix(a, w), undef_fix(b, w)
        return ite(self.lt(a, b, w), a, b, w)

    def sse_max(self, a, b, w):
        if self.mode == 'exact':
            return ite(icmp('sgt', a, b, w), a, b, w)
        a, b = undef_fix(a, w), undef_fix(b, w)
        return ite(self.lt(b, a, w), a, b, w)


def raise_unsupported(m):
    from .symexec import Unsupported
    raise Unsupported(m)
