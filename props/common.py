import z3
from engine.core import *
from engine.bv import *
from engine import intrinsics as X

UINTS = ['u8', 'u16', 'u32', 'u64']
SINTS = ['i8', 'i16', 'i32', 'i64']
INTS = UINTS + SINTS
FLOATS = ['f32', 'f64']
ALL = INTS + FLOATS


def vec(e, bits):
    """packed type name"""
    return '%sx%d' % (e, bits // ELW[e])


def lanes(e, bits):
    return bits // ELW[e]


def signed(e):
    return e[0] == 'i'


def BV(v, w):
    return z3.BitVecVal(v, w)


def ext(x, e, w):
    """extend by the signedness of element type e"""
    return z3.SignExt(w - x.size(), x) if signed(e) else z3.ZeroExt(w - x.size(), x)


def clamp(x, e):
    """saturate the (wide, signed) term x to element type e"""
    w = ELW[e]
    lo = -(1 << (w - 1)) if signed(e) else 0
    hi = (1 << (w - 1)) - 1 if signed(e) else (1 << w) - 1
    W = x.size()
    return z3.If(x < lo, BV(lo & M(w), w), z3.If(x > hi, BV(hi, w), z3.Extract(w - 1, 0, x)))


def fsort(w):
    return z3.Float32() if w == 32 else z3.Float64()


def tofp(b):
    return z3.fpBVToFP(b, fsort(b.size()))


def isnan(b):
    w = b.size()
    e = 8 if w == 32 else 11
    return z3.UGT(b & M(w - 1), BV(M(e) << (w - 1 - e), w))


def iszero(b):
    return (b & M(b.size() - 1)) == 0


def same_float(a, t):
    """bits a are the float t (an FP term); NaNs are not told apart"""
    return z3.If(z3.fpIsNaN(t), isnan(a), a == z3.fpToIEEEBV(t))


def gt(a, b, e):
    return (a > b) if signed(e) else z3.UGT(a, b)


BITS = (128, 256, 512)
