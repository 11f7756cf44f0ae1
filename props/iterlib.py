"""shared by the iterator properties"""
from .common import *

# iteration depends on the width of the vectors and on the build profile, not on the instruction set: the thorough tier adds the rest
QUICK_CONFIGS = (('sse2', 'rel'), ('avx2', 'rel'), ('avx2', 'dbg'))

SLICE = 'let s = std::slice::from_raw_parts(a, n);'
MUT = 'let s = std::slice::from_raw_parts_mut(b, n);'


def nl(d):
    return d['n']


def LENS(e, full=True):
    """lengths to case-split over: 0..2W+2 of the widest build for wide lanes, beyond one AVX2 vector for narrow ones"""
    w = {'u8': 66, 'i8': 66, 'u16': 34, 'i16': 34}.get(e) or {32: 26, 64: 14}[ELW[e]]
    if full:
        return list(range(w + 1))
    W = 256 // ELW[e]
    return sorted(set(k for h in (0, W // 2, W, W + W // 2, 2 * W) for k in (h - 1, h, h + 1) if 0 <= k) | {2 * W + 3})


def fmap(e, v='v'):
    """closure applying the uninterpreted lane function to vectors of e"""
    return '|%s| F!(%s, %ss, %d)' % (v, v, e, ELW[e])


def padded(c, e, a, d, pos=0):
    """the vectors an iteration from pos yields: ([vector lanes], empty lanes of the last one or None)"""
    W = c.width(e)
    out = []
    while pos + W <= len(a):
        out.append(list(a[pos:pos + W]))
        pos += W
    emp = None
    if pos < len(a):
        emp = W - (len(a) - pos)
        out.append(list(d[:emp]) + list(a[pos:]))
    return out, emp


def one(c, e):
    """the lanes of the single observation"""
    t = c.obs(e)
    return t[0][1] if len(t) == 1 else None


def same(xs, ys):
    if xs is None or len(xs) != len(ys):
        return [z3.BoolVal(False)]
    return [x == y for x, y in zip(xs, ys)]


# ---- slices of any length: the position p is symbolic, r elements remain from it on
PMAX = 1 << 36
ANY = 'every slice length and starting position up to 2^36 elements (symbolic, not enumerated)'


def TAIL(e, few=False):
    """numbers of remaining elements to case-split over"""
    s = {0, 1}
    for W in (256 // ELW[e], 128 // ELW[e]):
        s |= {W - 1, W, W + 1} if few else {W // 2, W - 1, W, W + 1, W + W // 2, 2 * W - 1, 2 * W, 2 * W + 1}
    return sorted(k for k in s if k >= 0)


def TAILALL(e):
    return list(range(4 * (256 // ELW[e]) + 3))


def tailp(e, rs, mut=False, name='a', extra=0):
    return [Sym('p', 0, PMAX), Int('r', rs), SymSlice(name, e, lambda c: c.p + c.r + extra, mut)]


TAILS = 'let s = std::slice::from_raw_parts(a, p + r);'
TAILM = 'let s = std::slice::from_raw_parts_mut(a, p + r);'


def rest(c, pos=0, name='a'):
    """the remaining elements"""
    return [c.i[name].at(c.p + j) for j in range(pos, c.r)]
