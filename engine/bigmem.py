"""Contents of an object of symbolic size: an array term plus the latest writes at indices that differ only by a constant."""
import math
import z3
from . import ranges

M64 = (1 << 64) - 1


def lin(t):
    """64-bit term -> ({id: (coefficient, atom)}, constant) modulo 2^64"""
    if isinstance(t, int):
        return {}, t & M64
    if z3.is_bv_value(t):
        return {}, t.as_long()
    k = t.decl().kind()
    ch = t.children()
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        d, c = lin(ch[0])
        d = dict(d)
        sg = 1 if k == z3.Z3_OP_BADD else -1
        for x in ch[1:]:
            d2, c2 = lin(x)
            c = (c + sg * c2) & M64
            for i, (q, a) in d2.items():
                d[i] = (((d[i][0] if i in d else 0) + sg * q) & M64, a)
        return {i: v for i, v in d.items() if v[0]}, c
    if k == z3.Z3_OP_BNEG:
        d, c = lin(ch[0])
        return {i: (-q & M64, a) for i, (q, a) in d.items()}, -c & M64
    if k == z3.Z3_OP_BMUL and len(ch) == 2:
        for x, y in ((ch[0], ch[1]), (ch[1], ch[0])):
            if z3.is_bv_value(x):
                m = x.as_long()
                d, c = lin(y)
                d = {i: (q * m & M64, a) for i, (q, a) in d.items()}
                return {i: v for i, v in d.items() if v[0]}, c * m & M64
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < 64:
        m = 1 << ch[1].as_long()
        d, c = lin(ch[0])
        d = {i: (q * m & M64, a) for i, (q, a) in d.items()}
        return {i: v for i, v in d.items() if v[0]}, c * m & M64
    if k == z3.Z3_OP_CONCAT and len(ch) == 2 and z3.is_bv_value(ch[1]) and ch[1].as_long() == 0:
        # x ++ 0..0 with x the low part of a 64-bit term
        x, n = ch[0], ch[1].size()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[1] == 0 and x.arg(0).size() == 64:
            d, c = lin(x.arg(0))
            m = 1 << n
            d = {i: (q * m & M64, a) for i, (q, a) in d.items()}
            return {i: v for i, v in d.items() if v[0]}, c * m & M64
    return {t.get_id(): (1, t)}, 0


def key(d):
    return tuple(sorted((i, q) for i, (q, a) in d.items()))


def rebuild(d, c):
    t = z3.BitVecVal(c, 64)
    for i in sorted(d):
        q, a = d[i]
        t = t + (a if q == 1 else a * z3.BitVecVal(q, 64))
    return z3.simplify(t)


def shr(off, k, feasible):
    """off >> k, as a linear term where that is exact; feasible: fn(condition)"""
    d, c = lin(off)
    sg = lambda v: v - (1 << 64) if v >> 63 else v
    if sg(c) % (1 << k) == 0 and all(sg(q) % (1 << k) == 0 for q, a in d.values()):
        t = rebuild({i: ((sg(q) >> k) & M64, a) for i, (q, a) in d.items()}, (sg(c) >> k) & M64)
        small = z3.simplify(z3.ULT(t, z3.BitVecVal(1 << (64 - k), 64)))
        if z3.is_true(small):
            return t
        hi = c
        for q, a in d.values():
            r = ranges.VARS.get(a.decl().name()) if z3.is_const(a) else None
            hi += q * r[1] if r else 1 << 64
        if hi <= M64 or not feasible(z3.Not(small)):
            return t
    return z3.simplify(z3.LShR(off, z3.BitVecVal(k, 64)))


class Mem:
    __slots__ = ('arr', 'key', 'var', 'ov', 'stores')

    def __init__(self, arr, key=None, var=None, ov=None, stores=()):
        self.arr, self.key, self.var, self.ov, self.stores = arr, key, var, ov or {}, stores

    def flat(self):
        a = self.arr
        for c in self.ov:
            a = z3.Store(a, rebuild(self.var, c), self.ov[c])
        return a

    def read(self, ix):
        if self.ov:
            d, c = lin(ix)
            if key(d) != self.key:
                return z3.Select(self.flat(), ix)
            if c in self.ov:
                return self.ov[c]
        return z3.Select(self.arr, ix)

    def write(self, items):
        m = self
        st = m.stores + tuple(ix for ix, v in items)
        arr, ky, var, ov = m.arr, m.key, m.var, dict(m.ov)
        for ix, v in items:
            d, c = lin(ix)
            k = key(d)
            if ov and k != ky:
                arr = Mem(arr, ky, var, ov).flat()
                ov = {}
            ky, var = k, d
            ov[c] = v
        return Mem(arr, ky, var, ov, st)

    def merge(self, g, o):
        """ite(g, self, o)"""
        st = self.stores + tuple(x for x in o.stores if not any(x is y for y in self.stores))
        if self.arr.eq(o.arr) and (not self.ov or not o.ov or self.key == o.key):
            ky, var = (self.key, self.var) if self.ov else (o.key, o.var)
            ov = {}
            for c in list(self.ov) + [c for c in o.ov if c not in self.ov]:
                ix = rebuild(var, c)
                x = self.ov[c] if c in self.ov else z3.Select(self.arr, ix)
                y = o.ov[c] if c in o.ov else z3.Select(self.arr, ix)
                ov[c] = x if x.eq(y) else z3.If(g, x, y)
            return Mem(self.arr, ky, var, ov, st)
        return Mem(z3.If(g, self.flat(), o.flat()), None, None, None, st)


def addlin(op, a, b):
    """a + b or a - b in canonical form if both are linear over the symbolic integers of the case, else None"""
    ds = []
    for x in (a, b):
        d, k = lin(x)
        if len(d) > 6 or not all(z3.is_const(v) and v.decl().name() in ranges.VARS for q, v in d.values()):
            return None
        ds.append((d, k))
    sg = 1 if op == 'add' else -1
    (d, k), (d2, k2) = ds
    d = dict(d)
    for i, (q, v) in d2.items():
        d[i] = (((d[i][0] if i in d else 0) + sg * q) & M64, v)
    d = {i: v for i, v in d.items() if v[0]}
    k = (k + sg * k2) & M64
    return rebuild(d, k) if d else k


def lint(t):
    """(integer coefficients, constant, lo, hi): the value of t as an integer expression, None if it may leave 64 bits"""
    d, k = lin(t)
    if len(d) > 6:
        return None
    sg = lambda v: v - (1 << 64) if v >> 63 else v
    k = sg(k)
    lo = hi = k
    o = {}
    for i, (q, a) in d.items():
        r = ranges.rng(a)
        q = sg(q)
        o[i] = (q, r[0], r[1])
        lo += min(q * r[0], q * r[1])
        hi += max(q * r[0], q * r[1])
    if lo < 0 or hi > M64:
        return None
    return o, k, lo, hi


def complin(pred, a, b):
    """0/1 if the comparison of two 64-bit terms follows from their linear forms, else None"""
    x = lint(a)
    if x is None:
        return None
    y = lint(b)
    if y is None:
        return None
    if pred[0] == 's' and (x[3] >> 63 or y[3] >> 63):
        return None
    lo = hi = x[1] - y[1]
    for i in set(x[0]) | set(y[0]):
        q1, l1, h1 = x[0].get(i) or (0,) + y[0][i][1:]
        q = q1 - (y[0][i][0] if i in y[0] else 0)
        lo += min(q * l1, q * h1)
        hi += max(q * l1, q * h1)
    if pred in ('eq', 'ne'):
        return int(pred == 'eq') if lo == hi == 0 else int(pred == 'ne') if lo > 0 or hi < 0 else None
    p = pred[1:]
    if p == 'lt':
        return 1 if hi < 0 else 0 if lo >= 0 else None
    if p == 'le':
        return 1 if hi <= 0 else 0 if lo > 0 else None
    if p == 'gt':
        return 1 if lo > 0 else 0 if hi <= 0 else None
    return 1 if lo >= 0 else 0 if hi < 0 else None


def divlin(t, c):
    """(t // c, t % c) for a linear term t over bounded variables that stays within 64 bits: multiples of c and common factors are taken out"""
    d, k = lin(t)
    if len(d) > 4:
        return None
    sg = lambda v: v - (1 << 64) if v >> 63 else v
    k = sg(k)
    outer, inner, g = {}, {}, c
    lo = hi = k
    ilo = ihi = k % c
    for i, (q, a) in d.items():
        r = ranges.VARS.get(a.decl().name()) if z3.is_const(a) else None
        if r is None:
            return None
        q = sg(q)
        lo += min(q * r[0], q * r[1])
        hi += max(q * r[0], q * r[1])
        if q % c:
            inner[i] = (q, a)
            g = math.gcd(g, q)
            ilo += min(q * r[0], q * r[1])
            ihi += max(q * r[0], q * r[1])
        else:
            outer[i] = ((q // c) & M64, a)
    if lo < 0 or hi > M64:
        return None
    if not inner:
        return rebuild(outer, (k // c) & M64), z3.BitVecVal(k % c, 64)
    if ilo < 0 or ihi > M64 or g == 1 and not outer:
        return None
    # t = c * outer + c * (k // c) + g * u + k % c, u = inner / g
    u = rebuild({i: ((q // g) & M64, a) for i, (q, a) in inner.items()}, (k % c) // g)
    o = rebuild(outer, (k // c) & M64)
    m = z3.BitVecVal(c // g, 64)
    return o + z3.UDiv(u, m), z3.URem(u, m) * g + (k % c) % g
