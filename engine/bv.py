"""Value layer: an integer value is a Python int (concrete) or a z3 BitVec term (Bool for i1);
UNDEF is an undefined value (every use is a fresh unconstrained symbol).
Vectors/arrays/structs are Python lists."""
import z3


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
_fresh = [0]


def fresh(name, w):
    _fresh[0] += 1
    n = '%s!%d' % (name, _fresh[0])
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)


def reset_fresh():
    _fresh[0] = 0


def isc(x):
    return isinstance(x, int)


def tobv(x, w):
    """as z3 BitVec of width w (i1: BitVec 1 from Bool)"""
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if x is UNDEF:
        return z3.BitVec('undef!%d' % _bump(), w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def _bump():
    _fresh[0] += 1
    return _fresh[0]


def tobool(x):
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if x is UNDEF:
        return z3.Bool('undefb!%d' % _bump())
    if z3.is_bv(x):
        return x == 1
    return x


def undef_fix(x, w):
    """replace UNDEF by a fresh symbol"""
    if x is UNDEF:
        return tobool(x) if w == 1 else tobv(x, w)
    return x


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def M(w):
    return (1 << w) - 1


def binop(op, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        m = M(w)
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < w else UNDEF
        if op == 'lshr': return a >> b if b < w else UNDEF
        if op == 'ashr': return (sx(a, w) >> b) & m if b < w else UNDEF
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op == 'sdiv':
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m
        if op == 'srem':
            x, y = sx(a, w), sx(b, w)
            r = abs(x) % abs(y)
            return (-r if x < 0 else r) & m
    if a is UNDEF and b is UNDEF and op in ('add', 'sub', 'xor'):
        return UNDEF
    if w == 1:
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int) or isinstance(b, int):
                if isinstance(b, int):
                    a, b = b, a
                if op == 'and': return undef_fix(b, 1) if a else 0
                if op == 'or': return 1 if a else undef_fix(b, 1)
                if op == 'xor': return z3.Not(tobool(b)) if a else undef_fix(b, 1)
            a = tobool(a)
            b = tobool(b)
            if op == 'and': return z3.And(a, b)
            if op == 'or': return z3.Or(a, b)
            return z3.Xor(a, b)
        r = binop_sym(op, tobv(a, 1), tobv(b, 1), 1)
        return r == 1
    # cheap identities
    if isinstance(b, int):
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return undef_fix(a, w)
        if b == 0 and op in ('and', 'mul'):
            return 0
        if b == M(w):
            if op == 'and': return undef_fix(a, w)
            if op == 'or': return b
            if op == 'xor' and not a is UNDEF: return ~a
        if op in ('shl', 'lshr', 'ashr') and b >= w:
            return UNDEF
        if b == 1 and op in ('mul', 'udiv'):
            return undef_fix(a, w)
    if isinstance(a, int):
        if a == 0 and op in ('add', 'or', 'xor'):
            return undef_fix(b, w)
        if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
            return 0
        if a == M(w):
            if op == 'and': return undef_fix(b, w)
            if op == 'or': return a
            if op == 'xor' and not b is UNDEF: return ~b
    if w == 64 and isinstance(b, int) and op in ('udiv', 'urem', 'lshr') and not a is UNDEF and not isinstance(a, int):
        from . import bigmem
        r = bigmem.divlin(a, 1 << b if op == 'lshr' else b)
        if r is not None:
            r = r[op == 'urem']
            return r.as_long() if z3.is_bv_value(r) else r
    if w == 64 and op in ('add', 'sub') and not a is UNDEF and not b is UNDEF:
        from . import bigmem, ranges
        if ranges.VARS:
            r = bigmem.addlin(op, a, b)
            if r is not None:
                return r
    return binop_sym(op, tobv(a, w), tobv(b, w), w)


def binop_sym(op, a, b, w):
    if op == 'add': return a + b
    if op == 'sub': return a - b
    if op == 'mul': return a * b
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return a << b
    if op == 'lshr': return z3.LShR(a, b)
    if op == 'ashr': return a >> b
    if op == 'udiv': return z3.UDiv(a, b)
    if op == 'urem': return z3.URem(a, b)
    if op == 'sdiv': return a / b
    if op == 'srem': return z3.SRem(a, b)
    raise NotImplementedError(op)


def icmp(pred, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if pred == 'eq': return int(a == b)
        if pred == 'ne': return int(a != b)
        if pred[0] == 's':
            a, b = sx(a, w), sx(b, w)
        p = pred[1:]
        return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
    if a is UNDEF and b is UNDEF:
        return UNDEF
    if w == 1:
        if pred in ('eq', 'ne'):
            x, y = tobool(a), tobool(b)
            return x == y if pred == 'eq' else z3.Xor(x, y)
        a, b = tobv(a, 1), tobv(b, 1)
    a = tobv(a, w)
    b = tobv(b, w)
    if w > 1:
        from . import ranges
        d = ranges.compare(pred, a, b)
        if d is not None:
            return d
        if w == 64 and ranges.VARS:
            from . import bigmem
            d = bigmem.complin(pred, a, b)
            if d is not None:
                return d
    if pred == 'eq': return a == b
    if pred == 'ne': return a != b
    if pred == 'ult': return z3.ULT(a, b)
    if pred == 'ule': return z3.ULE(a, b)
    if pred == 'ugt': return z3.UGT(a, b)
    if pred == 'uge': return z3.UGE(a, b)
    if pred == 'slt': return a < b
    if pred == 'sle': return a <= b
    if pred == 'sgt': return a > b
    if pred == 'sge': return a >= b
    raise NotImplementedError(pred)


def ite(c, a, b, w):
    """c: int/Bool/UNDEF; a,b scalar values of width w"""
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    c = tobool(c)
    if w == 1:
        if isinstance(a, int) and isinstance(b, int):
            return c if a else z3.Not(c)
        return z3.If(c, tobool(a), tobool(b))
    a = tobv(a, w)
    b = tobv(b, w)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def zext(x, w, v):
    if isinstance(x, int):
        return x
    if x is UNDEF:
        x = tobv(x, w)
    if w == 1:
        return tobv(x, v)
    return z3.ZeroExt(v - w, x)


def sext(x, w, v):
    if isinstance(x, int):
        return sx(x, w) & M(v)
    if x is UNDEF:
        x = tobv(x, w) if w > 1 else tobool(x)
    if w == 1:
        return z3.If(tobool(x), z3.BitVecVal(M(v), v), z3.BitVecVal(0, v))
    return z3.SignExt(v - w, x)


def trunc(x, w, v):
    if isinstance(x, int):
        return x & M(v)
    if x is UNDEF:
        return UNDEF
    if v == 1:
        return z3.Extract(0, 0, x) == 1
    return from_bytes(to_bytes(x, w)[:v // 8]) if v % 8 == 0 and w % 8 == 0 else z3.Extract(v - 1, 0, x)


# ---- bytes <-> terms.  A byte is None (uninitialised), an int, or (term, k): byte k of a BitVec term.
_concat = {}


def reset_bytes():
    _concat.clear()


def to_bytes(x, w):
    n = w // 8
    if isinstance(x, int):
        return list(x.to_bytes(n, 'little'))
    if x is UNDEF:
        return [None] * n
    c = _concat.get(x.get_id())
    if c is not None:
        return c[1]
    if z3.is_bv_value(x):
        return list(x.as_long().to_bytes(n, 'little'))
    return [(x, k) for k in range(n)]


def same_byte(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[1] == b[1] and a[0].eq(b[0])
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return False


def from_bytes(bs):
    n = len(bs)
    b0 = bs[0]
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), 'little')
    if isinstance(b0, tuple) and b0[1] == 0:
        t = b0[0]
        if t.size() == 8 * n:
            for k in range(1, n):
                b = bs[k]
                if not isinstance(b, tuple) or b[1] != k or not b[0].eq(t):
                    break
            else:
                return t
    if all(b is None for b in bs):
        return UNDEF
    parts = []
    i = 0
    fixed = list(bs)
    while i < n:
        b = bs[i]
        if isinstance(b, int):
            j = i
            while j < n and isinstance(bs[j], int):
                j += 1
            parts.append(z3.BitVecVal(int.from_bytes(bytes(bs[i:j]), 'little'), 8 * (j - i)))
            i = j
        elif b is None:
            v = z3.BitVec('undef!%d' % _bump(), 8)
            fixed[i] = (v, 0)
            parts.append(v)
            i += 1
        else:
            t, k = b
            j = i + 1
            while j < n and isinstance(bs[j], tuple) and bs[j][1] == k + (j - i) and bs[j][0].eq(t):
                j += 1
            ln = j - i
            if k == 0 and ln * 8 == t.size():
                parts.append(t)
            else:
                parts.append(z3.Extract(8 * (k + ln) - 1, 8 * k, t))
            i = j
    r = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
    _concat[r.get_id()] = (r, fixed)
    return r


def ctpop(x, w):
    if isinstance(x, int):
        return bin(x).count('1')
    if x is UNDEF:
        x = tobv(x, w)
    # sum of bits
    acc = z3.ZeroExt(w - 1, z3.Extract(0, 0, x))
    for i in range(1, w):
        acc = acc + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return acc


def bswap(x, w):
    if x is UNDEF:
        return UNDEF
    return from_bytes(list(reversed(to_bytes(x, w))))
