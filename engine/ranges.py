"""Interval analysis of bit-vector terms: (ulo, uhi, slo, shi).  Sound over-approximation; it only saves solver queries."""
import z3

_memo = {}
VARS = {}          # name -> (lo, hi) unsigned, from the case's assumptions


def reset():
    _memo.clear()
    VARS.clear()


def full(w):
    return (0, (1 << w) - 1, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def of_u(lo, hi, w):
    """from an unsigned interval of integers"""
    if lo < 0 or hi >= 1 << w:
        return full(w)
    h = 1 << (w - 1)
    if hi < h:
        return (lo, hi, lo, hi)
    if lo >= h:
        return (lo, hi, lo - (1 << w), hi - (1 << w))
    return (lo, hi, -h, h - 1)


def of_s(lo, hi, w):
    h = 1 << (w - 1)
    if lo < -h or hi >= h:
        return full(w)
    if lo >= 0:
        return (lo, hi, lo, hi)
    if hi < 0:
        return (lo + (1 << w), hi + (1 << w), lo, hi)
    return (0, (1 << w) - 1, lo, hi)


def meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), min(a[3], b[3]))


def rng(t):
    """post-order, iterative"""
    st = [t]
    while st:
        x = st[-1]
        i = x.get_id()
        if i in _memo:
            st.pop()
            continue
        ch = [c for c in x.children() if z3.is_bv(c)] if z3.is_app(x) else []
        todo = [c for c in ch if c.get_id() not in _memo]
        if todo:
            st.extend(todo)
            continue
        _memo[i] = (x, _one(x))
        st.pop()
    return _memo[t.get_id()][1]


def r(t):
    return _memo[t.get_id()][1]


def _one(t):
    w = t.size()
    if z3.is_bv_value(t):
        return of_u(t.as_long(), t.as_long(), w)
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        if not ch and t.decl().name() in VARS:
            lo, hi = VARS[t.decl().name()]
            return of_s(lo, hi, w) if lo < 0 else of_u(lo, hi, w)
        return full(w)
    if k == z3.Z3_OP_BADD:
        u = [r(c) for c in ch]
        a = of_u(sum(x[0] for x in u), sum(x[1] for x in u), w)
        b = of_s(sum(x[2] for x in u), sum(x[3] for x in u), w)
        return meet(a, b)
    if k == z3.Z3_OP_BSUB and len(ch) == 2:
        x, y = r(ch[0]), r(ch[1])
        return meet(of_u(x[0] - y[1], x[1] - y[0], w), of_s(x[2] - y[3], x[3] - y[2], w))
    if k == z3.Z3_OP_BNEG:
        x = r(ch[0])
        return of_s(-x[3], -x[2], w)
    if k == z3.Z3_OP_BMUL and len(ch) == 2:
        x, y = r(ch[0]), r(ch[1])
        p = [x[a] * y[b] for a in (2, 3) for b in (2, 3)]
        return meet(of_u(x[0] * y[0], x[1] * y[1], w), of_s(min(p), max(p), w))
    if k == z3.Z3_OP_ZERO_EXT:
        x = r(ch[0])
        return of_u(x[0], x[1], w)
    if k == z3.Z3_OP_SIGN_EXT:
        x = r(ch[0])
        return of_s(x[2], x[3], w)
    if k == z3.Z3_OP_ITE:
        x, y = r(ch[1]), r(ch[2])
        return (min(x[0], y[0]), max(x[1], y[1]), min(x[2], y[2]), max(x[3], y[3]))
    if k == z3.Z3_OP_CONCAT:
        lo = hi = 0
        for c in ch:
            x = r(c)
            lo = lo << c.size() | x[0]
            hi = hi << c.size() | x[1]
        return of_u(lo, hi, w)
    if k == z3.Z3_OP_EXTRACT:
        h, l = t.params()
        x = r(ch[0])
        if x[1] >> (h + 1) == 0:
            return of_u(x[0] >> l, x[1] >> l, w)
        if l == 0:
            return of_s(x[2], x[3], w)
        return full(w)
    if k == z3.Z3_OP_BAND:
        return of_u(0, min(r(c)[1] for c in ch), w)
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        b = max(r(c)[1].bit_length() for c in ch)
        return of_u(0, (1 << b) - 1, w)
    if k == z3.Z3_OP_BLSHR:
        x = r(ch[0])
        if z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            return of_u(x[0] >> n, x[1] >> n, w)
        return of_u(0, x[1], w)
    if k == z3.Z3_OP_BASHR and z3.is_bv_value(ch[1]):
        x = r(ch[0])
        n = ch[1].as_long()
        return of_s(x[2] >> n, x[3] >> n, w)
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
        x = r(ch[0])
        n = ch[1].as_long()
        return of_u(x[0] << n, x[1] << n, w)
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
        x, y = r(ch[0]), r(ch[1])
        if y[0] > 0:
            return of_u(x[0] // y[1], x[1] // y[0], w)
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
        x, y = r(ch[0]), r(ch[1])
        if y[0] > 0:
            return of_u(0, min(x[1], y[1] - 1), w)
    return full(w)


def never_overflows(op, signed, a, b, w):
    x, y = rng(a), rng(b)
    if signed:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if op == 'add':
            return x[2] + y[2] >= lo and x[3] + y[3] <= hi
        if op == 'sub':
            return x[2] - y[3] >= lo and x[3] - y[2] <= hi
        p = [x[i] * y[j] for i in (2, 3) for j in (2, 3)]
        return min(p) >= lo and max(p) <= hi
    if op == 'add':
        return x[1] + y[1] < 1 << w
    if op == 'sub':
        return x[0] >= y[1]
    return x[1] * y[1] < 1 << w


def compare(pred, a, b):
    """0/1 if the intervals decide the comparison, else None"""
    x, y = rng(a), rng(b)
    if pred in ('eq', 'ne'):
        if x[1] < y[0] or y[1] < x[0] or x[3] < y[2] or y[3] < x[2]:
            return int(pred == 'ne')
        return None
    i = 2 if pred[0] == 's' else 0
    p = pred[1:]
    if p in ('gt', 'ge'):
        x, y = y, x
        p = 'lt' if p == 'gt' else 'le'
    if p == 'lt':
        return 1 if x[i + 1] < y[i] else 0 if x[i] >= y[i + 1] else None
    return 1 if x[i + 1] <= y[i] else 0 if x[i] > y[i + 1] else None
