"""Deciding a verification condition: assumptions & path condition & not goal.

1. the whole goal in one query with a short limit;
2. otherwise conjunct by conjunct; equalities of sums are first tried by splitting them over independent inputs
   (every piece is itself a solver query over all values of its inputs);
3. otherwise case-split over a symbolic parameter with a small range.
Every step is sound: `unsat` is only reported when each piece was shown unsat, `sat` only with a model of the whole."""
import time, sys
import z3

sys.setrecursionlimit(20000)


class Stats(dict):
    pass


def check(stats, fs, to_ms, want_model=True):
    t = time.time()
    s = z3.Solver()
    s.set('timeout', max(1, int(to_ms)))
    s.add(*fs)
    r = s.check()
    stats['queries'] += 1
    dt = time.time() - t
    stats['solver_s'] += dt
    stats['max_query_s'] = max(stats['max_query_s'], dt)
    return str(r), (s.model() if r == z3.sat else None), s


_support = {}


def support(t):
    """ids of the uninterpreted constants in t (frozenset), memoised"""
    i = t.get_id()
    r = _support.get(i)
    if r is not None:
        return r[1]
    stack = [t]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _support:
            stack.pop()
            continue
        ch = x.children() if z3.is_app(x) else []
        todo = [c for c in ch if c.get_id() not in _support]
        if todo:
            stack.extend(todo)
            continue
        if not ch:
            v = frozenset([x.decl().name()]) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            v = frozenset().union(*[_support[c.get_id()][1] for c in ch])
        _support[xi] = (x, v)
        stack.pop()
    return _support[i][1]


_canon_vars = {}
_cache = {}


def consts_in_order(t):
    """uninterpreted constants of t in order of first occurrence"""
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if not z3.is_app(x):
            continue
        ch = x.children()
        if not ch:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
        else:
            st.extend(reversed(ch))
    return out


def canon(fs):
    """the conjunction of fs with its constants renamed by order of occurrence"""
    t = z3.And(*fs) if len(fs) != 1 else fs[0]
    t = z3.simplify(t)
    vs = consts_in_order(t)
    sub = []
    for n, v in enumerate(vs):
        k = (n, str(v.sort()))
        if k not in _canon_vars:
            _canon_vars[k] = z3.Const('canon!%d!%s' % k, v.sort())
        sub.append((v, _canon_vars[k]))
    return z3.substitute(t, *sub) if sub else t


def check_cached(stats, fs, to_ms):
    """satisfiability up to renaming of the inputs (lanes that are treated alike are decided once)"""
    t = canon(fs)
    k = t.get_id()
    if k in _cache:
        stats['cached'] = stats.get('cached', 0) + 1
        return _cache[k][1]
    if z3.is_false(t):
        r = 'unsat'
    elif z3.is_true(t):
        r = 'sat'
    else:
        r = check(stats, [t], to_ms)[0]
    if r != 'unknown':
        _cache[k] = (t, r)
    return r


def reset():
    _support.clear()
    _cache.clear()


class NotLinear(Exception):
    pass


class Lin:
    """terms as integer-linear combinations of narrow atoms, with exact ranges"""

    def __init__(self, stats, base, deadline):
        self.memo = {}
        self.ranges = {}
        self.stats, self.base, self.deadline = stats, base, deadline
        self.atoms = {}

    # a form is (dict atomkey -> integer coefficient, integer constant): its value modulo 2^w is the term
    def atom(self, t, kind):
        k = (t.get_id(), kind)
        self.atoms[k] = t
        return ({k: 1}, 0)

    def width1_range(self, k):
        """(lo, hi) of an atom as an integer"""
        if k in self.ranges:
            return self.ranges[k]
        t = self.atoms[k]
        w = t.size()
        sup = support(t)
        base = [b for b in self.base if support(b) and support(b) <= sup]
        sg = k[1] == 's'

        def leq(bound):      # is t <= bound always?
            if time.time() > self.deadline:
                raise NotLinear()
            c = (t > z3.BitVecVal(bound, w)) if sg else z3.UGT(t, z3.BitVecVal(bound, w))
            return check_cached(self.stats, base + [c], 2000) == 'unsat'

        def geq(bound):
            c = (t < z3.BitVecVal(bound, w)) if sg else z3.ULT(t, z3.BitVecVal(bound, w))
            return check_cached(self.stats, base + [c], 2000) == 'unsat'
        hi = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
        lo = -(1 << (w - 1)) if sg else 0
        if len(sup) <= 2:
            for b in range(0, w - 1 if sg else w):
                if leq((1 << b)):
                    hi = 1 << b
                    break
            if sg:
                for b in range(0, w - 1):
                    if geq(-(1 << b)):
                        lo = -(1 << b)
                        break
                if lo < 0 and geq(0):
                    lo = 0
        self.ranges[k] = (lo, hi)
        return lo, hi

    def bounds(self, f):
        lo = hi = f[1]
        for k, c in f[0].items():
            a, b = self.width1_range(k)
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi

    @staticmethod
    def norm(f, w):
        """coefficients to the signed range modulo 2^w"""
        m = 1 << w

        def s(c):
            c %= m
            return c - m if c >= m // 2 and w > 1 else c
        d = {k: s(c) for k, c in f[0].items()}
        return ({k: c for k, c in d.items() if c}, s(f[1]))

    @staticmethod
    def add(a, b, sign=1):
        d = dict(a[0])
        for k, c in b[0].items():
            d[k] = d.get(k, 0) + sign * c
        return (d, a[1] + sign * b[1])

    def form(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][1]
        f = self.norm(self._form(t), t.size())
        self.memo[i] = (t, f)
        return f

    def _form(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            return ({}, t.as_long())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_BADD:
            f = self.form(ch[0])
            for c in ch[1:]:
                f = self.add(f, self.form(c))
            return f
        if k == z3.Z3_OP_BSUB:
            f = self.form(ch[0])
            for c in ch[1:]:
                f = self.add(f, self.form(c), -1)
            return f
        if k == z3.Z3_OP_BNEG:
            return self.add(({}, 0), self.form(ch[0]), -1)
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(a):
                    f = self.form(b)
                    v = a.as_long()
                    return ({q: c * v for q, c in f[0].items()}, f[1] * v)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            f = self.form(ch[0])
            v = 1 << ch[1].as_long()
            return ({q: c * v for q, c in f[0].items()}, f[1] * v)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            if lo == 0:
                x = ch[0]
                return self.form(x)
            f = self.low_zero(ch[0], lo)
            if f is not None:
                return f
            return self.atom(t, 'u')
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            return self.extend(ch[0], 's' if k == z3.Z3_OP_SIGN_EXT else 'u')
        if k == z3.Z3_OP_CONCAT:
            f = ({}, 0)
            sh = 0
            for c in reversed(ch):
                g = self.extend(c, 'u')
                f = self.add(f, ({q: n << sh for q, n in g[0].items()}, g[1] << sh))
                sh += c.size()
            return f
        return self.atom(t, 'u')

    def low_zero(self, x, lo):
        """extract above bit lo of a concat: the parts above"""
        if x.decl().kind() == z3.Z3_OP_CONCAT:
            sh = 0
            f = ({}, 0)
            ok = True
            for c in reversed(x.children()):
                if sh >= lo:
                    g = self.extend(c, 'u')
                    f = self.add(f, ({q: n << (sh - lo) for q, n in g[0].items()}, g[1] << (sh - lo)))
                elif sh + c.size() > lo:
                    return None
                sh += c.size()
            return f
        return None

    def extend(self, x, kind):
        """the integer value of x (unsigned or signed) as a form, exact"""
        w = x.size()
        f = self.form(x)
        if f[0] and not (len(f[0]) == 1 and list(f[0])[0][0] == x.get_id()):
            if kind == 'u':
                for g in (f, ({q: c % (1 << w) for q, c in f[0].items()}, f[1] % (1 << w)), (f[0], f[1] % (1 << w))):
                    lo, hi = self.bounds(g)
                    if lo >= 0 and hi < (1 << w):
                        return g
            else:
                lo, hi = self.bounds(f)
                if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                    return f
        elif not f[0]:
            v = f[1] % (1 << w)
            if kind == 's' and v >> (w - 1):
                v -= 1 << w
            return ({}, v)
        elif list(f[0].values())[0] == 1 and f[1] == 0 and list(f[0])[0][1] == kind:
            return f
        return self.atom(x, kind)

    def term(self, k, w):
        t = self.atoms[k]
        d = w - t.size()
        if d > 0:
            return z3.SignExt(d, t) if k[1] == 's' else z3.ZeroExt(d, t)
        return z3.Extract(w - 1, 0, t) if d < 0 else t


def separable(goal, base, stats, deadline, bytewise=False, ms=10000):
    """prove an equality of sums by proving, for each group of inputs that occur together, that its share of the
    difference is constant.  -> True if proved, None if not applicable"""
    if not z3.is_eq(goal) or not z3.is_bv(goal.arg(0)):
        return None
    if bytewise:
        sub = []
        for v in consts_in_order(goal):
            if z3.is_bv(v) and v.size() > 8 and v.size() % 8 == 0:
                sub.append((v, z3.Concat(*[z3.BitVec('%s.%d' % (v, k), 8) for k in reversed(range(v.size() // 8))])))
        if not sub:
            return None
        goal = z3.substitute(goal, *sub)
        base = [z3.substitute(b, *sub) for b in base]
        goal = z3.simplify(goal.arg(0)) == z3.simplify(goal.arg(1))
    L, R = goal.arg(0), goal.arg(1)
    w = L.size()
    try:
        ln = Lin(stats, base, deadline)
        d = ln.norm(ln.add(ln.form(L), ln.form(R), -1), w)
    except NotLinear:
        return None
    atoms = list(d[0])
    if len(atoms) > 5000:
        return None
    # group by shared support
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for k in atoms:
        s = list(support(ln.atoms[k]))
        if not s:
            return None
        for x in s[1:]:
            parent[find(x)] = find(s[0])
    groups = {}
    for k in atoms:
        groups.setdefault(find(next(iter(support(ln.atoms[k])))), []).append(k)
    if len(groups) < 2 and len(atoms) > 2:
        return None
    const = d[1]
    seen = set()
    for g, ks in groups.items():
        t = z3.BitVecVal(0, w)
        sup = set()
        for k in ks:
            t = t + z3.BitVecVal(d[0][k] % (1 << w), w) * ln.term(k, w)
            sup |= support(ln.atoms[k])
        b = [x for x in base if support(x) and support(x) <= sup]
        # the value of the group at one admissible point
        names = sorted(sup)
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*b)
        if s.check() != z3.sat:
            return None
        m = s.model()
        v = m.eval(t, model_completion=True).as_long()
        if time.time() > deadline:
            return None
        r = check_cached(stats, b + [t != z3.BitVecVal(v, w)], ms)
        if r != 'unsat':
            return None
        const += v
    return True if const % (1 << w) == 0 else None


def conjuncts(goal):
    out = []
    for g in goal:
        st = [g]
        while st:
            x = st.pop()
            if z3.is_and(x):
                st += list(reversed(x.children()))
            else:
                out.append(x)
    return out


def decide(assumptions, side, pc, goal, timeout_ms, stats, prefer=(), syms=(), first_ms=None):
    base = list(assumptions) + list(side) + list(pc)
    if not goal:
        return 'unsat', None
    t0 = time.time()
    end = t0 + timeout_ms / 1000.0

    def finish(m, s, fs):
        if prefer:
            s2 = z3.Solver()
            s2.set('timeout', 10000)
            s2.add(*fs)
            s2.add(*prefer)
            if s2.check() == z3.sat:
                return s2.model()
        return m
    fs = base + [z3.Not(z3.And(*goal))]
    r, m, s = check(stats, fs, min(timeout_ms, first_ms or 2500))
    if r == 'sat':
        return r, finish(m, s, fs)
    if r == 'unsat':
        return r, None
    unknown = False
    for g in conjuncts(goal):
        g0 = z3.simplify(g)
        if z3.is_true(g0):
            continue
        left = (end - time.time()) * 1000
        if left < 200:
            return 'unknown', None
        lim = min(end, time.time() + max(20, left / 4000))
        if (separable(g, base, stats, lim, ms=1500) or separable(g, base, stats, lim, True) or
                separable(g, base, stats, lim)):
            continue
        fs = base + [z3.Not(g)]
        r, m, s = check(stats, fs, min(left, 10000 if syms else left))
        if r == 'sat':
            return r, finish(m, s, fs)
        if r == 'unsat':
            continue
        done = False
        for v, lo, hi in syms:
            if hi - lo > 300:
                continue
            bad = None
            for n in range(lo, hi + 1):
                sub = [z3.simplify(z3.substitute(x, (v, z3.BitVecVal(n, v.size())))) for x in fs]
                r, m, s = check(stats, sub + [v == n], max(200, (end - time.time()) * 1000))
                if r != 'unsat':
                    bad = r, m
                    break
            if bad is None:
                done = True
                break
            if bad[0] == 'sat':
                r, m, s = check(stats, fs + [v == n], 30000)
                if r == 'sat':
                    return r, m
            break
        if not done:
            unknown = True
    return ('unknown', None) if unknown else ('unsat', None)
