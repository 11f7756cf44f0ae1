"""Symbolic executor for LLVM IR produced by rustc from the code under test.

A run starts at one harness function, with concrete buffer sizes and symbolic buffer contents, and
yields a set of outcomes, each with a path condition: ret (with final memory), panic, ub.
Two-sided branches are executed on both sides and merged at the immediate post-dominator.
"""
import re
import sys, bisect, z3, time
from . import irparse
from .irparse import compute_ipdom
from .bv import *
from . import bv, bigmem
from .fp import FP
from . import intrinsics

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class NeedSplit(Exception):
    """the value of `expr` has to be concrete: the driver enumerates its values with the solver and re-runs"""

    def __init__(self, expr, why, st=None):
        self.expr = expr
        self.why = why
        self.st = st


class Obj:
    __slots__ = ('base', 'size', 'align', 'kind', 'data', 'ro', 'owner', 'name', 'arr')

    def __init__(self, base, size, align, kind, name, data=None, ro=False):
        self.base = base
        self.size = size
        self.align = align
        self.kind = kind
        self.name = name
        self.data = data if data is not None else [None] * size
        self.ro = ro
        self.owner = None
        self.arr = None

    def copy(self):
        o = Obj(self.base, self.size, self.align, self.kind, self.name, list(self.data), self.ro)
        o.arr = self.arr
        return o


class State:
    __slots__ = ('pc', 'mem', 'trace')

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.trace = ()

    def clone(self):
        s = State()
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.trace = self.trace
        return s

    def writable(self, base):
        o = self.mem[base]
        if o.owner is not self:
            o = o.copy()
            o.owner = self
            self.mem[base] = o
        return o


class DeadPath(Exception):
    pass


def decide_vars(t):
    from .decide import consts_in_order
    return consts_in_order(t)


GAP = 1 << 28


class Executor:
    def __init__(self, modules, assumptions=(), fpmode='ieee', max_steps=3000000, max_paths=4000,
                 deadline=None, externals=None):
        self.modules = modules
        self.fp = FP(fpmode, self)
        self.bases = []
        self.next_base = 0x100000000
        self.fn_addr = {}
        self.addr_fn = {}
        self.globals = {}
        self.globals_obj = {}
        self.outcomes = []
        self.steps = 0
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.assumptions = list(assumptions)
        for a in self.assumptions:
            self.solver.add(a)
        self.nq = 0
        self.tq = 0.0
        self.fcache = {}
        self.functions = set()
        self.externals = externals or {}
        self.side = []      # side constraints (NaN payloads etc.), always true
        self.nside = 0
        self.findcache = {}
        self.ub_seen = set()
        self.isa = None     # instruction-set extensions that may be used (None: not checked)
        self.isa_memo = {}
        self.cut = None
        self.bigs = []
        self.touched = {}

    # ------------------------------------------------------------------ solver
    def feasible(self, pc, *conds):
        cs = []
        for c in conds:
            if isinstance(c, int):
                if not c:
                    return False
                continue
            cs.append(c)
        key = tuple(c.get_id() for c in pc) + tuple(c.get_id() for c in cs)
        r = self.fcache.get(key)
        if r is not None:
            return r[0]
        for c in cs:
            s = z3.simplify(c)
            if z3.is_false(s):
                self.fcache[key] = (False, pc, cs)
                return False
        t = time.time()
        while self.nside < len(self.side):
            self.solver.add(self.side[self.nside])
            self.nside += 1
        self.solver.push()
        for c in pc:
            self.solver.add(c)
        for c in cs:
            self.solver.add(c)
        res = self.solver.check()
        self.solver.pop()
        self.nq += 1
        self.tq += time.time() - t
        # unknown is treated as feasible (the path is explored)
        r = res != z3.unsat
        self.fcache[key] = (r, pc, cs)
        return r

    def values_of(self, st, expr, w, limit=300):
        """all feasible values of expr under the path condition (None if more than limit)"""
        s = self.solver
        while self.nside < len(self.side):
            s.add(self.side[self.nside])
            self.nside += 1
        out = []
        t = time.time()
        s.push()
        for c in st.pc:
            s.add(c)
        while True:
            self.nq += 1
            r = s.check()
            if r == z3.unsat:
                break
            if r == z3.unknown:
                s.pop()
                raise Budget('solver gave up while enumerating an address or size')
            v = s.model().eval(expr, model_completion=True).as_long()
            out.append(v)
            if len(out) > limit:
                s.pop()
                return None
            s.add(expr != v)
        s.pop()
        self.tq += time.time() - t
        return out

    def concretize(self, st, x, why, w=64):
        if isinstance(x, int):
            return x
        if x is UNDEF:
            raise NeedSplit(None, 'undefined value used as ' + why)
        s = z3.simplify(x)
        if z3.is_bv_value(s):
            return s.as_long()
        vals = self.values_of(st, x, w, 64)
        if vals is not None and len(vals) == 1:
            return vals[0]
        raise NeedSplit(x, why, st)

    # ------------------------------------------------------------------ memory
    def alloc(self, st, size, align, kind, name, data=None, ro=False, skew=0):
        a = max(align, 64)
        base = (self.next_base + a - 1) // a * a
        self.next_base = (base + size + GAP) // 4096 * 4096
        # make the address have exactly the promised alignment, not more
        base += skew if skew else (align if align < 64 else 0)
        o = Obj(base, size, align, kind, name, data, ro)
        o.owner = st
        st.mem[base] = o
        self.bases.append(base)
        return o

    # objects of symbolic size: contents are an array indexed by element, every access is checked against the length
    def alloc_big(self, st, esz, length, limit, name, arr, ro):
        base = (1 << 45) + len(self.bigs) * (1 << 43) + esz
        o = Obj(base, 0, esz, 'big', name, [], ro)
        o.owner = st
        o.arr = (bigmem.Mem(arr), esz, length, limit)
        st.mem[base] = o
        self.bigs.append(base)
        self.touched[name] = []
        return o

    def big_of(self, st, addr):
        """base of the symbolic-size object that addr points into (None: an ordinary object)"""
        if not self.bigs:
            return None
        if isinstance(addr, int):
            v = addr
        elif addr is UNDEF:
            return None
        else:
            t = z3.simplify(addr)
            if z3.is_bv_value(t):
                v = t.as_long()
            else:
                vs = decide_vars(t)
                v = z3.simplify(z3.substitute(t, *[(x, z3.BitVecVal(0, x.size()) if z3.is_bv(x) else z3.BoolVal(False)) for x in vs]))
                if not z3.is_bv_value(v):
                    return None
                v = v.as_long()
        for b in self.bigs:
            if b - (1 << 41) <= v < b + (1 << 42):
                return b
        return None

    def big_index(self, st, base, addr, n, align, what):
        """(object, element index, element count) of an in-bounds access"""
        o = st.mem[base]
        arr, esz, ln, limit = o.arr
        a = tobv(addr, 64)
        off = z3.simplify(a - z3.BitVecVal(base, 64))
        size = z3.simplify(ln * z3.BitVecVal(esz, 64))
        bad = z3.BoolVal(False)
        if not (bigmem.lint(off) and bigmem.complin('ule', off + z3.BitVecVal(n, 64), size) == 1):
            bad = z3.simplify(z3.Not(z3.And(z3.ULE(z3.BitVecVal(n, 64), size), z3.ULE(off, size - z3.BitVecVal(n, 64)))))
        if not z3.is_false(bad) and self.feasible(st.pc, bad):
            # a pointer that is sometimes into another live object is not an out-of-bounds access
            for v in self.values_of_some(st, a, bad):
                q = self.find(st, v)
                if q is not None and 0 <= v - q.base < q.size:
                    raise Unsupported('pointer to one of several objects, one of symbolic size')
            self.ub(st, 'out-of-bounds %s: %d bytes of %s' % (what, n, o.name), bad)
        if what == 'store' and o.ro:
            self.ub(st, 'store to read-only object %s' % o.name)
        k = esz.bit_length() - 1
        if n % esz:
            raise Unsupported('access of part of an element of %s' % o.name)
        if k:
            low = z3.simplify(z3.Extract(k - 1, 0, off))
            d, c0 = bigmem.lin(off)
            if all(q % esz == 0 for q, _ in d.values()):
                low = z3.BitVecVal(c0 % esz, k)
            if not z3.is_bv_value(low):
                if self.feasible(st.pc, low != 0):
                    raise Unsupported('access of part of an element of %s' % o.name)
            elif low.as_long():
                raise Unsupported('access of part of an element of %s' % o.name)
        if align > esz:
            self.ub(st, 'misaligned %s of %s' % (what, o.name))
        ix = bigmem.shr(off, k, lambda c: self.feasible(st.pc, c)) if k else off
        return o, ix, n // esz

    def values_of_some(self, st, expr, cond):
        s = self.solver
        s.push()
        for c in st.pc + (cond,):
            s.add(c)
        out = []
        for _ in range(4):
            if s.check() != z3.sat:
                break
            v = s.model().eval(expr, model_completion=True).as_long()
            out.append(v)
            s.add(expr != v)
        s.pop()
        return out

    def big_read(self, st, base, addr, n, align, what):
        o, ix, m = self.big_index(st, base, addr, n, align, what)
        arr, esz, ln, limit = o.arr
        out = []
        for j in range(m):
            i = z3.simplify(ix + j)
            self.touched[o.name].append(i)
            t = arr.read(i)
            if z3.is_bv_value(t):
                t = t.as_long()
            out += to_bytes(t, esz * 8)
        return out

    def big_write(self, st, base, addr, bs, align):
        o, ix, m = self.big_index(st, base, addr, len(bs), align, 'store')
        o = st.writable(base)
        arr, esz, ln, limit = o.arr
        items = []
        for j in range(m):
            i = z3.simplify(ix + j)
            self.touched[o.name].append(i)
            items.append((i, tobv(from_bytes(bs[j * esz:j * esz + esz]), esz * 8)))
        o.arr = (arr.write(items), esz, ln, limit)

    def find(self, st, addr):
        i = bisect.bisect_right(self.bases, addr) - 1
        if i < 0:
            return None
        b = self.bases[i]
        if addr - b > GAP // 2 and i + 1 < len(self.bases) and self.bases[i + 1] - addr < GAP // 4:
            b = self.bases[i + 1]
        return st.mem.get(b) or self.globals_obj.get(b)

    def ub(self, st, msg, cond=1):
        """record undefined behaviour reached under cond; returns with the path restricted to not cond"""
        if cond is UNDEF:
            cond = tobool(cond)
        if isinstance(cond, int) and not cond:
            return
        pc = st.pc if isinstance(cond, int) else st.pc + (cond,)
        if self.feasible(pc):
            self.outcomes.append(('ub', msg, pc, st, None))
        if isinstance(cond, int):
            raise DeadPath()
        neg = z3.Not(cond)
        if not self.feasible(st.pc, neg):
            raise DeadPath()
        st.pc = st.pc + (neg,)

    def check_access(self, st, addr, size, align, what):
        if size == 0:
            return None, 0
        o = self.find(st, addr)
        if o is None:
            self.ub(st, '%s of %d bytes at an address that belongs to no live object' % (what, size))
        off = addr - o.base
        if off < 0 or off + size > o.size:
            self.ub(st, 'out-of-bounds %s: %d bytes at offset %d of %s (%d bytes)' % (
                what, size, off, o.name, o.size))
        if align > 1 and addr % align:
            self.ub(st, 'misaligned %s: align %d, offset %d of %s' % (what, align, off, o.name))
        if what == 'store' and o.ro:
            self.ub(st, 'store to read-only object %s' % o.name)
        return o, off

    def read_bytes(self, st, addr, n, align=1, what='load'):
        if n == 0:
            return []
        if self.bigs:
            b = self.big_of(st, addr)
            if b is not None:
                return self.big_read(st, b, addr, n, align, what)
        if not isinstance(addr, int):
            addr = self.addr_concrete(st, addr)
            if isinstance(addr, list):
                acc = None
                for a, cond in addr:
                    bs = self.read_bytes_guard(st, a, n, align, cond, what)
                    if bs is None:
                        continue
                    acc = bs if acc is None else self.merge_bytes(cond, bs, acc)
                if acc is None:
                    raise DeadPath()
                return acc
        o, off = self.check_access(st, addr, n, align, what)
        return o.data[off:off + n]

    def read_bytes_guard(self, st, a, n, align, cond, what):
        s2 = st.clone()
        s2.pc = s2.pc + (cond,)
        try:
            return self.read_bytes(s2, a, n, align, what)
        except DeadPath:
            st.pc = st.pc + (z3.Not(cond),)
            return None

    def addr_concrete(self, st, addr):
        """int, or list of (value, condition)"""
        if addr is UNDEF:
            self.ub(st, 'undefined value used as an address')
        s = z3.simplify(addr)
        if z3.is_bv_value(s):
            return s.as_long()
        vals = self.values_of(st, addr, 64, 130)
        if vals is None:
            raise NeedSplit(addr, 'address', st)
        if not vals:
            raise DeadPath()
        if len(vals) == 1:
            return vals[0]
        return [(v, addr == v) for v in vals]

    def write_bytes(self, st, addr, bs, align=1):
        n = len(bs)
        if n == 0:
            return
        if self.bigs:
            b = self.big_of(st, addr)
            if b is not None:
                return self.big_write(st, b, addr, bs, align)
        if not isinstance(addr, int):
            addr = self.addr_concrete(st, addr)
            if isinstance(addr, list):
                for a, cond in addr:
                    s2 = st.clone()
                    s2.pc = s2.pc + (cond,)
                    try:
                        old = self.read_bytes(s2, a, n, align, 'store')
                    except DeadPath:
                        st.pc = st.pc + (z3.Not(cond),)
                        continue
                    new = self.merge_bytes(cond, bs, old)
                    o = st.writable(self.find(st, a).base)
                    o.data[a - o.base:a - o.base + n] = new
                return
        o, off = self.check_access(st, addr, n, align, 'store')
        o = st.writable(o.base)
        o.data[off:off + n] = bs

    def merge_bytes(self, g, a, b):
        """per-byte ite(g, a, b), keeping whole terms together"""
        n = len(a)
        out = list(b)
        i = 0
        while i < n:
            x, y = a[i], b[i]
            if x is y or same_byte(x, y):
                i += 1
                continue
            # maximal chunk that forms a whole term on at least one side
            ln = 1
            for z in (x, y):
                if isinstance(z, tuple) and z[1] == 0:
                    ln = max(ln, z[0].size() // 8)
            if ln == 1 and not isinstance(x, tuple) and not isinstance(y, tuple):
                pass
            if i + ln > n:
                ln = 1
            if ln > 1:
                # use the chunk only if no byte outside breaks it
                for z in (a, b):
                    last = z[i + ln - 1]
                    if isinstance(last, tuple) and last[1] + 1 < last[0].size() // 8 and not (
                            isinstance(z[i], tuple) and z[i][0].eq(last[0])):
                        ln = 1
                        break
            w = 8 * ln
            v = ite(g, from_bytes(a[i:i + ln]), from_bytes(b[i:i + ln]), w)
            out[i:i + ln] = to_bytes(v, w)
            i += ln
        return out

    # typed load/store
    def flatten(self, mod, ty, v, buf, off):
        k = ty[0]
        if k == 'i':
            sz = mod.size_align(ty)[0]
            w = ty[1]
            if w % 8:
                v = zext(v, w, sz * 8) if v is not UNDEF else UNDEF
            bs = to_bytes(v if v is UNDEF or isinstance(v, int) else v, (w + 7) // 8 * 8)
            buf[off:off + len(bs)] = bs
        elif k == 'f':
            bs = to_bytes(v, ty[1])
            buf[off:off + len(bs)] = bs
        elif k == 'p':
            buf[off:off + 8] = to_bytes(v, 64)
        elif k == 'v':
            e = ty[2]
            if v is UNDEF:
                return
            if e[0] == 'i' and e[1] % 8:
                x = self.pack_lanes(ty, v)
                n = mod.size_align(ty)[0]
                buf[off:off + n] = to_bytes(zext(x, ty[1] * e[1], n * 8) if ty[1] * e[1] < n * 8 else x, n * 8)
                return
            s = mod.size_align(e)[0]
            w = s * 8
            for i, x in enumerate(v):
                buf[off + i * s:off + i * s + s] = to_bytes(x, w)
        elif k == 'a':
            if v is UNDEF:
                return
            s = mod.size_align(ty[2])[0]
            if isinstance(v, list):
                for i, x in enumerate(v):
                    self.flatten(mod, ty[2], x, buf, off + i * s)
        elif k == 's':
            if v is UNDEF:
                return
            for i, e in enumerate(ty[1]):
                self.flatten(mod, e, v[i], buf, off + mod.field_off(ty, i))
        elif k == 'n':
            self.flatten(mod, mod.resolve(ty), v, buf, off)
        else:
            raise Unsupported('flatten %r' % (ty,))

    def unflatten(self, mod, ty, bs, off):
        k = ty[0]
        if k == 'i':
            w = ty[1]
            n = (w + 7) // 8
            v = from_bytes(bs[off:off + n])
            return v if w == n * 8 else trunc(v, n * 8, w)
        if k == 'f':
            return from_bytes(bs[off:off + ty[1] // 8])
        if k == 'p':
            return from_bytes(bs[off:off + 8])
        if k == 'v':
            e = ty[2]
            if e[0] == 'i' and e[1] % 8:
                n = mod.size_align(ty)[0]
                return self.unpack_lanes(ty, from_bytes(bs[off:off + n]), n * 8)
            s = mod.size_align(e)[0]
            return [from_bytes(bs[off + i * s:off + i * s + s]) for i in range(ty[1])]
        if k == 'a':
            s = mod.size_align(ty[2])[0]
            return [self.unflatten(mod, ty[2], bs, off + i * s) for i in range(ty[1])]
        if k == 's':
            return [self.unflatten(mod, e, bs, off + mod.field_off(ty, i)) for i, e in enumerate(ty[1])]
        if k == 'n':
            return self.unflatten(mod, mod.resolve(ty), bs, off)
        raise Unsupported('unflatten %r' % (ty,))

    def pack_lanes(self, ty, v):
        """vector of odd-width ints (i1 masks) -> one integer"""
        w = ty[2][1]
        if all(isinstance(x, int) for x in v):
            r = 0
            for i, x in enumerate(v):
                r |= x << (i * w)
            return r
        return z3.Concat(*[tobv(x, w) for x in reversed(v)]) if len(v) > 1 else tobv(v[0], w)

    def unpack_lanes(self, ty, x, tw):
        n, w = ty[1], ty[2][1]
        if isinstance(x, int):
            return [(x >> (i * w)) & M(w) for i in range(n)]
        if x is UNDEF:
            return [UNDEF] * n
        out = []
        for i in range(n):
            e = z3.Extract(i * w + w - 1, i * w, x)
            out.append(e == 1 if w == 1 else e)
        return out

    def load(self, st, mod, ty, addr, align=1):
        n = mod.size_align(ty)[0]
        if ty[0] == 'i' and ty[1] % 8 == 0:
            n = ty[1] // 8
        if n == 0:
            return self.unflatten(mod, ty, [], 0)
        bs = self.read_bytes(st, addr, n, align)
        return self.unflatten(mod, ty, bs, 0)

    def store(self, st, mod, ty, v, addr, align=1):
        n = mod.size_align(ty)[0]
        if ty[0] == 'i' and ty[1] % 8 == 0:
            n = ty[1] // 8
        buf = [None] * n
        self.flatten(mod, ty, v, buf, 0)
        self.write_bytes(st, addr, buf, align)

    def memcpy(self, st, dst, src, n):
        n = self.concretize(st, n, 'copy length')
        if n == 0:
            return
        bs = self.read_bytes(st, src, n)
        self.write_bytes(st, dst, list(bs))

    # ------------------------------------------------------------------ globals / functions
    def find_func(self, name):
        r = self.findcache.get(name)
        if r is None:
            for m in self.modules:
                if name in m.defs:
                    r = m.func(name)
                    break
            else:
                r = False
            self.findcache[name] = r
        return r or None

    def func_address(self, name):
        a = self.fn_addr.get(name)
        if a is None:
            a = 0x1000 + 16 * len(self.fn_addr)
            self.fn_addr[name] = a
            self.addr_fn[a] = name
        return a

    def global_addr(self, mod, name):
        key = (mod.name, name)
        a = self.globals.get(key)
        if a is not None:
            return a
        g = mod.global_def(name)
        m = mod
        if g is None or g[1] is None:
            for m2 in self.modules:
                g2 = m2.global_def(name)
                if g2 is not None and g2[1] is not None:
                    g, m = g2, m2
                    break
        if g is None:
            return self.func_address(name)
        ty, init, al = g
        if (m.name, name) in self.globals:
            a = self.globals[key] = self.globals[(m.name, name)]
            return a
        size = max(m.size_align(ty)[0], 1)
        a0 = max(al, 64)
        base = (self.next_base + a0 - 1) // a0 * a0 + (al if al < 64 else 0)
        self.next_base = (base + size + GAP) // 4096 * 4096
        o = Obj(base, size, al, 'global', '@' + name[-40:])
        self.bases.append(base)
        self.globals[key] = base
        self.globals[(m.name, name)] = base
        if init is not None:
            v = self.val(m, None, ty, init)
            buf = [0] * size
            self.flatten(m, ty, v, buf, 0)
            o.data = buf
        self.globals_obj[base] = o
        return base

    # ------------------------------------------------------------------ operands
    def val(self, mod, regs, ty, o):
        k = o[0]
        if k == 'r':
            return regs[o[1]]
        if k == 'c':
            return o[1]
        if k == 'fc':
            return self.fp.const(o)
        if k == 'u':
            return self.undef(mod, ty)
        if k == 'g':
            if self.find_func(o[1]) is not None or any(o[1] in m.decls for m in self.modules):
                return self.func_address(o[1])
            return self.global_addr(mod, o[1])
        if k == 'agg':
            t = mod.resolve(ty)
            if t[0] in 'va':
                return [self.val(mod, regs, t[2], x) for x in o[1]]
            return [self.val(mod, regs, e, x) for e, x in zip(t[1], o[1])]
        if k == 'e':
            if o[1] == 'gep':
                return self.gep(mod, regs, o[2], o[3])
            if o[1] == 'cast':
                return self.cast(mod, o[2], o[3], self.val(mod, regs, o[3], o[4]), o[5])
            if o[1] == 'bin':
                return self.bin(None, mod, o[2], o[3], self.val(mod, regs, o[3], o[4]), self.val(mod, regs, o[3], o[5]))
            if o[1] == 'icmp':
                return self.icmp(o[2], o[3], self.val(mod, regs, o[3], o[4]), self.val(mod, regs, o[3], o[5]))
            if o[1] == 'select':
                c = self.val(mod, regs, o[2], o[3])
                return self.val(mod, regs, ty, o[4] if c else o[5])
        raise Unsupported('operand %r' % (o,))

    def undef(self, mod, ty):
        t = mod.resolve(ty)
        if t[0] in 'va':
            return [self.undef(mod, t[2]) for _ in range(t[1])]
        if t[0] == 's':
            return [self.undef(mod, e) for e in t[1]]
        return UNDEF

    def gep(self, mod, regs, sty, args):
        base = self.val(mod, regs, args[0][0], args[0][1])
        if isinstance(base, list):
            raise Unsupported('vector gep')
        ty = sty
        acc = 0
        for n, (ity, iop) in enumerate(args[1:]):
            iv = self.val(mod, regs, ity, iop)
            if n == 0:
                sz = mod.size_align(ty)[0]
            else:
                rt = mod.resolve(ty)
                if rt[0] == 's':
                    acc = binop('add', acc, mod.field_off(rt, iv), 64)
                    ty = rt[1][iv]
                    continue
                ty = rt[2]
                sz = mod.size_align(ty)[0]
            if ity[1] != 64:
                iv = sext(iv, ity[1], 64)
            acc = binop('add', acc, binop('mul', iv, sz, 64), 64)
        return binop('add', base, acc, 64)

    def width(self, mod, ty):
        k = ty[0]
        if k in 'if':
            return ty[1]
        if k == 'p':
            return 64
        raise Unsupported('width of %r' % (ty,))

    def tobits(self, mod, ty, v):
        """value of any first-class scalar/vector type -> bytes or (int of odd width)"""
        n = mod.size_align(ty)[0]
        buf = [None] * n
        self.flatten(mod, ty, v, buf, 0)
        return buf

    def cast(self, mod, op, a, v, b):
        if a[0] == 'v' and b[0] == 'v' and op != 'bitcast':
            return [self.cast(mod, op, a[2], x, b[2]) for x in v]
        if op == 'bitcast':
            if a == b or (a[0] == 'p' and b[0] == 'p'):
                return v
            if a[0] in 'if' and b[0] in 'if':
                return v
            return self.unflatten(mod, b, self.tobits(mod, a, v), 0)
        if op in ('ptrtoint', 'inttoptr'):
            wa, wb = self.width(mod, a), self.width(mod, b)
            return v if wa == wb else (trunc(v, wa, wb) if wb < wa else zext(v, wa, wb))
        if op == 'trunc':
            return trunc(v, a[1], b[1])
        if op == 'zext':
            return zext(v, a[1], b[1])
        if op == 'sext':
            return sext(v, a[1], b[1])
        return self.fp.cast(op, a, v, b)

    def bin(self, st, mod, op, ty, a, b, flags=()):
        if ty[0] == 'v':
            e = ty[2]
            if e[0] == 'f':
                return [self.fp.bin(op, x, y, e[1]) for x, y in zip(a, b)]
            w = e[1]
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                for y in b:
                    self.div_check(st, y, w)
            return [binop(op, x, y, w) for x, y in zip(a, b)]
        if ty[0] == 'f':
            return self.fp.bin(op, a, b, ty[1])
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.div_check(st, b, ty[1])
        return binop(op, a, b, ty[1])

    def div_check(self, st, b, w):
        if isinstance(b, int):
            if b == 0:
                self.ub(st, 'division by zero')
        elif st is not None:
            self.ub(st, 'division by zero', tobv(b, w) == 0)

    def icmp(self, pred, ty, a, b):
        if ty[0] == 'v':
            e = ty[2]
            w = 64 if e[0] == 'p' else e[1]
            return [bv.icmp(pred, x, y, w) for x, y in zip(a, b)]
        return bv.icmp(pred, a, b, 64 if ty[0] == 'p' else ty[1])

    def select(self, mod, ty, c, a, b):
        if ty[0] == 'n':
            ty = mod.resolve(ty)
        if ty[0] in 'va':
            if isinstance(c, list):
                return [self.select(mod, ty[2], x, y, z) for x, y, z in zip(c, a, b)]
            return [self.select(mod, ty[2], c, y, z) for y, z in zip(a, b)]
        if ty[0] == 's':
            return [self.select(mod, e, c, y, z) for e, y, z in zip(ty[1], a, b)]
        return ite(c, a, b, self.width(mod, ty))

    # ------------------------------------------------------------------ execution
    def call_function(self, st, f, args):
        """-> list of (state, return value)"""
        regs = {}
        self.functions.add(f.name)
        if self.isa is not None:
            self.check_isa(st, f)
        allocs = []
        for (nm, ty, byval), v in zip(f.params, args):
            regs[nm] = v
        if f.ipdom is None:
            f.ipdom = compute_ipdom(f)
        res = self.run(f, regs, st, f.entry, 0, None, None, allocs)
        outs = [(r[1], r[2]) for r in res]
        if allocs:
            for s, _ in outs:
                for b in allocs:
                    s.mem.pop(b, None)
        if len(outs) > 1:
            outs = self.merge_many(f.mod, f.ret, outs)
        return outs

    def check_isa(self, st, f):
        """code of a function that needs an extension the processor lacks is reached"""
        need = self.isa_memo.get(id(f))
        if need is None:
            m = re.search(r'"target-features"="([^"]*)"', f.attrs)
            need = sorted(x[1:] for x in m.group(1).split(',') if x[0] == '+' and x[1:] not in self.isa) if m else []
            self.isa_memo[id(f)] = need
        if need:
            if self.feasible(st.pc):
                self.outcomes.append(('isa', '%s|%s' % (f.name, ' '.join(need)), st.pc, st, None))
            raise DeadPath()

    def merge_many(self, mod, ty, outs):
        done = []
        for s, v in outs:
            for k, (s2, v2) in enumerate(done):
                m = self.merge2(mod, [(ty, v2, v)] if ty[0] != 'void' else [], s2, s)
                if m is not None:
                    done[k] = (m[0], m[1][0] if ty[0] != 'void' else None)
                    break
            else:
                done.append((s, v))
        return done

    def merge2(self, mod, vals, s1, s2):
        """merge two states; vals: list of (type, v1, v2).  None if not mergeable"""
        if s1.trace is not s2.trace and s1.trace != s2.trace:
            return None
        if s1.mem.keys() != s2.mem.keys():
            # objects present on one side only: mergeable if they were allocated (not freed) there
            common = s1.mem.keys() & s2.mem.keys()
            lim = self.merge_base(s1, s2)
            for b in (s1.mem.keys() ^ s2.mem.keys()):
                if b < lim:
                    return None
        i = 0
        n = min(len(s1.pc), len(s2.pc))
        while i < n and s1.pc[i].eq(s2.pc[i]):
            i += 1
        e1, e2 = s1.pc[i:], s2.pc[i:]
        if not e1 or not e2:
            return None
        g1 = e1[0] if len(e1) == 1 else z3.And(*e1)
        g2 = e2[0] if len(e2) == 1 else z3.And(*e2)
        try:
            mv = [self.select(mod, ty, g1, a, b) if ty[0] != 'void' else None for ty, a, b in vals]
        except Unsupported:
            return None
        s = State()
        s.trace = s1.trace
        s.pc = s1.pc[:i]
        if not (len(e1) == 1 and len(e2) == 1 and (is_neg(e1[0], e2[0]))):
            # when both share a first complementary condition, keep only the remainder
            s.pc = s.pc + (z3.Or(g1, g2),)
        for b, o1 in s1.mem.items():
            o2 = s2.mem.get(b)
            if o2 is None or o1 is o2:
                s.mem[b] = o1
                continue
            o = Obj(o1.base, o1.size, o1.align, o1.kind, o1.name, self.merge_bytes(g1, o1.data, o2.data), o1.ro)
            o.arr = o1.arr
            if o1.arr and o1.arr[0] is not o2.arr[0]:
                o.arr = (o1.arr[0].merge(g1, o2.arr[0]),) + o1.arr[1:]
            o.owner = s
            s.mem[b] = o
        for b, o2 in s2.mem.items():
            if b not in s.mem:
                s.mem[b] = o2
        return s, mv

    def merge_base(self, s1, s2):
        # any object created before the common prefix is older than the branch; we cannot know the
        # exact point, so require one-sided objects to be heap/alloca objects never shared
        common = s1.mem.keys() & s2.mem.keys()
        return max(common) if common else 0

    def budget(self):
        if self.steps > self.max_steps:
            raise Budget('more than %d instructions' % self.max_steps)
        if self.deadline and time.time() > self.deadline:
            raise Budget('time limit')

    def enter(self, f, regs, st, block, prev):
        """evaluate the phis of block for the edge prev->block; returns index of first non-phi"""
        ins = f.blocks[block]
        if ins[0][0] != 'phi':
            return 0
        vals = []
        i = 0
        for x in ins:
            if x[0] != 'phi':
                break
            vals.append((x[1], self.val(f.mod, regs, x[2], x[3][prev])))
            i += 1
        for n, v in vals:
            regs[n] = v
        return i

    def run(self, f, regs, st, block, idx, prev, stop, allocs):
        """execute from (block, idx); -> list of ('ret', st, val) | ('stop', st, regs)"""
        mod = f.mod
        while True:
            ins_list = f.blocks[block]
            n = len(ins_list)
            nxt = None
            while idx < n:
                ins = ins_list[idx]
                op = ins[0]
                self.steps += 1
                if self.steps & 0xfff == 0:
                    self.budget()
                try:
                    if op == 'br':
                        nxt = ins[2]
                        break
                    elif op == 'cbr':
                        c = self.val(mod, regs, irparse.I1, ins[2])
                        if not isinstance(c, int):
                            r = self.branch(f, regs, st, block, [(tobool(c), ins[3]), (None, ins[4])], stop, allocs)
                            if r[0] == 'goto':
                                nxt = r[1]
                                st = r[2]
                                break
                            return r[1]
                        nxt = ins[3] if c else ins[4]
                        break
                    elif op == 'switch':
                        v = self.val(mod, regs, ins[2], ins[3])
                        if isinstance(v, int):
                            nxt = ins[4]
                            for cv, b in ins[5]:
                                if cv == v:
                                    nxt = b
                                    break
                            break
                        w = ins[2][1]
                        x = tobv(v, w)
                        tg = {}
                        conds = []
                        for cv, b in ins[5]:
                            c = x == cv
                            conds.append(c)
                            tg.setdefault(b, []).append(c)
                        arms = []
                        dflt = z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True)
                        tg.setdefault(ins[4], []).append(dflt)
                        for b, cs in tg.items():
                            arms.append((cs[0] if len(cs) == 1 else z3.Or(*cs), b))
                        r = self.branch(f, regs, st, block, arms, stop, allocs)
                        if r[0] == 'goto':
                            nxt = r[1]
                            st = r[2]
                            break
                        return r[1]
                    elif op == 'ret':
                        v = None if ins[3] is None else self.val(mod, regs, ins[2], ins[3])
                        return [('ret', st, v)]
                    elif op == 'call':
                        rs = self.call(f, regs, st, ins)
                        if rs is None:
                            return []
                        normal = ins[5]
                        if len(rs) == 1:
                            st, rv = rs[0]
                            if ins[1] is not None:
                                regs[ins[1]] = rv
                            if normal is not None:
                                nxt = normal
                                break
                            idx += 1
                            continue
                        out = []
                        for s2, rv in rs:
                            r2 = dict(regs)
                            if ins[1] is not None:
                                r2[ins[1]] = rv
                            if normal is not None:
                                out += self.goto(f, r2, s2, block, normal, stop, allocs)
                            else:
                                out += self.run(f, r2, s2, block, idx + 1, prev, stop, allocs)
                        self.npaths(len(out))
                        return out
                    elif op == 'unreachable':
                        self.ub(st, 'unreachable code reached in %s' % f.name[-60:])
                    else:
                        self.simple(f, mod, regs, st, ins, allocs)
                    idx += 1
                except DeadPath:
                    return []
            if nxt is None:
                raise Unsupported('block without terminator')
            if nxt == stop:
                self.enter(f, regs, st, nxt, block)
                return [('stop', st, regs)]
            idx = self.enter(f, regs, st, nxt, block)
            prev = block
            block = nxt

    def npaths(self, k):
        if k > self.max_paths:
            raise Budget('more than %d paths' % self.max_paths)

    def goto(self, f, regs, st, frm, to, stop, allocs):
        if to == stop:
            self.enter(f, regs, st, to, frm)
            return [('stop', st, regs)]
        i = self.enter(f, regs, st, to, frm)
        return self.run(f, regs, st, to, i, frm, stop, allocs)

    def branch(self, f, regs, st, block, arms, stop, allocs):
        # arms: list of (cond or None, target); a None condition is the negation of the first
        arms = [(c if c is not None else neg(arms[0][0]), t) for c, t in arms]
        live = [(c, t) for c, t in arms if self.feasible(st.pc, c)]
        if not live:
            return ('done', [])
        if len(live) == 1:
            return ('goto', live[0][1], st)
        J = f.ipdom[block]
        inner = stop if (J is None or J == stop) else J
        results = []
        for k, (c, t) in enumerate(live):
            s2 = st.clone()
            s2.pc = s2.pc + (c,)
            results += self.goto(f, dict(regs), s2, block, t, inner, allocs)
        stops = [r for r in results if r[0] == 'stop']
        rest = [r for r in results if r[0] != 'stop']
        if inner is None:
            return ('done', rest)
        merged = self.merge_stops(f, regs, stops, inner)
        if inner == stop:
            return ('done', rest + merged)
        out = rest
        i0 = 0
        for x in f.blocks[inner]:
            if x[0] != 'phi':
                break
            i0 += 1
        for _, s2, r2 in merged:
            out += self.run(f, r2, s2, inner, i0, block, stop, allocs)
        self.npaths(len(out))
        return ('done', out)

    def merge_stops(self, f, base, stops, J):
        phis = [(x[1], x[2]) for x in f.blocks[J] if x[0] == 'phi']
        done = []
        for r in stops:
            for k, d in enumerate(done):
                names = [n for n, _ in phis]
                # registers of the enclosing loop/blocks that were redefined inside the arms
                extra = [n for n in d[2] if n not in names and n in r[2] and d[2][n] is not r[2][n]
                         and n in base]
                vals = [(t, d[2][n], r[2][n]) for n, t in phis]
                m = self.merge2(f.mod, vals, d[1], r[1])
                if m is None:
                    continue
                regs = {n: v for n, v in d[2].items() if n in base}
                for n in extra:
                    regs[n] = d[2][n]
                for (n, _), v in zip(phis, m[1]):
                    regs[n] = v
                done[k] = ('stop', m[0], regs)
                break
            else:
                done.append(r)
        return done

    # ------------------------------------------------------------------ simple instructions
    def simple(self, f, mod, regs, st, ins, allocs):
        op = ins[0]
        d = ins[1]
        V = self.val
        if op == 'load':
            regs[d] = self.load(st, mod, ins[2], V(mod, regs, irparse.PTR, ins[3]), ins[4])
        elif op == 'store':
            self.store(st, mod, ins[2], V(mod, regs, ins[2], ins[3]), V(mod, regs, irparse.PTR, ins[4]), ins[5])
        elif op == 'gep':
            regs[d] = self.gep(mod, regs, ins[2], ins[3])
        elif op == 'cast':
            regs[d] = self.cast(mod, ins[2], ins[3], V(mod, regs, ins[3], ins[4]), ins[5])
        elif op == 'bin':
            regs[d] = self.bin(st, mod, ins[2], ins[3], V(mod, regs, ins[3], ins[4]), V(mod, regs, ins[3], ins[5]))
        elif op == 'icmp':
            regs[d] = self.icmp(ins[2], ins[3], V(mod, regs, ins[3], ins[4]), V(mod, regs, ins[3], ins[5]))
        elif op == 'fcmp':
            ty = ins[3]
            a, b = V(mod, regs, ty, ins[4]), V(mod, regs, ty, ins[5])
            if ty[0] == 'v':
                regs[d] = [self.fp.cmp(ins[2], x, y, ty[2][1]) for x, y in zip(a, b)]
            else:
                regs[d] = self.fp.cmp(ins[2], a, b, ty[1])
        elif op == 'fneg':
            ty = ins[2]
            a = V(mod, regs, ty, ins[3])
            regs[d] = [self.fp.neg(x, ty[2][1]) for x in a] if ty[0] == 'v' else self.fp.neg(a, ty[1])
        elif op == 'select':
            regs[d] = self.select(mod, ins[4], V(mod, regs, ins[2], ins[3]), V(mod, regs, ins[4], ins[5]),
                                  V(mod, regs, ins[4], ins[6]))
        elif op == 'alloca':
            ty = ins[2]
            cnt = V(mod, regs, irparse.I64, ins[3])
            size, al = mod.size_align(ty)
            o = self.alloc(st, size * cnt, ins[4] or al, 'stack', 'local %' + str(d))
            allocs.append(o.base)
            regs[d] = o.base
        elif op == 'extractvalue':
            v = V(mod, regs, ins[2], ins[3])
            for i in ins[4]:
                v = UNDEF if v is UNDEF else v[i]
            regs[d] = v
        elif op == 'insertvalue':
            v = V(mod, regs, ins[2], ins[3])
            x = V(mod, regs, ins[4], ins[5])
            regs[d] = self.insertval(v, x, ins[6])
        elif op == 'extractelement':
            v = V(mod, regs, ins[2], ins[3])
            i = V(mod, regs, ins[4], ins[5])
            n = ins[2][1]
            w = self.width(mod, ins[2][2])
            if isinstance(i, int):
                if i >= n:
                    self.ub(st, 'extractelement index %d of a %d-lane vector' % (i, n))
                regs[d] = v[i]
            else:
                iw = ins[4][1]
                i = tobv(i, iw)
                self.ub(st, 'extractelement index out of a %d-lane vector' % n, z3.UGE(i, z3.BitVecVal(n, iw)))
                r = v[n - 1]
                for k in range(n - 2, -1, -1):
                    r = ite(i == k, v[k], r, w)
                regs[d] = r
        elif op == 'insertelement':
            v = V(mod, regs, ins[2], ins[3])
            x = V(mod, regs, ins[2][2], ins[4])
            i = V(mod, regs, ins[5], ins[6])
            n = ins[2][1]
            w = self.width(mod, ins[2][2])
            v = list(v)
            if isinstance(i, int):
                if i >= n:
                    self.ub(st, 'insertelement index %d of a %d-lane vector' % (i, n))
                v[i] = x
            else:
                iw = ins[5][1]
                i = tobv(i, iw)
                self.ub(st, 'insertelement index out of a %d-lane vector' % n, z3.UGE(i, z3.BitVecVal(n, iw)))
                v = [ite(i == k, x, v[k], w) for k in range(n)]
            regs[d] = v
        elif op == 'shufflevector':
            a = V(mod, regs, ins[2], ins[3])
            b = V(mod, regs, ins[2], ins[4])
            mk = V(mod, regs, ins[5], ins[6])
            ab = list(a) + list(b)
            regs[d] = [UNDEF if m is UNDEF else ab[m] for m in mk]
        elif op == 'freeze':
            v = V(mod, regs, ins[2], ins[3])
            regs[d] = self.freeze(mod, ins[2], v)
        elif op == 'landingpad':
            raise Unsupported('landing pad reached')
        elif op == 'nop':
            pass
        elif op == 'phi':
            raise Unsupported('stray phi')
        else:
            raise Unsupported('instruction %r' % (ins[:3],))

    def freeze(self, mod, ty, v):
        t = mod.resolve(ty)
        if t[0] in 'va':
            return [self.freeze(mod, t[2], x) for x in v]
        if t[0] == 's':
            return [self.freeze(mod, e, x) for e, x in zip(t[1], v)]
        return undef_fix(v, self.width(mod, t))

    def insertval(self, v, x, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insertval(v[idx[0]], x, idx[1:])
        return v

    # ------------------------------------------------------------------ calls
    def call(self, f, regs, st, ins):
        """-> list of (st, value) or None when the call does not return"""
        mod = f.mod
        rt, callee, args = ins[2], ins[3], ins[4]
        if callee[0] == 'g':
            name = callee[1]
        else:
            a = self.val(mod, regs, irparse.PTR, callee)
            a = self.concretize(st, a, 'call target')
            name = self.addr_fn.get(a)
            if name is None:
                self.ub(st, 'call through an invalid function pointer')
        argv = []
        for ty, o, byval in args:
            v = self.val(mod, regs, ty, o)
            if byval is not None:
                n = mod.size_align(byval)[0]
                ob = self.alloc(st, n, 16, 'stack', 'byval')
                self.memcpy(st, ob.base, v, n)
                v = ob.base
            argv.append(v)
        ext = self.externals.get(name)
        if ext is None:
            for pre, fn in self.prefix_externals:
                if name.startswith(pre):
                    ext = fn
                    break
        if ext is not None:
            return [(st, ext(self, st, name, argv))]
        if name.startswith('llvm.'):
            r = intrinsics.call(self, mod, st, name, rt, [a[0] for a in args], argv)
            if r is intrinsics.NORETURN:
                self.panic(st, name)
                return None
            return [(st, r)]
        g = self.find_func(name)
        if g is not None and 'noreturn' in g.attrs:
            g = None
            ins = ins[:7] + (True,)
        if g is not None:
            return self.call_function(st, g, argv)
        rte = intrinsics.RUNTIME.get(name) or intrinsics.runtime_by_pattern(name)
        if rte is not None:
            r = rte(self, mod, st, argv)
            return [(st, r)]
        if ins[7] or 'noreturn' in ''.join(m.decl_attrs(name) for m in self.modules) or intrinsics.is_panic(name):
            self.panic(st, name)
            return None
        raise Unsupported('call to external function %s' % name)

    prefix_externals = ()

    def panic(self, st, name):
        self.outcomes.append(('panic', name, st.pc, st, None))

    # ------------------------------------------------------------------ entry
    def run_entry(self, name, st, args):
        f = self.find_func(name)
        if f is None:
            raise Unsupported('no function %s' % name)
        try:
            for s, v in self.call_function(st, f, args):
                self.outcomes.append(('ret', None, s.pc, s, v))
        except DeadPath:
            pass
        return self.outcomes


def neg(c):
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def is_neg(a, b):
    return (z3.is_not(a) and a.arg(0).eq(b)) or (z3.is_not(b) and b.arg(0).eq(a))
