"""Cases, specifications, solving, native replay."""
import os, sys, json, time, random, struct, subprocess, traceback, signal
import z3
from . import irparse, bv, ranges
from . import decide as _decide
from .bv import *
from .symexec import Executor, State, Unsupported, Budget, NeedSplit, DeadPath

ELW = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'f32': 32, 'u64': 64, 'i64': 64, 'f64': 64}
ISF = {'f32', 'f64'}


class In:
    kind = 'in'

    def __init__(self, name, elem, count):
        self.name, self.elem, self.count = name, elem, count


class Out(In):
    """output buffer; its previous contents are symbolic too"""
    kind = 'out'


class InOut(In):
    kind = 'inout'


class Int:
    """integer parameter, case-split over a stated set of values"""
    kind = 'int'

    def __init__(self, name, values):
        self.name, self.values = name, list(values)


class Sym:
    """fully symbolic integer parameter"""
    kind = 'sym'

    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi


class SymSlice:
    """slice of symbolic length and unconstrained contents, passed as a pointer; length: fn(ctx) -> 64-bit term over the
    Sym/Int parameters that come before it in the list"""
    kind = 'symslice'

    def __init__(self, name, elem, length, mut=False):
        self.name, self.elem, self.length, self.mut = name, elem, length, mut


class SymBuf:
    """contents of a SymSlice as a specification sees them"""

    def __init__(self, w, arr=None, con=None, log=None):
        self.w, self.arr, self.con = w, arr, con      # arr: bigmem.Mem
        self.log = log if log is not None else []

    def at(self, ix):
        ix = tobv(ix, 64) if isinstance(ix, int) else ix
        if self.arr is not None:
            ix = z3.simplify(ix)
            self.log.append(ix)
            return self.arr.read(ix)
        ix = z3.simplify(ix)
        if not z3.is_bv_value(ix):
            raise ValueError('index not concrete: %s' % ix)
        return z3.BitVecVal(self.con.get(ix.as_long(), 0), self.w)


    def frame(self, before, inside):
        """[nothing changed except at indices for which inside(index) holds]"""
        g = []
        if self.arr is not None:
            for ix in self.arr.stores:
                e = self.at(ix) == before.at(ix)
                g.append(e if z3.is_true(z3.simplify(e)) else z3.Or(inside(ix), e))
        else:
            for k, v in self.con.items():
                if v != before.con.get(k, 0):
                    g.append(inside(z3.BitVecVal(k, 64)))
        return g


class Case:
    """one harness function and its specification.

    rust   : body of `extern "C" fn(params) -> usize`
    params : In/Out/InOut/Int/Sym
    spec   : fn(ctx) -> list of z3 Bool (must hold on every returning path)
    may_panic / must_panic: fn(ctx) -> Bool/bool; the path may (only then) / must panic
    assume : fn(ctx) -> list of Bool
    """

    def __init__(self, name, rust, params, spec, may_panic=None, must_panic=None, assume=None, fpmode='ieee',
                 cpus=('sse2', 'sse42', 'avx2'), profiles=('rel', 'dbg'), feature=None, what='', uf=None,
                 max_steps=4000000, skip_int=None, items='', tier='quick', timeout=None, group=None, feasible_models=None,
                 solver=None, thorough_ints=None, known=None, bound=None, isa=False):
        self.name, self.rust, self.params, self.spec = name, rust, params, spec
        self.may_panic, self.must_panic, self.assume = may_panic, must_panic, assume
        self.fpmode, self.cpus, self.profiles, self.feature = fpmode, cpus, profiles, feature
        self.what = what
        self.max_steps = max_steps
        self.skip_int = skip_int
        self.items = items
        self.isa = isa               # decide only which instruction-set extensions are needed
        self.tier = tier
        self.timeout = timeout
        self.group = group
        self.solver = solver
        self.thorough_ints = thorough_ints
        self.bound = bound           # fn(ctx) -> {buffer: (lo, hi)}: assumed bounds of its elements (lo < 0: signed)
        self.known = known or {}     # finding id -> fn(ctx) -> Bool: where that finding applies

    def source(self):
        ps = []
        for p in self.params:
            if p.kind == 'in' or (p.kind == 'symslice' and not p.mut):
                ps.append('%s: *const %s' % (p.name, p.elem))
            elif p.kind in ('out', 'inout', 'symslice'):
                ps.append('%s: *mut %s' % (p.name, p.elem))
            else:
                ps.append('%s: usize' % p.name)
        return '%s\n#[no_mangle] pub unsafe extern "C" fn %s(%s) -> usize {\n%s\n}\n' % (
            self.items, self.name, ', '.join(ps), self.rust)

    def int_points(self, tier='quick'):
        pts = [{}]
        for p in self.params:
            if p.kind == 'int':
                vals = p.values
                if tier == 'thorough' and self.thorough_ints and p.name in self.thorough_ints:
                    vals = list(self.thorough_ints[p.name])
                pts = [dict(d, **{p.name: v}) for d in pts for v in vals]
        if self.skip_int:
            pts = [d for d in pts if not self.skip_int(d)]
        return pts


class Ctx:
    """what a specification sees: symbolic (or concrete, on replay) inputs and outputs"""

    def __init__(self, case, config, ints):
        self.case = case
        self.cpu, self.profile = config[0], config[1]
        self.dbg = config[1] == 'dbg'
        self.ints = ints
        self.i = {}       # name -> list of BitVec (inputs; initial content of inout/out)
        self.o = {}       # name -> list of BitVec (final content)
        self.ret = None
        self.trace = []   # list of (tag, [byte terms])
        self.exact = case.fpmode == 'exact'
        self.F = None     # lane function {8: f, ...}
        self.concrete = False
        self.mem = None

    def width(self, elem):
        """number of lanes of the natural (widest) vector of elem"""
        return (32 if self.cpu == 'avx2' else 16) // (ELW[elem] // 8)

    def __getattr__(self, n):
        if n in self.__dict__.get('ints', {}):
            return self.ints[n]
        raise AttributeError(n)

    def ints_seen(self):
        """the integers observed with OBSI!: [(tag, 64-bit term)]"""
        return [(t & 0xff, tobv(from_bytes(b), 64)) for t, b in self.trace if t >> 8 == 0x17]

    def obs(self, elem):
        """the observation log as [(tag, [lane terms])]"""
        w = ELW[elem] // 8
        return [(t, [tobv(from_bytes(b[k:k + w]), w * 8) for k in range(0, len(b), w)])
                for t, b in self.trace if t >> 8 != 0x17]


UF = {w: z3.Function('F%d' % w, z3.BitVecSort(w), z3.BitVecSort(w)) for w in (8, 16, 32, 64)}
MULT = {8: 0x35, 16: 0x3535, 32: 0x35353535, 64: 0x3535353535353535}

XORC = {8: 0x5A, 16: 0x5A5B, 32: 0x5A5B5C5D, 64: 0x5A5B5C5D5E5F6061}


def native_F(w):
    def f(x):
        if isinstance(x, int):
            x = z3.BitVecVal(x, w)
        return z3.simplify((x * z3.BitVecVal(MULT[w], w)) ^ z3.BitVecVal(XORC[w], w))
    return f


def ext_map(w):
    def f(ex, st, name, a):
        n = ex.concretize(st, a[2], 'lane count')
        b = w // 8
        bs = ex.read_bytes(st, a[0], n * b)
        out = []
        for k in range(n):
            x = from_bytes(bs[k * b:k * b + b])
            t = ex.laneF[w](tobv(x, w))
            out += to_bytes(t.as_long() if z3.is_bv_value(t) else t, w)
        ex.write_bytes(st, a[1], out)
    return f


def ext_obs(ex, st, name, a):
    n = ex.concretize(st, a[2], 'observation size')
    tag = ex.concretize(st, a[0], 'tag')
    bs = ex.read_bytes(st, a[1], n)
    st.trace = st.trace + ((tag, tuple(bs)),)


EXTERNALS = {'vf_map_8': ext_map(8), 'vf_map_16': ext_map(16), 'vf_map_32': ext_map(32), 'vf_map_64': ext_map(64),
             'vf_obs': ext_obs}


def cnt(p, ints):
    return p.count(ints) if callable(p.count) else p.count


def setup_run(modules, case, config, ints, concrete=None, deadline=None, extra=()):
    """create executor, initial state, arguments and the context"""
    ctx = Ctx(case, config, dict(ints))
    st = State()
    ex = Executor(modules, fpmode=case.fpmode, max_steps=case.max_steps, deadline=deadline, externals=EXTERNALS)
    if case.isa:
        from . import build
        ex.isa = build.features(config[0])
    ex.laneF = UF if concrete is None else {w: native_F(w) for w in UF}
    ctx.F = ex.laneF
    args = []
    bufs = []
    assumptions = []
    for p in case.params:
        if p.kind == 'int':
            args.append(ints[p.name])
            continue
        if p.kind == 'sym':
            if concrete is None:
                v = z3.BitVec(p.name, 64)
                assumptions += [z3.ULE(z3.BitVecVal(p.lo, 64), v), z3.ULE(v, z3.BitVecVal(p.hi, 64))]
                ctx.ints[p.name] = v
                args.append(v)
            else:
                v = concrete[p.name]
                ctx.ints[p.name] = z3.BitVecVal(v, 64)
                args.append(v)
            continue
        w = ELW[p.elem]
        if p.kind == 'symslice':
            ln = p.length(ctx)
            ln = z3.simplify(ln if z3.is_bv(ln) else z3.BitVecVal(ln, 64))
            if concrete is None:
                arr = z3.Array(p.name, z3.BitVecSort(64), z3.BitVecSort(w))
                o = ex.alloc_big(st, w // 8, ln, 1 << 40, p.name, arr, not p.mut)
                ctx.i[p.name] = SymBuf(w, arr=st.mem[o.base].arr[0], log=ex.touched[p.name])
                assumptions.append(z3.ULE(ln, z3.BitVecVal(1 << 37, 64)))
            else:
                n = ln.as_long()
                con = dict((int(k), v) for k, v in concrete[p.name].items())
                if n > 20000:
                    raise Unsupported('too long for a concrete run')
                data = []
                for k in range(n):
                    data += to_bytes(con.get(k, 0), w)
                o = ex.alloc(st, n * w // 8, w // 8, 'arg', p.name, data, ro=not p.mut)
                ctx.i[p.name] = SymBuf(w, con=con)
                bufs.append((p, o.base, n, w))
                args.append(o.base)
                continue
            args.append(o.base)
            bufs.append((p, o.base, None, w))
            continue
        n = cnt(p, ints)
        data = []
        vs = []
        for k in range(n):
            if concrete is None:
                v = z3.BitVec('%s[%d]' % (p.name, k), w)
                data += to_bytes(v, w)
                vs.append(v)
            else:
                v = concrete[p.name][k]
                data += to_bytes(v, w)
                vs.append(z3.BitVecVal(v, w))
        o = ex.alloc(st, n * w // 8, w // 8, 'arg', 'buffer ' + p.name, data, ro=(p.kind == 'in'))
        ctx.i[p.name] = vs
        args.append(o.base)
        bufs.append((p, o.base, n, w))
    if concrete is None and case.bound:
        for nm, (lo, hi) in case.bound(ctx).items():
            for v in ctx.i[nm]:
                ranges.VARS[v.decl().name()] = (lo, hi)
        assumptions += bounds_of(case, ctx)
    if concrete is None and case.assume:
        assumptions += [b for b in case.assume(ctx) if not isinstance(b, bool)]
    assumptions += list(extra)
    for a in assumptions:
        ex.solver.add(a)
    ex.assumptions = assumptions
    return ex, st, args, ctx, bufs


def bounds_of(case, ctx):
    out = []
    for nm, (lo, hi) in (case.bound(ctx) if case.bound else {}).items():
        for v in ctx.i[nm]:
            out.append(z3.And(v >= lo, v <= hi) if lo < 0 else z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
    return out


def fill_outputs(ctx, case, bufs, st, ret):
    for p, base, n, w in bufs:
        d = st.mem[base].data
        b = w // 8
        if p.kind == 'symslice':
            if n is None:
                ctx.o[p.name] = SymBuf(w, arr=st.mem[base].arr[0], log=ctx.i[p.name].log)
            else:
                ctx.o[p.name] = SymBuf(w, con={k: const_int(d[k * b:k * b + b], w) for k in range(n)})
            continue
        ctx.o[p.name] = [tobv(from_bytes(d[k * b:k * b + b]), w) for k in range(n)]
    ctx.ret = tobv(ret, 64) if ret is not None else None
    ctx.trace = list(st.trace)


def const_int(bs, w):
    t = z3.simplify(tobv(from_bytes(bs), w))
    return t.as_long() if z3.is_bv_value(t) else 0


def as_bools(x):
    if x is None:
        return []
    if not isinstance(x, (list, tuple)):
        x = [x]
    out = []
    for b in x:
        if isinstance(b, bool):
            out.append(z3.BoolVal(b))
        else:
            out.append(b)
    return out


def decide(ex, pc, goal, timeout_ms, stats, prefer=(), syms=()):
    """is pc & assumptions & not goal satisfiable?  -> ('unsat'|'sat'|'unknown', model)"""
    return _decide.decide(ex.assumptions, ex.side, pc, goal, timeout_ms, stats, prefer, syms)


def model_inputs(case, ints, ctx, m):
    """concrete inputs for a model"""
    con = {}
    for p in case.params:
        if p.kind == 'int':
            continue
        if p.kind == 'sym':
            con[p.name] = m.eval(z3.BitVec(p.name, 64), model_completion=True).as_long()
            continue
        if p.kind == 'symslice':
            b = ctx.i[p.name]
            con[p.name] = {}
            for ix in b.log:
                k = m.eval(ix, model_completion=True).as_long()
                con[p.name][str(k)] = m.eval(z3.Select(b.arr.arr, ix), model_completion=True).as_long()
            continue
        con[p.name] = [m.eval(v, model_completion=True).as_long() for v in ctx.i[p.name]]
    return con


def run_point(modules, case, config, ints, tier, deadline_s, listed=()):
    """symbolically execute one case at one integer point and decide its specification"""
    t0 = time.time()
    stats = dict(queries=0, solver_s=0.0, max_query_s=0.0, steps=0, paths=0, feas_queries=0, feas_s=0.0, returns=0,
                 panics=0)
    res = dict(case=case.name, config=config, ints=ints, status='ok', findings=[], known=[], stats=stats, functions=set())
    to = case.timeout or (60000 if tier == 'quick' else 600000)
    work = [()]
    first = True
    while work:
        extra = work.pop()
        bv.reset_bytes()
        _decide.reset()
        ranges.reset()
        for p in case.params:
            if p.kind == 'sym':
                ranges.VARS[p.name] = (p.lo, p.hi)
        try:
            ex, st, args, ctx, bufs = setup_run(modules, case, config, ints, deadline=t0 + deadline_s, extra=extra)
            if first and ex.assumptions and not ex.feasible(()):
                res['status'] = 'vacuous'
                res['note'] = 'assumptions unsatisfiable'
                return res
            first = False
            try:
                outs = ex.run_entry(case.name, st, args)
            except NeedSplit as e:
                if e.expr is None or len(extra) > 6:
                    raise Unsupported('cannot make concrete: ' + e.why)
                vals = ex.values_of(e.st or st, e.expr, e.expr.size(), 400)
                if vals is None:
                    raise Unsupported('too many values for ' + e.why)
                for v in vals:
                    work.append(extra + (e.expr == v,))
                rest = z3.And(*[e.expr != v for v in vals])
                if e.st is not None and ex.feasible((), rest):
                    work.append(extra + (rest,))
                stats['splits'] = stats.get('splits', 0) + len(vals)
                continue
        except Unsupported as e:
            res['status'] = 'undecided'
            res['note'] = 'unsupported: %s' % e
            return res
        except Budget as e:
            res['status'] = 'undecided'
            res['note'] = 'budget: %s' % e
            return res
        stats['steps'] += ex.steps
        stats['paths'] += len(outs)
        stats['feas_queries'] += ex.nq
        stats['feas_s'] += ex.tq
        res['functions'] |= ex.functions
        for kind, msg, pc, s, rv in outs:
            if kind == 'ub' and case.isa:
                continue
            c2 = Ctx(case, config, ctx.ints)
            c2.i = ctx.i
            c2.F = ctx.F
            goal = None
            if kind == 'ret':
                stats['returns'] += 1
                try:
                    fill_outputs(c2, case, bufs, s, rv)
                    goal = as_bools(case.spec(c2))
                    if case.must_panic:
                        goal.append(z3.Not(z3.And(*as_bools(case.must_panic(c2)))))
                except z3.Z3Exception as e:
                    res['status'] = 'undecided'
                    res['note'] = 'spec: %s %s' % (e, traceback.format_exc()[-600:])
                    return res
            elif kind == 'panic':
                stats['panics'] += 1
                goal = as_bools(case.may_panic(c2)) if case.may_panic else [z3.BoolVal(False)]
            else:
                goal = [z3.BoolVal(False)]
            prefer = []
            if case.fpmode == 'exact':
                for p in case.params:
                    if p.kind in ('in', 'inout') and p.elem in ISF:
                        prefer += [z3.And(v >= -50, v <= 50) for v in ctx.i[p.name]]
            if any(p.kind == 'symslice' for p in case.params):
                prefer += [z3.ULE(z3.BitVec(p.name, 64), 2000) for p in case.params if p.kind == 'sym']
            syms = [(z3.BitVec(p.name, 64), p.lo, p.hi) for p in case.params if p.kind == 'sym']
            kconds = []
            for kid, fn in case.known.items():
                if kid not in listed:
                    continue
                kc = z3.And(*as_bools(fn(c2)))
                if not any(k[0] == kid for k in res['known']):
                    r, m = decide(ex, pc + (kc,), goal, to, stats, prefer)
                    if r == 'sat':
                        res['known'].append((kid, kind, msg, model_inputs(case, ints, c2, m)))
                kconds.append(z3.Not(kc))
            if kind == 'ret' and not stats.get('witness'):
                # reachability witness: the end of the harness is reached (assert(false) here is violated)
                r, m = decide(ex, pc, [z3.BoolVal(False)], to, stats)
                if r == 'sat':
                    stats['witness'] = 1
            r, m = decide(ex, tuple(pc) + tuple(kconds), goal, to, stats, prefer, syms)
            if r == 'unknown':
                res['status'] = 'undecided'
                res['note'] = 'solver: unknown/timeout on a %s path' % kind
                continue
            if r == 'sat':
                con = model_inputs(case, ints, c2, m)
                bad = []
                if kind == 'ret':
                    bad = [i for i, g in enumerate(goal) if not z3.is_true(m.eval(g, model_completion=True))]
                res['findings'].append(dict(kind=kind, msg=msg, inputs=con, bad=bad))
                res['status'] = 'violated'
                if len(res['findings']) >= 3:
                    break
    if stats['returns'] and not stats.get('witness') and res['status'] == 'ok':
        res['status'] = 'vacuous'
        res['note'] = 'no feasible path reaches the assertion'
    if stats['returns'] == 0 and stats['panics'] == 0 and res['status'] == 'ok':
        res['status'] = 'vacuous'
        res['note'] = 'no path reaches the end of the harness'
    res['wall'] = time.time() - t0
    return res


# ---------------------------------------------------------------- native replay
class Native:
    """runs harness functions of a shared library in a child process with guard pages"""

    def __init__(self, so):
        self.so = so
        self.p = None

    def start(self):
        here = os.path.dirname(os.path.abspath(__file__))
        self.p = subprocess.Popen([sys.executable, os.path.join(here, 'native.py'), self.so], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, case, ints, con, poison=0xAA, side='end', trap=None):
        if self.p is None or self.p.poll() is not None:
            self.start()
        params = []
        for p in case.params:
            if p.kind == 'int':
                params.append(['int', ints[p.name]])
            elif p.kind == 'sym':
                params.append(['int', con[p.name]])
            elif p.kind == 'symslice':
                c = Ctx(case, ('', ''), dict(ints))
                for q in case.params:
                    if q.kind == 'sym':
                        c.ints[q.name] = z3.BitVecVal(con[q.name], 64)
                n = p.length(c)
                n = n if isinstance(n, int) else z3.simplify(n).as_long()
                ks = sorted(int(k) for k in con[p.name])
                near = sorted({k + d for k in ks for d in range(-70, 71)} | set(range(0, 70)) | set(range(n - 70, n)))
                params.append(['sym', ELW[p.elem] // 8, n, {k: v for k, v in con[p.name].items() if int(k) < n}, p.mut, [k for k in near if 0 <= k < n][:100000]])
            else:
                vals = con[p.name]
                if case.fpmode == 'exact' and p.elem in ISF:
                    vals = [int_to_fbits(v, ELW[p.elem]) for v in vals]
                params.append([p.kind, ELW[p.elem] // 8, vals])
        req = dict(fn=case.name, params=params, poison=poison, side=side)
        if trap:
            req['trap'] = trap
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            rc = self.p.wait()
            self.p = None
            if rc == -signal.SIGABRT:
                return dict(kind='panic')
            return dict(kind='crash', signal=-rc)
        return json.loads(line)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


def int_to_fbits(v, w):
    s = sx(v, w)
    return struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', float(s)))[0]


def fbits_to_int(b, w):
    d = struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', b))[0]
    if d != d or d in (float('inf'), float('-inf')) or d != int(d):
        return None
    return int(d) & M(w)


def check_native(case, config, ints, con, nat):
    """evaluate the specification on a native run -> (ok, description)"""
    c = Ctx(case, config, dict(ints))
    c.concrete = True
    c.F = {w: native_F(w) for w in UF}
    for p in case.params:
        if p.kind == 'sym':
            c.ints[p.name] = z3.BitVecVal(con[p.name], 64)
        elif p.kind == 'symslice':
            c.i[p.name] = SymBuf(ELW[p.elem], con={int(k): v for k, v in con[p.name].items()})
        elif p.kind != 'int':
            c.i[p.name] = [z3.BitVecVal(v, ELW[p.elem]) for v in con[p.name]]
    if nat['kind'] == 'nomem':
        return True, 'cannot be replayed (too long)'
    if nat['kind'] == 'crash':
        return False, 'crashed with signal %d' % nat['signal']
    if nat['kind'] == 'panic':
        if case.may_panic and all(z3.is_true(z3.simplify(b)) for b in as_bools(case.may_panic(c))):
            return True, 'panicked (allowed)'
        return False, 'panicked'
    k = 0
    for p in case.params:
        if p.kind in ('in', 'out', 'inout'):
            w = ELW[p.elem]
            vals = nat['bufs'][k]
            if case.fpmode == 'exact' and p.elem in ISF:
                vals = [fbits_to_int(v, w) for v in vals]
                if any(v is None for v in vals):
                    return False, 'inexact float output'
            c.o[p.name] = [z3.BitVecVal(v, w) for v in vals]
            k += 1
        elif p.kind == 'symslice':
            c.o[p.name] = SymBuf(ELW[p.elem], con={int(a): v for a, v in nat['bufs'][k].items()})
            k += 1
    if nat.get('overrun'):
        return False, 'wrote outside buffer %s' % nat['overrun']
    c.ret = z3.BitVecVal(nat['ret'], 64)
    c.trace = [(t, tuple(bytes.fromhex(h))) for t, h in nat['log']]
    goal = as_bools(case.spec(c))
    if case.must_panic:
        goal.append(z3.Not(z3.And(*as_bools(case.must_panic(c)))))
    bad = []
    for i, g in enumerate(goal):
        s = z3.simplify(g)
        if z3.is_true(s):
            continue
        if z3.is_false(s) or concrete_false(s):
            bad.append(i)
    return (not bad), ('conjuncts %s of the specification are false' % bad[:8] if bad else 'holds')


def concrete_false(s):
    """closed formula that simplify left open (uninterpreted hardware functions etc.)"""
    sol = z3.Solver()
    sol.set('timeout', 20000)
    sol.add(s)
    return sol.check() == z3.unsat


EDGE = {8: [0, 1, 0x7f, 0x80, 0xff, 0xfe], 16: [0, 1, 0x7fff, 0x8000, 0xffff, 0xff, 0x100, 0x80],
        32: [0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff, 0x10000, 0x8000],
        64: [0, 1, M(63), 1 << 63, M(64), M(32), 1 << 32, 1 << 31]}
FEDGE = {32: [0, 0x80000000, 0x3f800000, 0xbf800000, 0x40200000, 0x3f000000, 0xc0200000, 0x7f7fffff, 0x4b000001],
         64: [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x4004000000000000, 0x3fe0000000000000,
              0xc004000000000000, 0x7fefffffffffffff]}


def config_ctx(case, config, ints):
    return Ctx(case, config, dict(ints))


def random_inputs(case, ints, rng, config=None):
    con = {}
    for p in case.params:
        if p.kind == 'int':
            continue
        if p.kind == 'sym':
            con[p.name] = rng.randint(p.lo, min(p.hi, p.lo + 1000))
            continue
        w = ELW[p.elem]
        if p.kind == 'symslice':
            c = Ctx(case, config or ('', ''), dict(ints))
            for q in case.params:
                if q.kind == 'sym':
                    c.ints[q.name] = z3.BitVecVal(con.get(q.name, 0), 64)
            n = p.length(c)
            n = n if isinstance(n, int) else z3.simplify(n).as_long()
            con[p.name] = {str(k): rng.getrandbits(w) for k in range(min(n, 5000))}
            continue
        out = []
        for _ in range(cnt(p, ints)):
            if case.fpmode == 'exact' and p.elem in ISF:
                out.append(rng.randint(-40, 40) & M(w))
            elif p.elem in ISF:
                if rng.random() < 0.4:
                    out.append(rng.choice(FEDGE[w]))
                else:
                    out.append(int_to_bits_f(rng.uniform(-1000, 1000), w))
            elif case.bound and p.name in (case.bound(config_ctx(case, config, ints)) if config else {}):
                lo, hi = case.bound(config_ctx(case, config, ints))[p.name]
                out.append(rng.choice([lo, hi, rng.randint(lo, hi)]) & M(w))
            else:
                out.append(rng.choice(EDGE[w]) if rng.random() < 0.3 else rng.getrandbits(w))
        con[p.name] = out
    return con


def int_to_bits_f(d, w):
    return struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', d))[0]


def validate_point(modules, case, config, ints, con, nat):
    """run the encoding on concrete inputs and compare with the native run -> (ok, text)"""
    bv.reset_bytes()
    ranges.reset()
    try:
        ex, st, args, ctx, bufs = setup_run(modules, case, config, ints, concrete=con)
        outs = ex.run_entry(case.name, st, args)
    except (Unsupported, NeedSplit, Budget) as e:
        return None, 'not comparable: %s' % (e,)
    kinds = [o[0] for o in outs]
    if nat['kind'] == 'nomem':
        return None, 'too long'
    if nat['kind'] in ('panic', 'crash'):
        want = 'panic' if nat['kind'] == 'panic' else 'ub'
        return (want in kinds), '%s vs %s' % (nat['kind'], kinds)
    if kinds != ['ret']:
        if 'ub' in kinds:
            return None, 'undefined behaviour'
        return False, 'native returned, encoding %s' % kinds
    _, _, _, s, rv = outs[0]
    fill_outputs(ctx, case, bufs, s, rv)
    k = 0
    for p in case.params:
        if p.kind == 'symslice':
            for a, y in nat['bufs'][k].items():
                x = z3.simplify(ctx.o[p.name].at(int(a)))
                if x.as_long() != y:
                    return False, '%s[%s]: encoding %#x native %#x' % (p.name, a, x.as_long(), y)
            k += 1
            continue
        if p.kind not in ('in', 'out', 'inout'):
            continue
        w = ELW[p.elem]
        for j, (x, y) in enumerate(zip(ctx.o[p.name], nat['bufs'][k])):
            x = z3.simplify(x)
            if case.fpmode == 'exact' and p.elem in ISF:
                y = fbits_to_int(y, w)
                if y is None:
                    return None, 'inexact'
            if z3.is_bv_value(x):
                if x.as_long() != y:
                    return False, '%s[%d]: encoding %#x native %#x' % (p.name, j, x.as_long(), y)
            else:
                sol = z3.Solver()
                sol.add(x == y)
                if sol.check() == z3.unsat:
                    return False, '%s[%d]: encoding cannot be %#x' % (p.name, j, y)
        k += 1
    r = z3.simplify(ctx.ret)
    if z3.is_bv_value(r) and r.as_long() != nat['ret']:
        return False, 'return %d vs native %d' % (r.as_long(), nat['ret'])
    log = [(t, tuple(bytes.fromhex(h))) for t, h in nat['log']]
    if len(log) != len(ctx.trace):
        return False, 'observation log length %d vs native %d' % (len(ctx.trace), len(log))
    for (t1, b1), (t2, b2) in zip(ctx.trace, log):
        if t1 != t2 or len(b1) != len(b2):
            return False, 'observation log differs'
        for x, y in zip(b1, b2):
            if isinstance(x, int) and x != y:
                return False, 'observed byte %d vs native %d' % (x, y)
    return True, 'agree'
