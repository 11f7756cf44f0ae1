"""instruction sets"""
import importlib
from .common import *
BOUNDS = ('every harness of the checks of the vector operations (P10-P23), every operand value, on seven instruction-set levels: x86-64 (SSE2), nocona (SSE3), core2 (SSSE3), penryn (SSE4.1), nehalem (SSE4.2), '
          'sandybridge (AVX), haswell (AVX2); what a level has is what the compiler states for it')
OUTSIDE = 'instructions the compiler itself selects (it honours the target); levels above AVX2; a path that only the values of hardware estimates would open'
LEVELS = ('sse2', 'sse3', 'ssse3', 'sse41', 'sse42', 'avx', 'avx2')
QUICK_CONFIGS = tuple((c, 'rel') for c in LEVELS)
VALIDATE_CPUS = ('sse3', 'avx')
PARTS = ['p%d' % k for k in range(10, 24)]
_mods = [importlib.import_module('props.' + m) for m in PARTS]
PRELUDE = '\n'.join(sorted({getattr(m, 'PRELUDE', '') for m in _mods}))


def cases():
    out = []
    for name, m in zip(PARTS, _mods):
        for c in m.cases():
            if c.feature or set(c.cpus) != {'sse2', 'sse42', 'avx2'}:
                continue
            d = Case(name + '_' + c.name, c.rust, c.params, lambda c: [], may_panic=lambda c: z3.BoolVal(True), assume=c.assume, fpmode=c.fpmode, cpus=LEVELS,
                     profiles=('rel',), what=c.what, max_steps=c.max_steps, skip_int=c.skip_int, items=c.items, tier=c.tier, bound=c.bound, isa=True)
            for p in d.params:
                if p.kind == 'int' and len(p.values) > 4:
                    v = list(p.values)
                    d.params = [Int(q.name, sorted({v[0], v[1], v[len(v) // 2], v[-1]})) if q is p else q for q in d.params]
            out.append(d)
    return out
