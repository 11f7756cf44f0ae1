"""Driver: python3 -m engine.run PROPERTY [--tier quick|thorough]"""
import os, sys, json, time, random, argparse, importlib, multiprocessing as mp, traceback, hashlib
from . import core, build, irparse
VERIF = build.VERIF

G = {}


def modules_for(config):
    ms = G.setdefault('mods', {})
    if config not in ms:
        ms[config] = [irparse.Module(open(ll).read(), os.path.basename(ll)) for ll in G['built'][config]['lls']]
    return ms[config]


def native_for(config):
    ns = G.setdefault('nat', {})
    if config not in ns:
        ns[config] = core.Native(G['built'][config]['so'])
    return ns[config]


def work(task):
    try:
        kind, ci, config, ints = task
        case = G['cases'][ci]
        mods = modules_for(config)
        if kind == 'sym':
            r = core.run_point(mods, case, config, ints, G['tier'], G['deadline'], G['listed'])
            for f in r['findings']:
                f['replay'] = replay(case, config, ints, f)
            for k in range(len(r['known'])):
                kid, kd, msg, con = r['known'][k]
                f = dict(kind=kd, msg=msg, inputs=con, bad=[])
                f['replay'] = replay(case, config, ints, f)
                r['known'][k] = (kid, f)
            return ('sym', ci, config, ints, r)
        rng = random.Random('%s/%s/%s/%s' % (G['seed'], case.name, config, ints))
        out = []
        for _ in range(G['nval']):
            con = core.random_inputs(case, ints, rng, config)
            if case.assume or case.bound:
                con = satisfy(case, config, ints, con)
                if con is None:
                    continue
            nat = native_for(config).run(case, ints, con)
            ok, txt = core.validate_point(mods, case, config, ints, con, nat)
            out.append((ok, txt, con if ok is False else None))
        return ('val', ci, config, ints, out)
    except Exception as e:
        return ('err', task[1], task[2], task[3], '%s\n%s' % (e, traceback.format_exc()[-1500:]))


def work_all(ts):
    return [work(t) for t in ts]


def satisfy(case, config, ints, con):
    """keep random inputs only if they meet the case's assumptions"""
    import z3
    c = core.Ctx(case, config, dict(ints))
    for p in case.params:
        if p.kind == 'sym':
            c.ints[p.name] = z3.BitVecVal(con[p.name], 64)
        elif p.kind == 'symslice':
            c.i[p.name] = core.SymBuf(core.ELW[p.elem], con={int(k): v for k, v in con[p.name].items()})
        elif p.kind != 'int':
            c.i[p.name] = [z3.BitVecVal(v, core.ELW[p.elem]) for v in con[p.name]]
    for b in core.as_bools(case.assume(c) if case.assume else []) + core.bounds_of(case, c):
        if not z3.is_true(z3.simplify(b)):
            return None
    return con


def replay(case, config, ints, f):
    """native runs of the counterexample; -> dict(ok=bool reproduced, how=...)"""
    nat = native_for(config)
    if f['kind'] == 'isa':
        # a breakpoint in place of the code that needs the extension: is it executed?
        name, need = f['msg'].split('|')
        nat.close()
        r = nat.run(case, ints, f['inputs'], trap=name)
        nat.close()
        hit = r['kind'] == 'crash' and r['signal'] == 5
        f['msg'] = '%s needs %s, which %s does not have' % (demangle(name), need, build.CPUS[config[0]])
        return dict(reproduced=hit, how='the function is executed' if hit else 'the function is not executed (%s)' % r['kind'], native=r)
    tried = []
    for poison in (0xAA, 0x00, 0xFF, 0x5C):
        for side in ('end', 'start'):
            r = nat.run(case, ints, f['inputs'], poison, side)
            ok, txt = core.check_native(case, config, ints, f['inputs'], r)
            if not ok:
                return dict(reproduced=True, poison=poison, side=side, how=txt, native=r)
            tried.append(txt)
            if f['kind'] == 'panic':
                break
    return dict(reproduced=False, how='; '.join(sorted(set(tried))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--config', default=None)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noval', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('props.' + a.prop.lower())
    cases = [c for c in mod.cases() if a.tier == 'thorough' or c.tier == 'quick']
    extra = set(getattr(mod, 'EXTRA_LEVELS', ()))     # further instruction-set levels, release builds only

    def runs_on(c, cpu, pr):
        return cpu in c.cpus and pr in c.profiles or (cpu in extra and pr == 'rel' and pr in c.profiles and len(c.cpus) == 3)
    if a.case:
        import re
        cases = [c for c in cases if re.search(a.case, c.name)]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    body = getattr(mod, 'PRELUDE', '') + '\n' + '\n'.join(c.source() for c in cases)
    configs = []
    for c in cases:
        for cpu in c.cpus:
            for pr in c.profiles:
                k = (cpu, pr, c.feature)
                if k not in configs:
                    configs.append(k)
    for cpu in sorted(extra):
        if (cpu, 'rel', None) not in configs:
            configs.append((cpu, 'rel', None))
    qc = getattr(mod, 'QUICK_CONFIGS', None)
    if qc and a.tier == 'quick' and not a.config:
        configs = [k for k in configs if k[:2] in qc or k[2]]
    if a.config:
        configs = [k for k in configs if '-'.join(x for x in k if x).startswith(a.config)]
    try:
        built = build.build_all(a.prop, body, configs)
    except build.BuildError as e:
        print(e)
        sys.exit(2)
    tb = time.time() - t0
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    listed = {k['id']: k for k in kf['findings'] if k['property'] == a.prop}
    G.update(cases=cases, built=built, tier=a.tier, seed=seed, listed=set(listed),
             deadline=200 if a.tier == 'quick' else 1800, nval=1 if a.tier == 'quick' else 4)
    tasks = []
    rng = random.Random(seed)
    for cfg in configs:
        for ci, c in enumerate(cases):
            if runs_on(c, cfg[0], cfg[1]) and cfg[2] == c.feature:
                pts = c.int_points(a.tier)
                for pt in pts:
                    tasks.append(('sym', ci, cfg, pt))
                if not a.noval and cfg[0] in getattr(mod, 'VALIDATE_CPUS', cfg):
                    for pt in rng.sample(pts, min(len(pts), 2 if a.tier == 'quick' else 6)):
                        tasks.append(('val', ci, cfg, pt))
    results = []
    chunk = max(1, min(16, len(tasks) // (a.j * 8)))
    # keep each worker mostly on one configuration
    limit = 720 if a.tier == 'quick' else 1e9
    nv = 0
    with mp.Pool(a.j) as pool:
        it = pool.imap_unordered(work_all, [tasks[k:k + chunk] for k in range(0, len(tasks), chunk)])
        while nv < 20:
            try:
                rs = it.next(max(1, limit - (time.time() - t0)))
            except StopIteration:
                break
            except mp.TimeoutError:
                print('time is up: %d of %d tasks not finished' % (len(tasks) - len(results), len(tasks)))
                break
            for r in rs:
                results.append(r)
                nv += r[0] == 'sym' and any(f['replay']['reproduced'] for f in r[4]['findings'])
                if a.v and r[0] == 'sym':
                    print(r[1], cases[r[1]].name, r[2], r[3], r[4]['status'], '%.1fs' % r[4].get('wall', 0), r[4]['stats']['paths'],
                          r[4].get('note', ''), flush=True)
            if nv >= 20:
                print('stopped after 20 violations: %d of %d tasks not finished' % (len(tasks) - len(results), len(tasks)))
        pool.terminate()
    rc = report(a, mod, cases, configs, results, listed, seed, t0, tb, tasks)
    sys.exit(rc)


def cfgname(c):
    return '-'.join(x for x in c if x)


def report(a, mod, cases, configs, results, listed, seed, t0, tb, tasks):
    prop = a.prop
    viol, unrepro, undecided, errors, valbad = [], [], [], [], []
    known = {}
    tot = dict(queries=0, solver_s=0.0, max_query_s=0.0, steps=0, paths=0, feas_queries=0, feas_s=0.0, returns=0, panics=0,
               splits=0, witness=0)
    functions = set()
    nsym = nok = nval = nvalok = nvalskip = 0
    samples = []
    for kind, ci, cfg, ints, r in results:
        c = cases[ci]
        where = '%s [%s] %s' % (c.name, cfgname(cfg), ints if ints else '')
        if kind == 'err':
            errors.append((where, r))
            continue
        if kind == 'val':
            for ok, txt, con in r:
                nval += 1
                if ok is True:
                    nvalok += 1
                elif ok is None:
                    nvalskip += 1
                else:
                    valbad.append((where, txt, con))
            continue
        nsym += 1
        for k in tot:
            if k == 'max_query_s':
                tot[k] = max(tot[k], r['stats'][k])
            else:
                tot[k] += r['stats'].get(k, 0)
        functions |= r['functions']
        for kid, f in r['known']:
            known.setdefault(kid, []).append((c, cfg, ints, f))
        if r['status'] == 'ok':
            nok += 1
            if len(samples) < 6 and (len(samples) < 2 or hash(where) % 7 == 0):
                samples.append(dict(harness=c.name, configuration=cfgname(cfg), split=ints, paths=r['stats']['paths'],
                                    instructions=r['stats']['steps'], queries=r['stats']['queries'], verdict='unsat: holds'))
        elif r['status'] in ('undecided', 'vacuous'):
            undecided.append((where, r['status'] + ': ' + r.get('note', '')))
        else:
            for f in r['findings']:
                (viol if f['replay']['reproduced'] else unrepro).append((c, cfg, ints, f))
            if r.get('note'):
                undecided.append((where, r['note']))
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    for kid, lst in sorted(known.items()):
        rep = [x for x in lst if x[3]['replay']['reproduced']]
        if rep:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, listed[kid]['what']))
    for n, (c, cfg, ints, f) in enumerate(viol):
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, harness=c.name, configuration=cfgname(cfg), ints=ints, inputs=f['inputs'], kind=f['kind'],
                       msg=f['msg'], replay=f['replay'], source=c.source(), what=c.what), open(path, 'w'), indent=1)
        if n < 20:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  harness %s [%s] %s: %s %s; natively: %s' % (c.name, cfgname(cfg), ints, f['kind'], f['msg'] or '',
                                                               f['replay']['how']))
            if a.v:
                print('  inputs', f['inputs'])
        rc = 1
    if len(viol) > 20:
        print('  ... and %d more violations' % (len(viol) - 20))
    for c, cfg, ints, f in unrepro[:10]:
        print('UNREPRODUCED candidate: %s [%s] %s: %s %s (%s) inputs=%s' % (c.name, cfgname(cfg), ints, f['kind'], f['msg'] or '',
                                                                          f['replay']['how'], str(f['inputs'])[:600]))
    for w, t in valbad[:10] if False else [(x[0], x[1]) for x in valbad[:10]]:
        print('ENCODING DISAGREES with native run: %s: %s' % (w, t))
    for w, t in undecided[:10]:
        print('UNDECIDED: %s: %s' % (w, t))
    if len(undecided) > 10:
        print('  ... and %d more undecided' % (len(undecided) - 10))
    for w, t in errors[:5]:
        print('ERROR in %s: %s' % (w, t))
    ntask = sum(1 for k in tasks if k[0] == 'sym')
    if rc == 0 and (valbad or len(errors) > ntask // 4):
        rc = 2
    if rc == 0 and nok < max(1, ntask // 2):
        print('fewer than half of the obligations were decided')
        rc = 2
    rep = set()
    for f in functions:
        if 'faster' in f:
            rep.add(demangle(f))
    wall = time.time() - t0
    cov = dict(
        states=tot['paths'], transitions=tot['steps'], traces_validated_against_impl=nvalok,
        samples=samples,
        explanation='states = feasible symbolic paths (after merging) of the harnesses; transitions = IR instructions executed '
                    'symbolically; traces_validated_against_impl = concrete inputs pushed through both the encoding and the native '
                    'build of the same code with equal results',
        obligations=ntask, discharged=nok, undecided=ntask - nsym + len(undecided) + len(unrepro),
        undecided_list=['%s: %s' % u for u in undecided[:50]],
        harnesses=len(cases), configurations=[cfgname(c) for c in configs],
        paths_returning=tot['returns'], paths_panicking=tot['panics'], reachability_witnesses=tot['witness'],
        property_queries=tot['queries'], property_solver_s=round(tot['solver_s'], 2),
        max_query_s=round(tot['max_query_s'], 2), feasibility_queries=tot['feas_queries'],
        feasibility_solver_s=round(tot['feas_s'], 2), address_or_size_splits=tot['splits'],
        validation_runs=nval, validation_not_comparable=nvalskip,
        functions_encoded=len(functions), functions_of_faster=sorted(rep)[:400], build_s=round(tb, 1),
        bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
        known_findings=sorted(known), solver='z3 ' + __import__('z3').get_version_string(),
        exhaustive=False)
    ev = dict(property=prop, tier=a.tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=COMMON + getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 1), violations=len(viol))
    if not a.case and not a.config:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged, %d undecided, %d violations, %d unreproduced; %d paths, %d instructions, '
          '%d property queries (%.1fs, max %.1fs), %d feasibility queries (%.1fs); %d/%d validation runs agree; build %.0fs, '
          'total %.0fs' % (prop, a.tier, nok, ntask, len(undecided) + ntask - nsym, len(viol), len(unrepro), tot['paths'], tot['steps'], tot['queries'],
                           tot['solver_s'], tot['max_query_s'], tot['feas_queries'], tot['feas_s'], nvalok, nval, tb, wall))
    return rc


def demangle(n):
    import re
    if not n.startswith('_ZN'):
        return n
    s = n[3:]
    out = []
    while s and s[0].isdigit():
        m = re.match(r'\d+', s)
        k = int(m.group())
        s = s[m.end():]
        out.append(s[:k])
        s = s[k:]
    if out and re.match(r'h[0-9a-f]{16}$', out[-1]):
        out.pop()
    r = '::'.join(out)
    for x, y in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$u5b$', '['), ('$u5d$', ']'), ('$u3b$', ';'), ('$RF$', '&'),
                 ('$C$', ','), ('$BP$', '*'), ('$u7b$', '{'), ('$u7d$', '}'), ('..', '::')):
        r = r.replace(x, y)
    return r.lstrip('_')


COMMON = [
    'rustc nightly-2020-07-01 lowers the source to LLVM IR correctly, LLVM 18 reads that IR as LLVM 10 meant it, and code generation '
    'from the IR is correct (the IR is taken before any optimisation pass)',
    'the models of the x86 intrinsics and of the Rust allocator in engine/intrinsics.py (compared with native runs on every check)',
    'allocation never fails; panics end the path (built with panic=abort: unwinding is outside)',
    'z3 is sound',
]

if __name__ == '__main__':
    main()
