#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed iff props/<id>.py exists)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests can't, files, mechanism, note
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), note='', hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state]), note=note))


IT, ZI, ST, SZ, II, VE = 'src/iters.rs', 'src/zip.rs', 'src/stride.rs', 'src/stride_zip.rs', 'src/into_iters.rs', 'src/vecs.rs'
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

TECH = 'symbolic execution of the crate\'s LLVM IR + SMT (z3), models replayed natively'
NOTE = ('Bounded model checking of the real code: the harness and every function of the crate it reaches are executed symbolically from '
        'rustc\'s LLVM IR, in six builds (SSE2, SSE4.2, AVX2; with and without debug assertions); z3 decides every obligation for all '
        'values within the stated bounds. Trusted: rustc/LLVM code generation, the intrinsic models (compared with native runs on every '
        'check), z3. ')


def main():
    claimed, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ('note', 'na')}
            f.write(json.dumps(q) + '\n')
            assert len(p['title']) <= 80, p['id']
            if os.path.exists(os.path.join(V, 'props', p['id'].lower() + '.py')):
                claimed.append(dict(property=p['id'], quick_cmd='python3-vt -m engine.run %s --tier quick' % p['id'],
                                    thorough_cmd='python3-vt -m engine.run %s --tier thorough' % p['id'],
                                    technique=TECH, level='model_checking', level_note=NOTE + p['note']))
            else:
                na.append(dict(property=p['id'], reason=NA.get(p['id'], 'No check yet.')))
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=claimed, not_applicable=na,
             notes='One engine (engine/), one module of harnesses and specifications per property (props/). See DESIGN.md.')
    if HOOKS:
        m['hooks'] = HOOKS
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(claimed), 'claimed', len(na), 'not applicable')


main()
