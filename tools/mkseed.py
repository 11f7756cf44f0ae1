"""mkseed.make(id, prop, [(file, old, new[, count])...], demo_rs, needs, breaks, cpus=None): write seeded/<id>/"""
import os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, edits, demo, needs, breaks, cpus=None):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed-')
    subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
    for e in edits:
        p = os.path.join(t, 'r', e[0])
        s = open(p).read()
        n = s.count(e[1])
        if len(e) > 3 and e[3] == 'first':
            assert n >= 1
            s = s.replace(e[1], e[2], 1)
        else:
            assert n == (e[3] if len(e) > 3 else 1), (id, e[0], n)
            s = s.replace(e[1], e[2])
        open(p, 'w').write(s)
    diff = subprocess.run(['git', 'diff'], cwd=t + '/r', stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(t)
    tmpl = open(os.path.join(V, 'tools', 'demo_template.sh')).read()
    if cpus:
        tmpl = tmpl.replace('${CPUS:-x86-64 nehalem haswell}', cpus)
    open(d + '/demo.sh', 'w').write(tmpl)
    open(d + '/demo.rs', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
