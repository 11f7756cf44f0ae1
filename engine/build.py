"""Builds a property's harness crate against /repo for each configuration, emitting unoptimised LLVM IR
(same run: a shared library of exactly that code, for native replay)."""
import os, subprocess, hashlib, shutil, glob, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
CPUS = {'sse2': 'x86-64', 'sse3': 'nocona', 'ssse3': 'core2', 'sse41': 'penryn', 'sse42': 'nehalem', 'avx': 'sandybridge', 'avx2': 'haswell'}
TOOLCHAIN = 'nightly-2020-07-01'


def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'Cargo.toml')]
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def cargo_home():
    """a cargo home of our own (the provided one must stay as it is), using the same vendored sources"""
    d = os.path.join(BUILD, 'cargo-home')
    os.makedirs(d, exist_ok=True)
    write_if_changed(os.path.join(d, 'config'), '''[source.crates-io]
replace-with = "vendored-sources"

[source.vendored-sources]
directory = "/opt/vp/vendor"
''')
    return d


def env_for(cpu, profile, target, feature=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith('CARGO') and k not in ('RUSTFLAGS', 'RUSTC_WRAPPER')}
    e.update(HOME='/root', RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_HOME=cargo_home(), CARGO_NET_OFFLINE='true',
             CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=target)
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    chk = 'on' if profile == 'dbg' else 'off'
    e['RUSTFLAGS'] = ('-C target-cpu=%s -C opt-level=3 -C no-prepopulate-passes -C passes=name-anon-globals '
                      '-C codegen-units=1 -C lto=off -C overflow-checks=%s -C debug-assertions=%s -C debuginfo=0 '
                      '--cap-lints allow --emit=llvm-bc,link' % (CPUS[cpu], chk, chk))
    if feature:
        e['RUSTFLAGS'] += ' --cfg ' + feature
    return e


class BuildError(Exception):
    pass


def build_one(crate, name, cpu, profile, feature=None):
    tag = cpu + '-' + profile + ('-' + feature if feature else '')
    target = os.path.join(BUILD, 'target', tag)
    os.makedirs(target, exist_ok=True)
    env = env_for(cpu, profile, target, feature)
    hf = os.path.join(target, 'repo.hash')
    h = repo_hash()
    lock = open(os.path.join(target, '.vf-lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        old = open(hf).read() if os.path.exists(hf) else ''
        if old != h:
            for d in glob.glob(os.path.join(target, 'release', '.fingerprint', 'faster-*')):
                shutil.rmtree(d, ignore_errors=True)
            for d in glob.glob(os.path.join(target, 'release', '.fingerprint', 'vf_*')):
                shutil.rmtree(d, ignore_errors=True)
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '-j', '4'], cwd=crate, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError('build of %s for %s failed:\n%s' % (name, tag, p.stdout[-6000:]))
        with open(hf, 'w') as f:
            f.write(h)
        out = os.path.join(BUILD, 'ir', name, tag)
        os.makedirs(out, exist_ok=True)
        deps = os.path.join(target, 'release', 'deps')
        lls = []
        for cr in (name, 'faster', 'packed_simd_2', 'vektor', 'libm'):
            bcs = glob.glob(os.path.join(deps, cr + '-*.bc')) + glob.glob(os.path.join(deps, cr + '.bc'))
            if not bcs:
                continue
            bc = max(bcs, key=os.path.getmtime)
            ll = os.path.join(out, cr + '.ll')
            if not os.path.exists(ll) or os.path.getmtime(ll) < os.path.getmtime(bc):
                subprocess.run(['llvm-dis', bc, '-o', ll], check=True, stderr=subprocess.PIPE)
            lls.append(ll)
        so = os.path.join(target, 'release', 'lib%s.so' % name)
        so2 = os.path.join(out, 'lib.so')
        shutil.copy(so, so2)
        return {'tag': tag, 'lls': lls, 'so': so2}
    finally:
        lock.close()


RUNTIME_RS = open(os.path.join(VERIF, 'harness', 'runtime.rs')).read()


def make_crate(prop, body):
    name = 'vf_' + prop.lower()
    crate = os.path.join(BUILD, 'crates', name)
    os.makedirs(os.path.join(crate, 'src'), exist_ok=True)
    write_if_changed(os.path.join(crate, 'Cargo.toml'), '''[package]
name = "%s"
version = "0.1.0"
edition = "2018"

[lib]
crate-type = ["cdylib"]

[workspace]

[dependencies]
faster = { path = "%s" }

[profile.release]
opt-level = 3
panic = "abort"
''' % (name, REPO))
    lock = os.path.join(crate, 'Cargo.lock')
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, 'harness', 'Cargo.lock'), lock)
    write_if_changed(os.path.join(crate, 'src', 'lib.rs'), RUNTIME_RS + '\n' + body)
    return crate, name


_feat = {}


def features(cpu):
    """instruction-set extensions code built for cpu may use (as the compiler itself states them)"""
    if cpu not in _feat:
        out = subprocess.run(['rustc', '--print', 'cfg', '-C', 'target-cpu=' + CPUS[cpu]], env=env_for(cpu, 'rel', '/nonexistent'), stdout=subprocess.PIPE, text=True, check=True).stdout
        _feat[cpu] = set(l.split('"')[1] for l in out.splitlines() if l.startswith('target_feature='))
        assert 'sse2' in _feat[cpu]
    return _feat[cpu]


def build_all(prop, body, configs):
    """configs: list of (cpu, profile, feature); -> {config: info}"""
    crate, name = make_crate(prop, body)
    cargo_home()
    res = {}
    # cargo rewrites the crate's lock file: build the first one alone if it is fresh
    with ThreadPoolExecutor(max_workers=7) as ex:
        futs = {c: ex.submit(build_one, crate, name, *c) for c in configs}
        for c, f in futs.items():
            res[c] = f.result()
    return res
