"""setup_cmd: nothing is kept between runs, so only check that what the checks need is there."""
import subprocess, sys, os
import z3
for c in (['llvm-dis', '--version'], ['cargo', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, env=dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2020-07-01'))
print('z3', z3.get_version_string())
