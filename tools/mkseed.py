"""mkseed.py SPEC.py: create seeded/<id> from a spec (id, prop, file, edits, needs, breaks, demo, sources) and
confirm the demo passes on the unchanged tree and fails with the patch"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'

DEMO = '''#!/bin/bash
# run with cwd = repository root
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
C="$R/src/vmecpp/cpp"
g++ -std=c++20 -w -O1 -fopenmp -DEIGEN_DONT_PARALLELIZE -I"$C" -I"$D/shims" -include verif_eigen_span.h \\
  -I/usr/include/eigen3 -I/usr/include/hdf5/serial -I"$C/third_party/fftx_codelets" -I"$C/third_party/fftx_codelets/include" "$D/demo.cc" %s %s \\
  -o "$T/demo" -Wl,--as-needed -lnetcdf -lhdf5_serial_cpp -lhdf5_serial -llapack -lblas -labsl_statusor -labsl_status -labsl_str_format_internal \\
  -labsl_cord -labsl_cordz_info -labsl_cordz_handle -labsl_cordz_functions -labsl_cord_internal -labsl_strings \\
  -labsl_strings_internal -labsl_throw_delegate -labsl_int128 -labsl_raw_logging_internal -labsl_base \\
  -labsl_spinlock_wait -labsl_synchronization || exit 3
cd "$T" && OMP_NUM_THREADS=1 timeout 120 ./demo
'''
PYDEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
cd "$R"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R/src:$D" /opt/vp/venv/bin/python "$D/demo.py"
'''


os.environ['GIT_LFS_SKIP_SMUDGE'] = '1'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def make(spec):
    d = os.path.join(HERE, 'seeded', spec['id'])
    shutil.rmtree(WT, ignore_errors=True)
    sh('git', '-C', '/repo', 'worktree', 'prune')
    r = sh('git', '-C', '/repo', 'worktree', 'add', '--detach', WT, 'HEAD')
    try:
        for f, old, new in spec['edits']:
            p = os.path.join(WT, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', WT, 'diff').stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if 'py' in spec:
            open(d + '/demo.py', 'w').write(spec['py'])
            open(d + '/demo.sh', 'w').write(PYDEMO)
        else:
            open(d + '/demo.cc', 'w').write(spec['demo'])
            shutil.copytree(HERE + '/shims', d + '/shims')
            srcs = ' '.join('"$C/%s"' % s for s in spec.get('sources', []))
            open(d + '/demo.sh', 'w').write(DEMO % (srcs, spec.get('ldflags', '')))
        os.chmod(d + '/demo.sh', 0o755)
        a = sh('bash', d + '/demo.sh', cwd='/repo')
        b = sh('bash', d + '/demo.sh', cwd=WT)
        print(spec['id'], 'clean', a.returncode, 'patched', b.returncode, a.stderr[-600:] if a.returncode else '', b.stdout[-200:], b.stderr[-200:] if b.returncode else '')
    finally:
        sh('git', '-C', '/repo', 'worktree', 'remove', '--force', WT)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv) < 3 or s['id'] in sys.argv[2:]:
            make(s)
