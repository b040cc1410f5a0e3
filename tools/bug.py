#!/usr/bin/env python3
"""Plants a bug as seeded/<id>: tools/bug.py SPEC.py, where SPEC defines id, prop, file, old, new, needs, breaks, demo
(demo: C++ source of a program that exits 0 when the property holds).  Validates patch and demo in a scratch worktree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

R = '/verif'
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
L=/usr/lib/x86_64-linux-gnu
S="-isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi"
for d in petsc trilinos hdf5/openmpi scotch suitesparse opencascade slepc; do S="$S -isystem /usr/include/$d"; done
[ -d /opt/vp/shim/include ] && S="$S -isystem /opt/vp/shim/include"
clang++-18 -std=gnu++20 -O1 -w -DNDEBUG -DSOURCE_CODE_ROOT=$PWD -I$PWD -I$PWD/include -I$PWD/applications/sintering/include \\
  -I$PWD/applications/structural/include -I$PWD/tests/include $S "$D/demo.cc" -o "$T/demo" $L/libdeal.ii.so -L$L/openmpi/lib -lmpi -ltbb \\
  -lboost_serialization -lboost_iostreams -lz -ldl -Wl,--unresolved-symbols=ignore-all -Wl,-rpath,$L/openmpi/lib:$L/hdf5/openmpi || exit 99
timeout 120 "$T/demo"
'''


def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = os.path.join(R, 'seeded', g['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='wt_')
    sh('git clone -q /repo %s/r' % w)
    try:
        r = w + '/r'
        edits = g.get('edits') or [(g['file'], g['old'], g['new'])]
        open(d + '/demo.cc', 'w').write(g['demo'])
        h = SH
        if g.get('driver'):  # the demonstration runs the time loop cut out of driver.h
            for x in ('hv/extract.py', 'hv/include/hv_driver.h', 'hv/include/hv.h'):
                shutil.copy(os.path.join(R, x), d)
            open(d + '/hv_dealii.h', 'w').write('#pragma once\n')
            h = h.replace('clang++-18 ', 'python3 "$D/extract.py" "$PWD" "$T/inc" || exit 99\nclang++-18 -I$D -I$T/inc ', 1)
        open(d + '/demo.sh', 'w').write(h)
        os.chmod(d + '/demo.sh', 0o755)
        a = sh('bash %s/demo.sh' % d, cwd=r)
        for f, o, n in edits:
            s = open(os.path.join(r, f)).read()
            assert s.count(o) == 1, (f, s.count(o), o)
            open(os.path.join(r, f), 'w').write(s.replace(o, n))
        p = sh('git diff', cwd=r).stdout
        open(d + '/patch.diff', 'w').write(p)
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash %s/demo.sh' % d, cwd=r)
        print('unchanged', a.returncode, (a.stdout + a.stderr)[-300:])
        print('patched', b.returncode, (b.stdout + b.stderr)[-300:])
        if '--check' in sys.argv:
            e = dict(os.environ, HV_REPO=r)
            c = subprocess.run(['./check', g['prop']], cwd=R, env=e, capture_output=True, text=True)
            print('check', c.returncode, c.stdout[-700:])
        ok = a.returncode == 0 and b.returncode not in (0, 99)
        print('OK' if ok else 'BAD', g['id'])
    finally:
        shutil.rmtree(w)


main()
