"""Compiles a specification together with /repo's current headers: to LLVM IR for the
verifier and to a native program for replay / bounded sampling."""
import os
import re
import subprocess

REPO = os.environ.get('HV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
SYS = ['/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
       '/usr/include/petsc', '/usr/include/trilinos', '/usr/include/hdf5/openmpi', '/usr/include/scotch',
       '/usr/include/suitesparse', '/usr/include/opencascade', '/usr/include/slepc']


def incs():
    r = ['-DNDEBUG', '-DSOURCE_CODE_ROOT=' + REPO, '-I' + HERE + '/include', '-I' + REPO + '/tests/include',
         '-I' + REPO + '/applications/sintering/include', '-I' + REPO + '/applications/structural/include',
         '-I' + REPO + '/include', '-I' + REPO]
    for s in SYS:
        r += ['-isystem', s]
    r += ['-w']
    if os.path.isdir('/opt/vp/shim/include'):
        r += ['-isystem', '/opt/vp/shim/include']
    r += ['-std=gnu++20', '-ffp-contract=off', '-fno-strict-aliasing']
    return r


def run(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def directives(path):
    d = {'define': [], 'flags': []}
    with open(path) as f:
        for ln in f:
            m = re.match(r'//\s*hv:\s*(\w+)\s*(.*)$', ln)
            if m:
                d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d


def flags(src, out=None):
    d = directives(src)
    r = ' '.join(d.get('flags', [])).split()
    if out and 'driver' in ' '.join(d.get('extract', [])):
        import extract
        r.append('-I' + extract.extract(REPO, out + '.inc'))
    return r


def compile_ir(src, out):
    """-> path of the .ll; raises RuntimeError"""
    raw = out + '.raw.ll'
    cmd = ['clang++-18', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only',
           '-fno-threadsafe-statics', '-fno-vectorize', '-fno-slp-vectorize', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DHV_SYMBOLIC=1'] + incs() + flags(src, out) + ['-S', '-emit-llvm', src, '-o', raw]
    rc, so, se = run(cmd)
    if rc:
        raise RuntimeError('clang: ' + first_error(se))
    specs = sorted(set(re.findall(r'^define .*@spec_(\w+)\(', open(raw).read(), re.M)))
    keep = ','.join('spec_' + s for s in specs)
    opt = ['opt-18', '-S', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,dce),globaldce',
           '-internalize-public-api-list=' + keep, raw, '-o', out]
    rc, so, se = run(opt)
    if rc:
        raise RuntimeError('opt: ' + se[:300])
    os.unlink(raw)
    return specs


def first_error(se):
    for ln in se.split('\n'):
        if 'error' in ln:
            return ln.strip()[:400]
    return se[:400]


def compile_native(src, out, runtime, extra=()):
    obj = out + '.o'
    cmd = ['clang++-18', '-O1', '-g0', '-D_GLIBCXX_ASSERTIONS'] + incs() + flags(src, out) + ['-c', src, '-o', obj]
    rc, so, se = run(cmd)
    if rc:
        raise RuntimeError('clang: ' + first_error(se))
    L = '/usr/lib/x86_64-linux-gnu'
    cmd = ['clang++-18', '-rdynamic', obj, runtime, '-o', out] + list(extra) + [
        L + '/libdeal.ii.so', '-L' + L + '/openmpi/lib', '-lmpi', '-ltbb', '-lboost_serialization', '-lboost_iostreams', '-lz', '-ldl',
        '-Wl,--unresolved-symbols=ignore-all', '-Wl,-rpath,' + L + '/openmpi/lib:' + L + '/hdf5/openmpi']
    rc, so, se = run(cmd)
    if rc:
        raise RuntimeError('link: ' + se[-300:])
    return out


def compile_runtime(out):
    rc, so, se = run(['clang++-18', '-O1', '-std=gnu++20', '-c', HERE + '/hv_runtime.cc', '-o', out])
    if rc:
        raise RuntimeError('runtime: ' + first_error(se))
    return out
