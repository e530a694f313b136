"""imports the repository in the current directory, its C++ modules compiled against the stand-in headers in inc/"""
import atexit
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
sys.path.insert(0, REPO)
_tmp = None


def native(which):
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp()
        atexit.register(shutil.rmtree, _tmp, True)
    d = os.path.join(REPO, 'interactions', which, 'cpp')
    files = ['integral.cpp', 'Ds.cpp'] if which == 'four_particle' else ['integral.cpp']
    out = os.path.join(_tmp, which)
    os.makedirs(out)
    so = os.path.join(out, 'integral.so')
    subprocess.check_call(['g++', '-std=c++17', '-fPIC', '-shared', '-O1', '-w', '-fpermissive', '-Wl,-Bsymbolic',
                           '-I', os.path.join(HERE, 'inc'), '-I', '/usr/include/python3.12', '-o', so]
                          + [os.path.join(d, f) for f in files])
    spec = importlib.util.spec_from_file_location('integral', so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules['interactions.%s.cpp.integral' % which] = mod
    return mod


def everything():
    return native('four_particle'), native('three_particle')


def close(a, b, what, tol=1e-9):
    ok = abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)
    print('%s: %s %r, expected %r' % ('ok' if ok else 'WRONG', what, float(a), float(b)))
    if not ok:
        sys.exit(1)


def check(c, what):
    print('%s: %s' % ('ok' if c else 'WRONG', what))
    if not c:
        sys.exit(1)
