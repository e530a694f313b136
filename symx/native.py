"""Builds the repository's C++ modules from its current source, in one of two ways:
  symbolic   every double is a handle to a Python number, so symbolic numbers flow through
  native     ordinary doubles, used to replay counterexamples
"""
import os
import sys
import hashlib
import subprocess
import importlib.util
import tempfile
import sysconfig
from .harness import REPO, VERIF

SRC = {
    'four': ('interactions/four_particle/cpp', ['integral.cpp', 'Ds.cpp']),
    'three': ('interactions/three_particle/cpp', ['integral.cpp']),
}
MODNAME = {'four': 'interactions.four_particle.cpp.integral', 'three': 'interactions.three_particle.cpp.integral'}


class BuildError(Exception):
    pass


def sources(which):
    """the translation units: what the module's Makefile compiles"""
    d, files = SRC[which]
    mk = os.path.join(REPO, d, 'Makefile')
    if os.path.exists(mk):
        for line in open(mk):
            if line.startswith('integral.so:'):
                files = [t for t in line.split(':', 1)[1].split() if t.endswith('.cpp')]
    return os.path.join(REPO, d), files


def build(which, symbolic):
    d, files = sources(which)
    inc = os.path.join(VERIF, 'cpp', 'include')
    h = hashlib.sha256()
    for root in (d, os.path.join(inc, 'pybind11'), os.path.join(inc, 'gsl')):
        for f in sorted(os.listdir(root)):
            p = os.path.join(root, f)
            if os.path.isfile(p) and f.endswith(('.cpp', '.h', 'Makefile')):
                h.update(f.encode())
                h.update(open(p, 'rb').read())
    h.update(repr((which, symbolic, files)).encode())
    out_dir = os.path.join(VERIF, '.build', h.hexdigest()[:20])
    so = os.path.join(out_dir, 'integral.so')
    if os.path.exists(so):
        return so
    os.makedirs(out_dir, exist_ok=True)
    # unity build: one translation unit, in the order of the Makefile
    pyinc = '/usr/include/python3.12'
    if not os.path.exists(os.path.join(pyinc, 'Python.h')):
        pyinc = sysconfig.get_paths()['include']
    objs = []
    procs = []
    tmp = tempfile.mkdtemp(dir=out_dir)
    for f in files:
        o = os.path.join(tmp, f + '.o')
        cmd = ['g++', '-std=c++17', '-fPIC', '-O1', '-w', '-fpermissive', '-I', inc, '-I', pyinc, '-c', os.path.join(d, f), '-o', o]
        if symbolic:
            cmd.insert(1, '-DSYMX_SYMBOLIC')
        procs.append((f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    errs = []
    for f, p in procs:
        txt = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            errs.append('%s: %s' % (f, txt[-1500:]))
    if errs:
        raise BuildError('\n'.join(errs))
    # exported symbols are inline functions with static state: keep them local to the module
    tso = os.path.join(tmp, 'integral.so')
    r = subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic', '-o', tso] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors='replace')[-1500:])
    os.replace(tso, so)
    for o in objs:
        os.remove(o)
    os.rmdir(tmp)
    return so


class _Math(object):
    """functions the symbolic build calls back for"""

    def __init__(self):
        from . import core
        self.core = core

    def sqrt(self, x): return self.core.ssqrt(x)
    def exp(self, x): return self.core.sexp(x)
    def log(self, x): return self.core.slog(x)
    def sin(self, x): return self.core.ssin(x)
    def cos(self, x): return self.core.scos(x)
    def cbrt(self, x): return self.core.sroot3(x)
    def log1p(self, x): return self.core.slog(1 + x)
    def expm1(self, x): return self.core.sexp(x) - 1
    def pow(self, x, y): return self.core.spow(x, y)


_loaded = {}


def load(which, symbolic):
    key = (which, symbolic)
    if key in _loaded:
        return _loaded[key]
    so = build(which, symbolic)
    # the loader caches by file name: each variant has its own directory, hence its own name
    spec = importlib.util.spec_from_file_location('integral', so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    if symbolic:
        mod._symx_set_math(_Math())
    _loaded[key] = mod
    return mod


def install(symbolic):
    """put the modules where the repository imports them from"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mods = {}
    for w in ('four', 'three'):
        mods[w] = load(w, symbolic)
        sys.modules[MODNAME[w]] = mods[w]
    return mods
