"""Makes numpy/scipy entry points accept symbolic numbers.

Only what happens to *symbolic* data changes; purely numeric calls go to the original functions.
Arrays that the code under test allocates for floats are allocated as object arrays so that a
symbolic number can be stored in them.
"""
import sys
import math
import numpy
import numpy as np
from . import core
from .core import S, SB
from .harness import REPO

_installed = False
_REPO = REPO.rstrip('/') + '/'


def has_sym(x):
    if isinstance(x, (S, SB)):
        return True
    if isinstance(x, numpy.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def _from_repo(depth=2):
    f = sys._getframe(depth)
    fn = f.f_globals.get('__file__') or ''
    return fn.startswith(_REPO) or f.f_code.co_filename.startswith(_REPO)


def _floaty(dtype):
    if dtype is None:
        return True
    try:
        return numpy.dtype(dtype).kind == 'f'
    except TypeError:
        return False


def _obj_struct(dtype):
    """structured dtype with float fields -> object fields"""
    try:
        dt = numpy.dtype(dtype)
    except TypeError:
        return None
    if dt.names:
        return numpy.dtype([(n, object if dt[n].kind == 'f' else dt[n]) for n in dt.names])
    return None


def elementwise(f):
    g = numpy.frompyfunc(f, 1, 1)

    def run(x):
        if isinstance(x, numpy.ndarray):
            if x.shape == ():
                return f(x.item())
            return g(x)
        if isinstance(x, (list, tuple)):
            return g(numpy.array(x, dtype=object))
        return f(x)
    return run


def _num(f, fn_sym):
    def one(x):
        if isinstance(x, S):
            return fn_sym(x)
        if isinstance(x, numpy.ndarray):
            return elementwise(one)(x)
        if isinstance(x, SB):
            x = int(bool(x))
        with numpy.errstate(all='ignore'):
            return float(f(float(x)))
    return one


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import scipy.integrate
    import scipy.interpolate

    # ---- elementary functions
    table = {
        'sqrt': core.ssqrt, 'exp': core.sexp, 'log': core.slog, 'sin': core.ssin, 'cos': core.scos,
        'arctan': core.satan, 'absolute': abs, 'abs': abs, 'fabs': abs, 'cbrt': core.sroot3,
        'square': lambda x: x * x, 'tan': lambda x: x.tan(), 'sign': lambda x: x.sign(),
        'expm1': lambda x: core.sexp(x) - 1, 'log1p': lambda x: core.slog(1 + x),
        'log10': lambda x: core.slog(x) / math.log(10), 'log2': lambda x: core.slog(x) / math.log(2),
        'sinh': lambda x: (core.sexp(x) - core.sexp(-x)) / 2, 'cosh': lambda x: (core.sexp(x) + core.sexp(-x)) / 2,
        'floor': lambda x: x.floor(), 'ceil': lambda x: x.ceil(), 'trunc': lambda x: float(int(x)),
        'negative': lambda x: -x, 'reciprocal': lambda x: 1 / x,
    }
    for name, fs in table.items():
        orig = getattr(numpy, name)

        def wrap(x, *a, _orig=orig, _one=elementwise(_num(orig, fs)), **k):
            if has_sym(x) and not a and set(k) <= {'dtype'}:
                return _one(x)
            return _orig(x, *a, **k)
        wrap.__name__ = name
        wrap.__wrapped__ = orig
        setattr(numpy, name, wrap)

    for name, fs in (('sqrt', core.ssqrt), ('exp', core.sexp), ('log', core.slog), ('sin', core.ssin),
                     ('cos', core.scos), ('atan', core.satan), ('fabs', abs)):
        orig = getattr(math, name)

        def mwrap(x, *a, _orig=orig, _fs=fs):
            if isinstance(x, S):
                return _fs(x)
            return _orig(x, *a)
        setattr(math, name, mwrap)
    _mpow, _mhyp = math.pow, math.hypot
    math.pow = lambda x, y: x ** y if isinstance(x, S) or isinstance(y, S) else _mpow(x, y)

    _hyp = numpy.hypot
    numpy.hypot = lambda a, b, **k: numpy.sqrt(a * a + b * b) if has_sym(a) or has_sym(b) else _hyp(a, b, **k)
    _power = numpy.power
    numpy.power = lambda a, b, **k: (a ** b) if has_sym(a) or has_sym(b) else _power(a, b, **k)
    _fpower = numpy.float_power
    numpy.float_power = lambda a, b, **k: (a ** b) if has_sym(a) or has_sym(b) else _fpower(a, b, **k)

    for name, val in (('isfinite', lambda x: math.isfinite(x)), ('isnan', lambda x: math.isnan(x)),
                      ('isinf', lambda x: math.isinf(x))):
        orig = getattr(numpy, name)
        symval = name == 'isfinite'

        def pred(x, *a, _orig=orig, _v=val, _s=symval, **k):
            if isinstance(x, S):
                return _s
            if has_sym(x):
                arr = numpy.asarray(x, dtype=object)
                return numpy.array([_s if isinstance(i, S) else _v(float(i)) for i in arr.reshape(-1)],
                                   dtype=bool).reshape(arr.shape)
            return _orig(x, *a, **k)
        setattr(numpy, name, pred)

    # ---- allocation
    _zeros, _ones, _empty, _full = numpy.zeros, numpy.ones, numpy.empty, numpy.full

    def _alloc(shape, fill):
        a = numpy.ndarray(shape, dtype=object)
        a.fill(numpy.float64(fill) if isinstance(fill, float) else fill)   # divides like an array element
        return a

    def zeros(shape, dtype=None, *a, **k):
        if _from_repo():
            if _floaty(dtype):
                return _alloc(shape, 0.)
            st = _obj_struct(dtype)
            if st is not None:
                return zeros_struct(shape, st)
        return _zeros(shape, float if dtype is None else dtype, *a, **k)

    def ones(shape, dtype=None, *a, **k):
        if _from_repo() and _floaty(dtype):
            return _alloc(shape, 1.)
        return _ones(shape, dtype, *a, **k)

    def empty(shape, dtype=None, *a, **k):
        if _from_repo():
            if _floaty(dtype):
                return _alloc(shape, float('nan'))
            st = _obj_struct(dtype)
            if st is not None:
                return zeros_struct(shape, st)
        return _empty(shape, float if dtype is None else dtype, *a, **k)

    def zeros_struct(shape, st):
        arr = _zeros(shape, dtype=st).view(Records)
        for n in st.names:
            if st[n].kind == 'O':
                arr[n] = numpy.float64(0.)
        return arr

    def full(shape, v, dtype=None, *a, **k):
        if _from_repo() and _floaty(dtype) and not isinstance(v, (bool, int, numpy.integer, str)) or isinstance(v, S):
            return _alloc(shape, v)
        return _full(shape, v, dtype, *a, **k)

    _zl, _ol, _el, _fl = numpy.zeros_like, numpy.ones_like, numpy.empty_like, numpy.full_like

    def like(orig, fill):
        def f(a, *args, dtype=None, **k):
            if _from_repo() and (dtype is None or _floaty(dtype)):
                arr = numpy.asarray(a)
                if arr.dtype == object or (arr.dtype.kind == 'f'):
                    return _alloc(arr.shape, fill)
            return orig(a, *args, dtype=dtype, **k)
        return f

    numpy.zeros, numpy.ones, numpy.empty, numpy.full = zeros, ones, empty, full
    numpy.zeros_like, numpy.ones_like, numpy.empty_like = like(_zl, 0.), like(_ol, 1.), like(_el, float('nan'))

    # numpy.array([...], dtype=float) with symbolic content
    _array, _asarray = numpy.array, numpy.asarray

    def array(obj, dtype=None, *a, **k):
        if dtype is not None and _from_repo() and _floaty(dtype) and has_sym(obj):
            return _array(obj, object, *a, **k)
        if dtype is not None and _from_repo():
            st = _obj_struct(dtype)
            if st is not None:
                return _array(obj, st, *a, **k)
        return _array(obj, dtype, *a, **k)

    def asarray(obj, dtype=None, *a, **k):
        if dtype is not None and _from_repo() and _floaty(dtype) and has_sym(obj):
            return _asarray(obj, object, *a, **k)
        return _asarray(obj, dtype, *a, **k)
    numpy.array, numpy.asarray = array, asarray

    _linspace = numpy.linspace

    def linspace(start, stop, num=50, endpoint=True, **k):
        if has_sym(start) or has_sym(stop):
            n = int(num)
            if n != num:
                raise TypeError("'float' object cannot be interpreted as an integer")
            d = n - 1 if endpoint else n
            out = [start + (stop - start) * core.Fraction(i, d) if d else start for i in range(n)]
            if endpoint and n > 1:
                out[-1] = stop
            return _array(out, dtype=object)
        return _linspace(start, stop, num=num, endpoint=endpoint, **k)
    numpy.linspace = linspace

    _ss = numpy.searchsorted

    def searchsorted(a, v, side='left', sorter=None):
        if sorter is None and (has_sym(a) or has_sym(v)):
            seq = list(numpy.asarray(a, dtype=object))

            def one(x):
                lo = 0
                hi = len(seq)
                # same comparisons as a linear scan; the array is sorted
                while lo < hi:
                    mid = (lo + hi) // 2
                    if (seq[mid] < x) if side == 'left' else not (x < seq[mid]):
                        lo = mid + 1
                    else:
                        hi = mid
                return lo
            if isinstance(v, (numpy.ndarray, list, tuple)):
                return _array([one(x) for x in v], dtype=int)
            return one(v)
        return _ss(a, v, side=side, sorter=sorter)
    numpy.searchsorted = searchsorted

    def keep(orig):
        def f(a, *r, **k):
            out = orig(a, *r, **k)
            if isinstance(out, numpy.ndarray) and out.dtype.names and not isinstance(out, Records):
                out = out.view(Records)
            return out
        return f
    for name in ('delete', 'resize', 'append', 'insert', 'concatenate'):
        setattr(numpy, name, keep(getattr(numpy, name)))

    _savetxt = numpy.savetxt

    def savetxt(f, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
        if not has_sym(X):
            return _savetxt(f, X, fmt=fmt, delimiter=delimiter, newline=newline, header=header, footer=footer, comments=comments, **k)
        text = comments + header.replace('\n', '\n' + comments) + newline if header else ''
        for row in X:
            text += delimiter.join(format(v, fmt[1:]) for v in row) + newline
        if footer:
            text += comments + footer + newline
        if hasattr(f, 'write'):
            try:
                f.write(text.encode('latin1'))
            except TypeError:
                f.write(text)
        else:
            with open(f, 'w') as out:
                out.write(text)
    numpy.savetxt = savetxt

    # numpy.vectorize: keep symbolic outputs as objects
    _vec = numpy.vectorize

    class vectorize(object):
        def __init__(self, pyfunc, otypes=None, **k):
            self.pyfunc = pyfunc
            self.otypes = otypes
            self.k = k
            self.__name__ = getattr(pyfunc, '__name__', 'vectorized')
            self.__doc__ = getattr(pyfunc, '__doc__', None)

        def __call__(self, *args, **kw):
            f = self.pyfunc if not kw else (lambda *a: self.pyfunc(*a, **kw))
            arrs = [numpy.asarray(a, dtype=object) if has_sym(a) else numpy.asarray(a) for a in args]
            b = numpy.broadcast(*arrs) if len(arrs) > 1 else None
            shape = b.shape if b is not None else arrs[0].shape
            if b is None:
                vals = [f(x) for x in arrs[0].reshape(-1)]
            else:
                vals = [f(*t) for t in b]
            out = numpy.ndarray(len(vals), dtype=object)
            for i, v in enumerate(vals):
                out[i] = v.item() if isinstance(v, numpy.ndarray) and v.shape == () else v
            out = out.reshape(shape)
            if not any(isinstance(v, (S, SB)) for v in vals):
                try:
                    return numpy.asarray(out.tolist(), dtype=float) if shape else float(out.item())
                except (TypeError, ValueError):
                    return out
            return out if shape else out.item()
    numpy.vectorize = vectorize

    for name, pick in (('maximum', lambda a, b: _pick(a, b, True)), ('minimum', lambda a, b: _pick(a, b, False))):
        orig = getattr(numpy, name)
        g = numpy.frompyfunc(pick, 2, 1)

        def two(a, b, *r, _orig=orig, _g=g, **k):
            if has_sym(a) or has_sym(b):
                v = _g(a, b)
                return v
            return _orig(a, b, *r, **k)
        two.reduce = orig.reduce
        setattr(numpy, name, two)
    numpy.fmax, numpy.fmin = numpy.maximum, numpy.minimum

    _clip = numpy.clip

    def clip(a, lo, hi, **k):
        if has_sym(a) or has_sym(lo) or has_sym(hi):
            r = a
            if lo is not None:
                r = numpy.maximum(r, lo)
            if hi is not None:
                r = numpy.minimum(r, hi)
            return r
        return _clip(a, lo, hi, **k)
    numpy.clip = clip

    _where = numpy.where

    def where(c, *xy):
        if xy and (has_sym(c) or has_sym(xy[0]) or has_sym(xy[1])):
            cb = numpy.asarray(c)
            if cb.dtype == object:
                cb = numpy.array([bool(i) for i in cb.reshape(-1)], dtype=bool).reshape(cb.shape)
            return _where(cb, numpy.asarray(xy[0], dtype=object), numpy.asarray(xy[1], dtype=object))
        return _where(c, *xy)
    numpy.where = where

    _trapz = numpy.trapz
    numpy.trapz = lambda y, x=None, *a, **k: (
        sum((x[i + 1] - x[i]) * (y[i + 1] + y[i]) / 2 for i in range(len(y) - 1))
        if x is not None and (has_sym(y) or has_sym(x)) else _trapz(y, x, *a, **k))

    # ---- scipy
    _simps = scipy.integrate.simpson
    _old_simps = scipy.integrate.simps
    simps = make_simps(_simps)
    scipy.integrate.simps = simps
    scipy.integrate.simpson = simps

    _interp1d = scipy.interpolate.interp1d

    class interp1d(object):
        def __new__(cls, x, y, kind='linear', **k):
            if not (has_sym(x) or has_sym(y)):
                return _interp1d(x, y, kind=kind, **k)
            return object.__new__(cls)

        def __init__(self, x, y, kind='linear', **k):
            if kind not in ('linear', 'slinear'):
                raise core.Unsupported('interp1d kind %s' % kind)
            self.x, self.y = list(x), list(y)

        def __call__(self, q):
            def one(t):
                xs, ys = self.x, self.y
                if t < xs[0] or t > xs[-1]:
                    raise ValueError('A value in x_new is outside the interpolation range.')
                for i in range(1, len(xs)):
                    if t <= xs[i]:
                        if i < len(xs) - 1 and False:
                            pass
                        return ys[i - 1] + (ys[i] - ys[i - 1]) * (t - xs[i - 1]) / (xs[i] - xs[i - 1])
                return ys[-1]
            if isinstance(q, (numpy.ndarray, list, tuple)):
                return _array([one(t) for t in q], dtype=object)
            return one(q)
    scipy.interpolate.interp1d = interp1d


class Records(numpy.ndarray):
    """structured array of objects that can be viewed as a plain table, like one of floats"""

    def view(self, *a, **k):
        t = a[0] if a else k.get('dtype')
        if isinstance(t, tuple) and len(t) == 2 and self.dtype.names and t[1] == len(self.dtype.names):
            out = numpy.ndarray((len(self), t[1]), dtype=object)
            for j, n in enumerate(self.dtype.names):
                out[:, j] = numpy.asarray(self[n])
            return out
        return numpy.ndarray.view(self, *a, **k)


def _pick(a, b, mx):
    for v in (a, b):
        if isinstance(v, float) and math.isnan(v):
            return v
    if mx:
        return a if a >= b else b
    return a if a <= b else b


SIMPS_WEIGHTS = None   # when set: callable(x) -> list of weights (an arbitrary linear functional)


def make_simps(orig):
    cache = {}

    def simps(y, x=None, dx=1.0, axis=-1, even=None, **k):
        if not has_sym(y) and not has_sym(x):
            return orig(y, x=x, dx=dx, axis=axis)
        n = len(y)
        if x is not None and not has_sym(x):
            key = tuple(float(t) for t in x)
            w = cache.get(key)
            if w is None:
                xa = numpy.asarray(x, dtype=float)
                w = [float(orig(numpy.eye(n)[i], x=xa)) for i in range(n)]
                cache[key] = w
        elif x is None:
            w = [float(orig(numpy.eye(n)[i], dx=float(dx))) for i in range(n)]
        else:
            w = simpson_weights(list(x))
        if len(w) != n:
            raise ValueError("If given, length of x must be 1 or the same as y.")
        r = 0
        for wi, yi in zip(w, y):
            if isinstance(yi, float) and not math.isfinite(yi):
                return float('nan')
            r = r + wi * yi
        return r
    return simps


def simpson_weights(x):
    """composite Simpson weights on an irregular grid with an odd number of points"""
    n = len(x)
    if n % 2 == 0:
        if n == 2:
            h = x[1] - x[0]
            return [h / 2, h / 2]
        raise core.Unsupported('simps on a symbolic grid with an even number of points')
    w = [0] * n
    for i in range(0, n - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        s = h0 + h1
        w[i] = w[i] + s / 6 * (2 - h1 / h0)
        w[i + 1] = w[i + 1] + s / 6 * (s * s / (h0 * h1))
        w[i + 2] = w[i + 2] + s / 6 * (2 - h0 / h1)
    return w
