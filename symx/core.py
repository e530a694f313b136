"""Symbolic numbers, path exploration and solver queries."""
import sys
import math
import time
import os
from fractions import Fraction
import numpy
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3
from . import poly as P

ENG = None  # current engine


class Infeasible(BaseException):
    """the current path is infeasible (or excluded by an assumption)"""


class Limit(BaseException):
    """budget of the case is exhausted"""


class Unsupported(Exception):
    """the code did something with a symbolic number the engine has no semantics for"""


def isnum(x):
    return isinstance(x, (int, float, Fraction, numpy.integer, numpy.floating, numpy.bool_))


def _fnum(x):
    """python number for a numeric scalar, or None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, float):
        return x
    if isinstance(x, numpy.integer):
        return int(x)
    if isinstance(x, numpy.floating):
        return float(x)
    if isinstance(x, numpy.bool_):
        return int(x)
    if isinstance(x, numpy.ndarray) and x.shape == () and x.dtype != object:
        return float(x)
    return None


def _finite(x):
    return not isinstance(x, float) or math.isfinite(x)


def lift(x):
    """S | number -> poly dict (numbers must be finite)"""
    if isinstance(x, S):
        return x.p
    return P.const(x)


def mk(p):
    return S(p)


class SB(object):
    """symbolic boolean: nested tuples ('cmp', op, poly) | ('and', ..) | ('or', ..) | ('not', x) | bool"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.decide(self)

    def __and__(self, o):
        return sb_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return sb_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return sb_not(self)

    # arithmetic use of a truth value decides it
    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    __hash__ = None

    def __repr__(self):
        return 'SB(%r)' % (self.t,)


def sb(x):
    if isinstance(x, SB):
        return x
    return SB(bool(x))


def sb_and(*xs):
    ts = []
    for x in xs:
        t = sb(x).t
        if t is False:
            return SB(False)
        if t is True:
            continue
        ts.append(t)
    if not ts:
        return SB(True)
    return SB(ts[0] if len(ts) == 1 else ('and',) + tuple(ts))


def sb_or(*xs):
    ts = []
    for x in xs:
        t = sb(x).t
        if t is True:
            return SB(True)
        if t is False:
            continue
        ts.append(t)
    if not ts:
        return SB(False)
    return SB(ts[0] if len(ts) == 1 else ('or',) + tuple(ts))


def sb_not(x):
    t = sb(x).t
    if isinstance(t, bool):
        return SB(not t)
    if t[0] == 'not':
        return SB(t[1])
    return SB(('not', t))


def _cmp(a, b, op):
    """a op b, op in '<','<=','==','!=' """
    fa = _fnum(a) if not isinstance(a, S) else None
    fb = _fnum(b) if not isinstance(b, S) else None
    for f, other, flip in ((fa, b, False), (fb, a, True)):
        if f is not None and not _finite(f):
            if math.isnan(f):
                return op == '!='
            # f is +-inf, the other side is a finite symbolic number
            if op == '==':
                return False
            if op == '!=':
                return True
            return (f < 0) != flip
    if not isinstance(a, S) and fa is None:
        return NotImplemented
    if not isinstance(b, S) and fb is None:
        return NotImplemented
    d = P.add(lift(a), P.neg(lift(b)))
    return cmp0(d, op)


def cmp0(d, op):
    if P.is_const(d):
        c = P.const_val(d)
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    s = P.sign(d)
    if s == '+':
        return op == '!='
    if s == '-':
        return op in ('<', '<=', '!=')
    if s == '+0' and op == '<':
        return False
    if s == '-0' and op == '<=':
        return True
    return SB(('cmp', op, d))


PRINTED = []     # numbers that were formatted: text refers to them by position


class S(object):
    """symbolic real number"""
    __slots__ = ('p',)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    # -- arithmetic
    def _bin(self, o, f, name):
        if isinstance(o, S):
            return f(self.p, o.p)
        if isinstance(o, SB):
            o = int(bool(o))
        if isinstance(o, numpy.ndarray):
            r = numpy.empty(o.shape, dtype=object)
            r.reshape(-1)[:] = [self._bin(e, f, name) for e in o.reshape(-1)]
            return r
        x = _fnum(o)
        if x is None:
            return NotImplemented
        if not _finite(x):
            return nonfinite(name, self, x)
        return f(self.p, P.const(x))

    def __add__(self, o):
        return self._bin(o, lambda a, b: mk(P.add(a, b)), 'add')
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: mk(P.add(a, P.neg(b))), 'sub')

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: mk(P.add(b, P.neg(a))), 'rsub')

    def __mul__(self, o):
        return self._bin(o, lambda a, b: mk(P.mul(a, b)), 'mul')
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, div, 'div')

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: div(b, a), 'rdiv')

    def __neg__(self):
        return mk(P.neg(self.p))

    def __pos__(self):
        return self

    def __pow__(self, e):
        return spow(self, e)

    def __rpow__(self, b):
        return spow(b, self)

    def __abs__(self):
        s = P.sign(self.p)
        if s in ('+', '+0', '0'):
            return self
        if s in ('-', '-0'):
            return -self
        return self if self >= 0 else -self

    # -- comparisons
    def _rel(self, o, f):
        if isinstance(o, numpy.ndarray):
            return numpy.array([bool(f(self, x)) for x in o.reshape(-1)], dtype=bool).reshape(o.shape)
        return f(self, o)

    def __lt__(self, o):
        return self._rel(o, lambda a, b: _cmp(a, b, '<'))

    def __le__(self, o):
        return self._rel(o, lambda a, b: _cmp(a, b, '<='))

    def __gt__(self, o):
        return self._rel(o, lambda a, b: _cmp(b, a, '<'))

    def __ge__(self, o):
        return self._rel(o, lambda a, b: _cmp(b, a, '<='))

    def __eq__(self, o):
        r = self._rel(o, lambda a, b: _cmp(a, b, '=='))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._rel(o, lambda a, b: _cmp(a, b, '!='))
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(frozenset(self.p.items()))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if P.is_const(self.p):
            return float(P.const_val(self.p))
        raise Unsupported('float() of the symbolic number %s' % P.fmt(self.p)[:80])

    def __int__(self):
        if P.is_const(self.p):
            return int(P.const_val(self.p))
        return sfloor(self) if self >= 0 else -sfloor(-self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return -sfloor(-self)

    __trunc__ = __int__

    def floor(self):
        return float(sfloor(self))

    def ceil(self):
        return float(-sfloor(-self))

    def __format__(self, spec):
        PRINTED.append(self)
        return '<<%d>>' % (len(PRINTED) - 1)

    def __repr__(self):
        return 'S(%s)' % P.fmt(self.p)[:200]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- functions numpy looks up on objects
    def sqrt(self):
        return ssqrt(self)

    def cbrt(self):
        return sroot3(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def sin(self):
        return ssin(self)

    def cos(self):
        return scos(self)

    def tan(self):
        return ssin(self) / scos(self)

    def arctan(self):
        return satan(self)

    def fabs(self):
        return abs(self)

    def absolute(self):
        return abs(self)

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def conjugate(self):
        return self

    def hypot(self, o):
        return ssqrt(self * self + o * o)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def sign(self):
        if self > 0:
            return 1.
        if self < 0:
            return -1.
        return 0.

    def copy(self):
        return self

    def item(self):
        return self

    def rint(self):
        raise Unsupported('rint of a symbolic number')


def nonfinite(name, s, x):
    """arithmetic of a finite symbolic number with nan/inf"""
    if math.isnan(x):
        return float('nan')
    if name in ('add',):
        return x
    if name == 'sub':
        return -x
    if name == 'rsub':
        return x
    if name == 'div':
        return 0.0
    if name == 'mul' or name == 'rdiv':
        if s > 0:
            return x
        if s < 0:
            return -x
        return float('nan') if name == 'mul' else x
    return float('nan')


def div(a, b):
    if P.is_const(b):
        c = P.const_val(b)
        if c == 0:
            return _div0(a)
        return mk(P.scale(a, 1 / c))
    sg = P.sign(b)
    if sg not in ('+', '-'):
        z = cmp0(b, '==')
        if z if isinstance(z, bool) else bool(z):
            return _div0(a)
    if len(b) > 1:
        r = P.divexact(a, b)
        if r is not None:
            return mk(r)
    return mk(P.mul(a, P.inverse(b)))


def _div0(a):
    x = mk(a)
    if x == 0:
        return float('nan')
    return float('inf') if x > 0 else float('-inf')


def sfloor(x, most=64):
    """integer part: one path for every possible value"""
    if not isinstance(x, S):
        return math.floor(x)
    if P.is_const(x.p):
        return math.floor(P.const_val(x.p))
    if x >= 0:
        for n in range(most):
            if x < n + 1:
                return n
    else:
        for n in range(most):
            if x >= -n - 1:
                return -n - 1
    raise Unsupported('integer part of a number above %d' % most)


def spow(b, e):
    if isinstance(e, S):
        if P.is_const(e.p):
            e = P.const_val(e.p)
        else:
            return sexp(e * slog(b))
    x = _fnum(e)
    if x is None:
        return NotImplemented
    if not _finite(x):
        raise Unsupported('pow with non finite exponent')
    q = P.to_q(x)
    if not isinstance(b, S):
        return b ** float(q)
    if q.denominator == 1:
        n = int(q)
        if n >= 0:
            return mk(P.power(b.p, n))
        return 1 / mk(P.power(b.p, -n))
    if q.denominator == 2:
        return spow(ssqrt(b), q.numerator)
    if q.denominator == 3:
        return spow(sroot3(b), q.numerator)
    if q.denominator == 4:
        return spow(ssqrt(ssqrt(b)), q.numerator)
    return sexp(float(q) * slog(b))


def _qsqrt(c):
    """sqrt of a positive rational: exact when a perfect square, else the double's rational"""
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    # 60 significant bits
    k = 200
    v = math.isqrt((n << (2 * k)) // d)
    f = float(Fraction(v, 1 << k))
    return P.to_q(f)


def ssqrt(x):
    if not isinstance(x, S):
        return math.sqrt(x) if x >= 0 else float('nan')
    p = x.p
    if P.is_const(p):
        c = P.const_val(p)
        if c < 0:
            return float('nan')
        return mk({(): _qsqrt(c)} if c else {})
    sg = P.sign(p)
    if sg not in ('+', '+0'):
        if x < 0:
            return float('nan')
    c, m, prim = P.content(p)
    k, prim = P.monic_even(prim)
    c = c * k
    # even part of the monomial content comes out of the root when its sign is known
    out, rest = {(): Fraction(1)}, []
    for a, e in m:
        if e % 2 == 0:
            at = P.T.atoms[a]
            if at.lo is not None and at.lo >= 0:
                out = P.mul(out, {((a, e // 2),): Fraction(1)})
            else:
                v = abs(mk({((a, 1),): Fraction(1)}))
                out = P.mul(out, v.p) if e == 2 else P.mul(out, P.power(v.p, e // 2))
        else:
            rest.append((a, e))
    # odd exponents: keep one power inside
    rest2 = []
    for a, e in rest:
        at = P.T.atoms[a]
        if at.lo is not None and at.lo >= 0 and abs(e) > 1:
            k = (e - 1) // 2 if e > 0 else (e + 1) // 2
            out = P.mul(out, {((a, k),): Fraction(1)})
            rest2.append((a, e - 2 * k))
        else:
            rest2.append((a, e))
    rest = tuple(rest2)
    arg = P.mul({rest: Fraction(1)}, prim) if rest else prim
    if c < 0:
        arg = P.neg(arg)
        c = -c
    coef = _qsqrt(c)
    if P.is_const(arg) and P.const_val(arg) == 1:
        return mk(P.scale(out, coef))
    if not rest:
        r = P.poly_root(arg)
        if r is not None:
            coef, r = _qsqrt(c * r[0]), r[1]
            sg = P.sign(r)
            v = mk(r) if sg in ('+', '+0') else -mk(r) if sg in ('-', '-0') else abs(mk(r))
            return mk(P.scale(out, coef)) * v
        v = _ratio_root(arg)
        if v is not None:
            return mk(P.scale(out, coef)) * v
    # identical arguments share an atom
    a = P.T.find('sqrt', arg)
    if a is None:
        lo, hi, _, _ = P.interval(arg)
        alo = Fraction(0)
        ahi = None
        if lo is not None and lo > 0:
            alo = P.to_q(float(lo) ** 0.5) * Fraction(999999, 1000000) if float(lo) > 0 else Fraction(0)
        strict = P.sign(arg) == '+'
        if hi is not None:
            ahi = P.to_q(float(hi) ** 0.5) * Fraction(1000001, 1000000)
        a = P.T.new('sqrt', 'sqrt%d' % len(P.T.by_kind.get('sqrt', ())), arg=arg, lo=alo, hi=ahi,
                    lo_strict=strict and alo == 0)
    return mk(P.scale(P.mul(out, P.atom_poly(a)), coef))


def _ratio_root(p):
    """root of a ratio of two squares"""
    if not P._has_den(p) or len(p) > 40:
        return None
    num, den = P.clear(p)
    if len(num) > 200 or len(den) > 200 or not num:
        return None
    parts = []
    for q in (den, num):
        c, m, prim = P.content(q)
        k, prim = P.monic_even(prim)
        if c * k < 0:
            return None
        if any(e % 2 for _, e in m):
            return None
        r = (Fraction(1), prim) if P.is_const(prim) and P.const_val(prim) == 1 else P.poly_root(prim)
        if r is None:
            return None
        v = mk(P.mul({tuple((a, e // 2) for a, e in m): Fraction(1)}, r[1]))
        parts.append((abs(v), c * k * r[0]))
    (d, dc), (n, nc) = parts
    return mk({(): _qsqrt(nc / dc)}) * n / d


def sroot3(x):
    if not isinstance(x, S):
        return math.copysign(abs(x) ** (1. / 3.), x)
    p = x.p
    if P.is_const(p):
        c = float(P.const_val(p))
        return mk(P.const(math.copysign(abs(c) ** (1. / 3.), c)))
    if not P.sign(p) in ('+', '+0'):
        if x < 0:
            return float('nan')
    c, m, prim = P.content(p)
    if c < 0:
        c, prim = -c, P.neg(prim)
    arg = P.mul({m: Fraction(1)}, prim) if m else prim
    a = P.T.find('root3', arg)
    if a is None:
        a = P.T.new('root3', 'cbrt%d' % len(P.T.by_kind.get('root3', ())), arg=arg, lo=Fraction(0),
                    lo_strict=P.sign(arg) == '+')
    return mk(P.scale(P.atom_poly(a), P.to_q(float(c) ** (1. / 3.))))


SPLIT_EXP = True     # exp(a + b) = exp(a) exp(b), or one symbol for exp(a + b) ordered by its argument


def sexp(x):
    """exp, split over the monomials of its argument: exp(a+b) = exp(a) exp(b)"""
    if not isinstance(x, S):
        if isinstance(x, float) and not math.isfinite(x):
            return math.exp(x) if x < 0 else x
        try:
            return math.exp(x)
        except OverflowError:
            return float('inf')
    p = x.p
    r = {(): Fraction(1)}
    if not SPLIT_EXP and len(p) > 1:
        lead = min(m for m in p if m)
        neg = p[lead] < 0
        key = P.neg(p) if neg else p
        a = P.T.find('exp', key)
        if a is None:
            s = P.sign(key)
            lo, ls, hi, hs = Fraction(0), True, None, False
            if s in ('+', '+0'):
                lo, ls = Fraction(1), s == '+'
            if s in ('-', '-0'):
                hi, hs = Fraction(1), s == '-'
            a = P.T.new('exp', 'exp%d' % len(P.T.by_kind.get('exp', ())), arg=key, lo=lo, hi=hi, lo_strict=ls, hi_strict=hs)
        return mk({((a.idx, -1 if neg else 1),): Fraction(1)})
    for m, c in sorted(p.items()):
        if not m:
            r = P.scale(r, P.to_q(math.exp(float(c))))
            continue
        # exp(c * log A) = A^c
        if len(m) == 1 and m[0][1] == 1 and P.T.atoms[m[0][0]].kind == 'log':
            arg = P.T.atoms[m[0][0]].arg
            if c.denominator == 1:
                n = int(c)
                r = P.mul(r, P.power(arg, n))
                continue
            v = spow(mk(arg), c)
            r = P.mul(r, v.p)
            continue
        num, den = c.numerator, c.denominator
        if abs(num) > 64 or den > 64:
            key, n = {m: abs(c)}, (1 if c > 0 else -1)
        else:
            key, n = {m: Fraction(1, den)}, num
        a = P.T.find('exp', key)
        if a is None:
            lo, hi = Fraction(0), None
            s = P.sign(key)
            ls = True
            if s in ('+', '+0'):
                lo, ls = Fraction(1), s == '+'
            hs = False
            if s in ('-', '-0'):
                hi, hs = Fraction(1), s == '-'
            a = P.T.new('exp', 'exp%d' % len(P.T.by_kind.get('exp', ())), arg=key, lo=lo, hi=hi,
                        lo_strict=ls, hi_strict=hs)
        r = P.mul(r, {((a.idx, n),): Fraction(1)})
    return mk(r)


def slog(x):
    if not isinstance(x, S):
        if x > 0:
            return math.log(x)
        return float('-inf') if x == 0 else float('nan')
    p = x.p
    if P.is_const(p):
        c = P.const_val(p)
        return mk(P.const(math.log(float(c)))) if c > 0 else (float('-inf') if c == 0 else float('nan'))
    if P.sign(p) != '+':
        if x < 0:
            return float('nan')
        if x == 0:
            return float('-inf')
    c, m, prim = P.content(p)
    r = {}
    sgn_ok = True
    parts = []
    for a, e in m:
        at = P.T.atoms[a]
        if at.kind == 'exp':
            r = P.add(r, P.scale(at.arg, Fraction(e)))
        elif at.lo is not None and at.lo >= 0:
            parts.append(({((a, 1),): Fraction(1)}, e))
        else:
            sgn_ok = False
    if not sgn_ok or (not SPLIT_EXP and not P.is_const(prim)):
        parts, r = [(p, 1)], {}
        c = Fraction(1)
    else:
        if not P.is_const(prim):
            if c < 0:
                c, prim = -c, P.neg(prim)
            parts.append((prim, 1))
        if c != 1:
            r = P.add(r, P.const(math.log(float(c))))
    for q, e in parts:
        if len(q) == 1:
            (mm, cc), = q.items()
            if cc == 1 and len(mm) == 1 and P.T.atoms[mm[0][0]].kind == 'sqrt' and mm[0][1] == 1:
                # log sqrt(A) = log(A)/2
                v = slog(mk(P.T.atoms[mm[0][0]].arg))
                r = P.add(r, P.scale(lift(v), Fraction(e, 2)))
                continue
        a = P.T.find('log', q)
        if a is None:
            s1 = P.sign(P.add(q, P.const(-1)))
            lo = Fraction(0) if s1 in ('+', '+0') else None
            hi = Fraction(0) if s1 in ('-', '-0') else None
            a = P.T.new('log', 'log%d' % len(P.T.by_kind.get('log', ())), arg=q, lo=lo, hi=hi,
                        lo_strict=s1 == '+', hi_strict=s1 == '-')
        r = P.add(r, P.scale(P.atom_poly(a), Fraction(e)))
    return mk(r)


def _trig(arg):
    """(sin atom, cos atom) of the polynomial arg"""
    s = P.T.find('sin', arg, None) if False else None
    for a in P.T.by_kind.get('sin', ()):
        if P.close(a.arg, arg):
            return a, a.extra
    n = len(P.T.by_kind.get('sin', ()))
    c = P.T.new('cos', 'cos%d' % n, arg=arg, lo=Fraction(-1), hi=Fraction(1))
    s = P.T.new('sin', 'sin%d' % n, arg=arg, lo=Fraction(-1), hi=Fraction(1), extra=c)
    return s, c


def _sincos(x):
    """(sin x, cos x) by angle addition over the monomials of x"""
    if not isinstance(x, S):
        return math.sin(x), math.cos(x)
    sn, cs = S({}), S(P.const(1))
    for m, c in sorted(x.p.items()):
        if not m:
            a, b = mk(P.const(math.sin(float(c)))), mk(P.const(math.cos(float(c))))
        else:
            base = {m: Fraction(1, c.denominator)}
            n = c.numerator
            at = P.T.atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if at is not None and at.kind == 'atan' and c.denominator == 1:
                # s = x/sqrt(1+x^2), c = 1/sqrt(1+x^2)
                t = mk(at.arg)
                r = ssqrt(1 + t * t)
                a0, b0 = t / r, 1 / r
            elif at is not None and at.kind == 'atan' and c.denominator == 2:
                # half angle: cos(atan/2) = sqrt((1+C)/2) > 0, sin = sign(x) sqrt((1-C)/2)
                t = mk(at.arg)
                r = ssqrt(1 + t * t)
                b0 = ssqrt((1 + 1 / r) / 2)
                a0 = t / r / 2 / b0
            else:
                sa, ca = _trig(base)
                a0, b0 = mk(P.atom_poly(sa)), mk(P.atom_poly(ca))
            # multiples
            a, b = S({}), S(P.const(1))
            for _ in range(abs(n)):
                a, b = a * b0 + b * a0, b * b0 - a * a0
            if n < 0:
                a = -a
        sn, cs = sn * b + cs * a, cs * b - sn * a
    return sn, cs


def ssin(x):
    return _sincos(x)[0]


def scos(x):
    return _sincos(x)[1]


def satan(x):
    if not isinstance(x, S):
        return math.atan(x)
    if P.is_const(x.p):
        return mk(P.const(math.atan(float(P.const_val(x.p)))))
    c = x.p
    a = P.T.find('atan', c)
    if a is None:
        a = P.T.new('atan', 'atan%d' % len(P.T.by_kind.get('atan', ())), arg=c,
                    lo=Fraction(-11, 7), hi=Fraction(11, 7))
    return mk(P.atom_poly(a))


# ------------------------------------------------------------------------------------- engine
class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.feas = 0
        self.paths = 0
        self.trivial = 0


class Engine(object):
    def __init__(self, feas_ms=1500, max_paths=4000, deadline=None, lemmas=True):
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.lemmas = lemmas
        self.stats = Stats()
        self.path = []          # list of SB terms assumed/decided on this path
        self.prefix = []
        self.pos = 0
        self.stack = []
        self.vars = {}
        self.used_unknown = False

    # --- exploration
    def explore(self, fn):
        """run fn() once per feasible path"""
        global ENG
        ENG = self
        self.T = P.reset_table()
        self.vars = {}
        prefix = []
        while True:
            self.stats.paths += 1
            if self.stats.paths > self.max_paths:
                raise Limit('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Limit('time budget of the case')
            self.prefix = prefix
            self.pos = 0
            self.trace = []
            self.path = []
            self._reset_solver()
            try:
                fn()
            except Infeasible:
                pass
            # backtrack
            tr = self.trace
            while tr and not tr[-1][1]:
                tr.pop()
            if not tr:
                return
            last = tr.pop()
            prefix = [x[0] for x in tr] + [not last[0]]
            self._pref_alt = [x[1] for x in tr] + [False]

    _pref_alt = []

    def _reset_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self.solver.set('random_seed', SEED[0])
        self.defined = set()
        self.lemma_atoms = []

    def var(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        a = self.vars.get(name)
        if a is None:
            a = P.T.new('var', name, lo=None if lo is None else P.to_q(lo), hi=None if hi is None else P.to_q(hi),
                        lo_strict=lo_strict, hi_strict=hi_strict)
            self.vars[name] = a
        return mk(P.atom_poly(a))

    # --- z3 translation
    def zatom(self, a):
        if a.z is None:
            a.z = z3.Real(a.name)
        return a.z

    def zpoly(self, p):
        """z3 term of a polynomial without negative exponents"""
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            t = None
            for a, e in m:
                z = self.zatom(P.T.atoms[a])
                for _ in range(e):
                    t = z if t is None else t * z
            if t is None:
                ts.append(z3.RealVal(c))
            elif c == 1:
                ts.append(t)
            else:
                ts.append(z3.RealVal(c) * t)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def zcmp(self, op, p):
        num, den = P.clear(p)
        if op in ('==', '!='):
            t = self.zpoly(num)
            return (t == 0) if op == '==' else (t != 0)
        sg = P.sign(den)
        if sg == '+':
            q = num
        elif sg == '-':
            q = P.neg(num)
        else:
            q = P.mul(num, den)
        t = self.zpoly(q)
        return t < 0 if op == '<' else t <= 0

    def zbool(self, t):
        if isinstance(t, SB):
            t = t.t
        if isinstance(t, bool):
            return z3.BoolVal(t)
        k = t[0]
        if k == 'cmp':
            return self.zcmp(t[1], t[2])
        if k == 'and':
            return z3.And([self.zbool(x) for x in t[1:]])
        if k == 'or':
            return z3.Or([self.zbool(x) for x in t[1:]])
        if k == 'not':
            return z3.Not(self.zbool(t[1]))
        raise ValueError(k)

    def atoms_of(self, t, acc):
        if isinstance(t, SB):
            t = t.t
        if isinstance(t, bool):
            return
        if t[0] == 'cmp':
            self.atoms_of_poly(t[2], acc)
        else:
            for x in t[1:]:
                self.atoms_of(x, acc)

    def atoms_of_poly(self, p, acc):
        for m in p:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    at = P.T.atoms[a]
                    if isinstance(at.arg, dict):
                        self.atoms_of_poly(at.arg, acc)
                    if at.kind == 'sin':
                        acc.add(at.extra.idx)

    def definition(self, at):
        """constraints that define the atom"""
        out = []
        z = self.zatom(at)
        if at.lo is not None:
            out.append(z > z3.RealVal(at.lo) if at.lo_strict else z >= z3.RealVal(at.lo))
        if at.hi is not None:
            out.append(z < z3.RealVal(at.hi) if at.hi_strict else z <= z3.RealVal(at.hi))
        if at.kind == 'sqrt' or at.kind == 'root3':
            num, den = P.clear(at.arg)
            zz = z * z if at.kind == 'sqrt' else z * z * z
            out.append(zz * self.zpoly(den) == self.zpoly(num))
            if at.lo is None:
                out.append(z >= 0)
        elif at.kind == 'inv':
            num, den = P.clear(at.arg)
            out.append(z * self.zpoly(num) == self.zpoly(den))
        elif at.kind == 'sin':
            c = self.zatom(at.extra)
            out.append(z * z + c * c == 1)
        return out

    def exp_lemmas(self, acc):
        """order axioms between the exponentials (value, argument) that occur"""
        pairs = []
        for a in sorted(acc):
            at = P.T.atoms[a]
            if at.kind == 'exp':
                pairs.append((at.arg, P.atom_poly(at)))
            elif at.kind == 'log':
                pairs.append((P.atom_poly(at), at.arg))
        out = []
        for i, (x, ex) in enumerate(pairs):
            out.append(z3.And(z3.Implies(self.zcmp('<', P.neg(x)), self.zcmp('<', P.add(P.const(1), P.neg(ex)))),
                              z3.Implies(self.zcmp('<', x), self.zcmp('<', P.add(ex, P.const(-1)))),
                              z3.Implies(self.zcmp('==', x), self.zcmp('==', P.add(ex, P.const(-1))))))
            for j in range(i):
                y, ey = pairs[j]
                d, de = P.add(x, P.neg(y)), P.add(ex, P.neg(ey))
                out.append(z3.And(z3.Implies(self.zcmp('<', d), self.zcmp('<', de)),
                                  z3.Implies(self.zcmp('<', P.neg(d)), self.zcmp('<', P.neg(de))),
                                  z3.Implies(self.zcmp('==', d), self.zcmp('==', de))))
                if not SPLIT_EXP:
                    d, de = P.add(x, y), P.add(P.mul(ex, ey), P.const(-1))
                    out.append(z3.And(z3.Implies(self.zcmp('<', d), self.zcmp('<', de)),
                                      z3.Implies(self.zcmp('<', P.neg(d)), self.zcmp('<', P.neg(de))),
                                      z3.Implies(self.zcmp('==', d), self.zcmp('==', de))))
        return out

    def _add_defs(self, solver, acc, defined):
        new = [a for a in sorted(acc) if a not in defined]
        for a in new:
            defined.add(a)
            for c in self.definition(P.T.atoms[a]):
                solver.add(c)

    def assume(self, c):
        c = sb(c)
        if c.t is True:
            return
        if c.t is False:
            raise Infeasible()
        self.path.append(c.t)
        acc = set()
        self.atoms_of(c, acc)
        self._add_defs(self.solver, acc, self.defined)
        self.solver.add(self.zbool(c))

    def feasible(self, c):
        """may c hold on this path?  True / False / None (unknown)"""
        self.stats.feas += 1
        acc = set()
        self.atoms_of(c, acc)
        self._add_defs(self.solver, acc, self.defined)
        t0 = time.time()
        self.solver.push()
        self.solver.add(self.zbool(c))
        r = checked(self.solver, self.feas_ms)
        self.solver.pop()
        self.stats.solver_s += time.time() - t0
        return True if r == z3.sat else False if r == z3.unsat else None

    def decide(self, c):
        t = c.t
        if isinstance(t, bool):
            return t
        if self.deadline and time.time() > self.deadline:
            raise Limit('time budget of the case')
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            alt = self._pref_alt[self.pos]
            self.pos += 1
            self.trace.append((v, alt))
            self.assume(c if v else sb_not(c))
            return v
        self.pos += 1
        ft = self.feasible(c)
        ff = self.feasible(sb_not(c)) if ft is not False else True
        if ft is False and ff is False:
            raise Infeasible()
        if ft is False:
            self.trace.append((False, False))
            self.assume(sb_not(c))
            return False
        if ff is False:
            self.trace.append((True, False))
            self.assume(c)
            return True
        self.trace.append((True, True))
        self.assume(c)
        return True

    def choose(self, name):
        """a free boolean: both values are explored"""
        if self.pos < len(self.prefix):
            v, alt = self.prefix[self.pos], self._pref_alt[self.pos]
        else:
            v, alt = True, True
        self.pos += 1
        self.trace.append((v, alt))
        return v

    # --- equalities that the path implies
    def equalities(self):
        """linear equalities between atoms implied by the linear part of the path condition"""
        lin = []
        cand = []

        def walk(t, neg):
            if isinstance(t, bool):
                return
            if t[0] == 'not':
                return walk(t[1], not neg)
            if (t[0] == 'and' and not neg) or (t[0] == 'or' and neg):
                for x in t[1:]:
                    walk(x, neg)
                return
            if t[0] != 'cmp':
                return
            op, p = t[1], t[2]
            if neg:
                op = {'<': '>=', '<=': '>', '==': '!=', '!=': '=='}[op]
            num, den = P.clear(p)
            if P.sign(den) != '+':
                return
            if any(sum(e for _, e in m) > 1 for m in num):
                return
            lin.append((op, num))
        for t in self.path:
            walk(t, False)
        if not lin:
            return []
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 2000)
        acc = set()
        for op, p in lin:
            for m in p:
                for a, _ in m:
                    acc.add(a)
            z = self.zpoly(p)
            if op != '!=':
                s.add({'<': z < 0, '<=': z <= 0, '==': z == 0, '>': z > 0, '>=': z >= 0}[op])
        for a in acc:
            at = P.T.atoms[a]
            z = self.zatom(at)
            if at.lo is not None:
                s.add(z > z3.RealVal(at.lo) if at.lo_strict else z >= z3.RealVal(at.lo))
                if not at.lo_strict:
                    cand.append(P.add(P.atom_poly(at), P.const(-at.lo)))
            if at.hi is not None:
                s.add(z < z3.RealVal(at.hi) if at.hi_strict else z <= z3.RealVal(at.hi))
        out = []
        for op, p in [x for x in lin if x[0] in ('<=', '>=', '==')] + [('<=', c) for c in cand]:
            if op == '==':
                out.append(p)
                continue
            s.push()
            s.add(self.zpoly(p) != 0)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                out.append(p)
        return out

    def reduce(self, p):
        """rewrite the polynomial p (no negative exponents) modulo the implied linear equalities"""
        eqs = self.equalities()
        subst = []
        for e in eqs:
            for a, r in subst:
                e = substitute(e, a, r)
            lead = None
            for m in e:
                if m and (lead is None or m[0][0] > lead):
                    lead = m[0][0]
            if lead is None:
                continue
            c = e[((lead, 1),)]
            r = P.scale({m: v for m, v in e.items() if m != ((lead, 1),)}, -1 / c)
            subst = [(a, substitute(x, lead, r)) for a, x in subst] + [(lead, r)]
        for a, r in subst:
            p = substitute(p, a, r)
        return p

    # --- queries
    def constraints(self, goal):
        """all constraints of path and goal (a SB), definitions and lemmas included"""
        acc = set()
        for t in self.path:
            self.atoms_of(t, acc)
        self.atoms_of(goal, acc)
        cs = []
        for a in sorted(acc):
            cs.extend(self.definition(P.T.atoms[a]))
        cs += [self.zbool(t) for t in self.path]
        if self.lemmas:
            cs += self.exp_lemmas(acc)
        return cs, acc

    def check(self, goal, timeout_ms=20000, extra=(), want_model=True, seed=7):
        """is path and goal satisfiable?  returns ('unsat',None) | ('sat',{var: Fraction}) | ('unknown',None)"""
        goal = sb(goal)
        self.stats.queries += 1
        if goal.t is False:
            self.stats.trivial += 1
            self.stats.unsat += 1
            return 'unsat', None
        cs, acc = self.constraints(goal)
        cs = cs + [self.zbool(goal)] + list(extra)
        if extra:
            for a in self.vars.values():
                if a.idx not in acc:
                    cs.extend(self.definition(a))
        t0 = time.time()
        res, model = solve(cs, timeout_ms, seed)
        self.stats.solver_s += time.time() - t0
        if res == 'unsat':
            self.stats.unsat += 1
            return 'unsat', None
        if res == 'sat':
            self.stats.sat += 1
            vals = {}
            for n, a in self.vars.items():
                if a.z is not None and (a.idx in acc or extra):
                    v = model.eval(a.z, model_completion=True)
                    vals[n] = zval(v)
                else:
                    vals[n] = default_val(a)
            return 'sat', vals
        self.stats.unknown += 1
        return 'unknown', None


def substitute(p, a, r):
    """p with the polynomial r in place of atom a (non-negative exponents of a)"""
    out = {}
    pw = {}
    for m, c in p.items():
        e = dict(m).get(a, 0)
        if e == 0:
            out = P.add(out, {m: c})
        elif e < 0:
            return p
        else:
            if e not in pw:
                pw[e] = P.power(r, e)
            rest = tuple(x for x in m if x[0] != a)
            out = P.add(out, P.mul({rest: c}, pw[e]))
    return out


def default_val(a):
    if a.lo is not None and a.hi is not None:
        return (a.lo + a.hi) / 2
    if a.lo is not None:
        return a.lo + 1
    if a.hi is not None:
        return a.hi - 1
    return Fraction(1)


def zval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(1)


SEED = [7]
HEARTBEAT = [None]      # shared with the parent process: until when the running query may take (0: none is running)


def checked(solver, timeout_ms):
    """solver.check(); z3 now and then ignores its timeout, so the parent process watches the deadline"""
    h = HEARTBEAT[0]
    if h is None:
        return solver.check()
    h.value = time.time() + timeout_ms / 1000. * 2 + 15
    try:
        return solver.check()
    finally:
        h.value = 0.


def solve(cs, timeout_ms, seed=7):
    """portfolio: default z3, then nlsat, then cvc5"""
    t1 = max(500, timeout_ms // 4)
    s = z3.Solver()
    s.set('timeout', t1)
    s.set('random_seed', seed + SEED[0] - 7)
    s.add(*cs)
    r = checked(s, t1)
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', s.model()
    try:
        s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
        s2.set('timeout', max(500, timeout_ms // 2))
        s2.add(*cs)
        r = checked(s2, max(500, timeout_ms // 2))
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s2.model()
    except z3.Z3Exception:
        pass
    r = cvc5_check(s, max(500, timeout_ms // 4))
    if r == 'unsat':
        return 'unsat', None
    return 'unknown', None


def cvc5_check(solver, ms):
    import subprocess
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown'
    txt = '(set-logic QF_NRA)\n' + solver.to_smt2()
    try:
        out = subprocess.run([exe, '--lang=smt2', '--nl-cov', '--tlimit=%d' % ms, '-'], input=txt.encode(),
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=ms / 1000. + 5)
        o = out.stdout.decode().strip().splitlines()
        if o and o[0] in ('unsat', 'sat'):
            return o[0]
    except Exception:
        pass
    return 'unknown'
