"""Normal forms for the symbolic numbers used by the engine.

A symbolic number is a Laurent polynomial with rational coefficients over *atoms*:
  var        an input of the property
  sqrt(P)    s >= 0, s*s = P
  root3(P)   r*r*r = P, r >= 0 for P >= 0
  exp(P)     e > 0, related to the other exponentials by order axioms
  log(P)     exp(log P) = P
  inv(P)     r*P = 1 (only used when P is not a single monomial)
  sin/cos(P) s*s + c*c = 1
  fun        uninterpreted application
Nothing is approximated except that a double constant is replaced by the simplest rational that
rounds to it, and that two atoms whose arguments agree coefficient by coefficient to 1e-12 are
identified (both are below the tolerance the claims are stated with).
"""
from fractions import Fraction
import math

MERGE_TOL = Fraction(1, 10**12)


def _simplest_between(lo, hi):
    """simplest fraction in the closed interval [lo, hi], 0 < lo <= hi"""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    rest = _simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / rest


_f2q = {}


def to_q(x):
    """float/int/Fraction -> exact rational (simplest one that rounds to the double)"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    r = _f2q.get(x)
    if r is not None:
        return r
    if x == 0:
        return Fraction(0)
    ax = abs(x)
    q = Fraction(ax)
    if q.denominator <= 4096 and q.numerator < 2**60:
        r = q
    else:
        up = Fraction(math.nextafter(ax, math.inf))
        dn = Fraction(math.nextafter(ax, 0.0))
        # half an ulp either way, shrunk a little so that rounding is certain
        r = _simplest_between(q - (q - dn) * Fraction(49, 100), q + (up - q) * Fraction(49, 100))
    if x < 0:
        r = -r
    _f2q[x] = r
    return r


class Atom(object):
    __slots__ = ('idx', 'kind', 'name', 'arg', 'lo', 'hi', 'lo_strict', 'hi_strict', 'extra', 'z')

    def __repr__(self):
        return self.name


class Table(object):
    """all atoms; append only, shared by the paths of one case"""

    def __init__(self):
        self.atoms = []
        self.by_kind = {}
        self.names = {}

    def new(self, kind, name, arg=None, lo=None, hi=None, lo_strict=False, hi_strict=False, extra=None):
        a = Atom()
        a.idx = len(self.atoms)
        a.kind, a.arg, a.extra = kind, arg, extra
        base = name
        n = 1
        while name in self.names:
            n += 1
            name = '%s_%d' % (base, n)
        a.name = name
        self.names[name] = a
        a.lo, a.hi, a.lo_strict, a.hi_strict = lo, hi, lo_strict, hi_strict
        a.z = None
        self.atoms.append(a)
        self.by_kind.setdefault(kind, []).append(a)
        return a

    def find(self, kind, arg, extra=None):
        for a in self.by_kind.get(kind, ()):
            if a.extra == extra and close(a.arg, arg):
                return a
        return None


T = Table()


def reset_table():
    global T
    T = Table()
    return T


# ---------------------------------------------------------------- polynomials: dict mono -> Fraction
def close(p, q):
    if p is q:
        return True
    if len(p) != len(q):
        return False
    for m, c in p.items():
        d = q.get(m)
        if d is None:
            return False
        if c != d and abs(c - d) > MERGE_TOL * abs(c):
            return False
    return True


def const(c):
    c = to_q(c)
    return {(): c} if c else {}


def atom_poly(a, e=1):
    return {((a.idx, e),): Fraction(1)}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_val(p):
    return p.get((), Fraction(0))


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            s = v + c
            if s:
                # rounding dust of cancelled float constants
                if abs(s) < abs(v) * Fraction(1, 10**15):
                    del r[m]
                else:
                    r[m] = s
            else:
                del r[m]
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def scale(p, c):
    if not c:
        return {}
    return {m: v * c for m, v in p.items()}


def mmul(m1, m2):
    """product of monomials; returns (mono, needs_reduction)"""
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, ea = m1[i]
        b, eb = m2[j]
        if a == b:
            e = ea + eb
            if e:
                out.append((a, e))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def _reducible(m):
    atoms = T.atoms
    for a, e in m:
        k = atoms[a].kind
        if k == 'sqrt' and (e >= 2 or e <= -2):
            return True
        if k == 'root3' and (e >= 3 or e <= -3):
            return True
        if k == 'inv' and e < 0:
            return True
        if k == 'sin' and e >= 2:
            return True
    return False


def _reduce_mono(m):
    """replace sqrt^2, inv^-1, sin^2 by what they stand for"""
    atoms = T.atoms
    rest = []
    factor = {(): Fraction(1)}
    for a, e in m:
        at = atoms[a]
        if at.kind in ('sqrt', 'root3') and abs(e) >= (2 if at.kind == 'sqrt' else 3):
            n = 2 if at.kind == 'sqrt' else 3
            q, r = divmod(abs(e), n)
            f = power(at.arg, q if e > 0 else -q)
            factor = mul(factor, f)
            if r:
                rest.append((a, r if e > 0 else -r))
        elif at.kind == 'inv' and e < 0:
            factor = mul(factor, power(at.arg, -e))
        elif at.kind == 'sin' and e >= 2:
            c = at.extra
            q, r = divmod(e, 2)
            f = power({(): Fraction(1), ((c.idx, 2),): Fraction(-1)}, q)
            factor = mul(factor, f)
            if r:
                rest.append((a, r))
        else:
            rest.append((a, e))
    return mul({tuple(rest): Fraction(1)}, factor)


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    r = {}
    pend = None
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            c = c1 * c2
            if m and _reducible(m):
                if pend is None:
                    pend = {}
                pend[m] = pend.get(m, 0) + c
            else:
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
    if pend:
        for m, c in pend.items():
            if c:
                r = add(r, scale(_reduce_mono(m), c))
    return r


def power(p, n):
    if n < 0:
        return power(inverse(p), -n)
    r = {(): Fraction(1)}
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def inverse(p):
    """1/p (p not identically zero; the caller has excluded p == 0)"""
    if len(p) == 1:
        (m, c), = p.items()
        mm = tuple((a, -e) for a, e in m)
        r = {mm: 1 / c}
        if _reducible(mm):
            r = scale(_reduce_mono(mm), 1 / c)
        return r
    # p = content * m * primitive
    c, m, prim = content(p)
    a = T.find('inv', prim)
    if a is None:
        root = poly_root(prim)
        if root is not None:
            r = mul(power(inverse(root[1]), 2), {tuple((x, -e) for x, e in m): Fraction(1)})
            return scale(r, 1 / c / root[0])
        a = T.new('inv', 'inv%d' % len(T.by_kind.get('inv', ())), arg=prim)
    r = atom_poly(a)
    mm = tuple((x, -e) for x, e in m)
    r = mul(r, {mm: Fraction(1)})
    return scale(r, 1 / c)


def content(p):
    """p = c * m * prim with the leading coefficient of prim 1 and no common monomial factor"""
    monos = list(p)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for a in list(common):
            e = d.get(a, 0)
            c = common[a]
            # common power of a in every monomial (Laurent: minimum exponent)
            common[a] = min(c, e)
        for a, e in d.items():
            if a not in common:
                common[a] = min(0, e)
        for a in list(common):
            if common[a] == 0:
                del common[a]
    m = tuple(sorted(common.items()))
    if m:
        minv = tuple((a, -e) for a, e in m)
        q = {mmul(k, minv): c for k, c in p.items()}
    else:
        q = p
    lead = min(q)  # deterministic choice
    c = q[lead]
    if c != 1:
        q = {k: v / c for k, v in q.items()}
    return c, m, q


def divexact(p, q):
    """p / q when it is a polynomial (both sides up to monomials), else None"""
    if not p:
        return {}
    if len(p) > 400 or len(q) > 40 or len(q) < 2 or len(p) < 2:
        return None
    cp, mp, p1 = content(p)
    cq, mq, q1 = content(q)
    atoms = sorted({a for m in p1 for a, _ in m})
    pos = {a: i for i, a in enumerate(atoms)}
    if any(a not in pos for m in q1 for a, _ in m):
        return None

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    rem = {vec(m): c for m, c in p1.items()}
    div = {vec(m): c for m, c in q1.items()}
    lead = max(div)
    lc = div[lead]
    out = {}
    for _ in range(400):
        if not rem:
            break
        m = max(rem)
        t = tuple(x - y for x, y in zip(m, lead))
        if min(t) < 0:
            return None
        c = rem[m] / lc
        out[t] = c
        for v, x in div.items():
            k = tuple(a + b for a, b in zip(v, t))
            y = rem.get(k, Fraction(0)) - c * x
            if y:
                rem[k] = y
            else:
                rem.pop(k, None)
    if rem:
        return None
    r = {tuple((a, e) for a, e in zip(atoms, v) if e): x for v, x in out.items()}
    shift = mmul(mp, tuple((a, -e) for a, e in mq))
    return scale(mul(r, {shift: Fraction(1)}), cp / cq)


def monic_even(p):
    """(c, q) with p = c q and q having coefficient 1 at a monomial that is a square, if there is one"""
    even = [m for m in p if all(e % 2 == 0 for _, e in m)]
    c = p[min(even) if even else min(p)]
    return c, (p if c == 1 else {k: v / c for k, v in p.items()})


def poly_root(p):
    """(c, r) with c*r*r == p, or None (p without negative exponents; exact rational coefficients)"""
    if len(p) < 3 or len(p) > 300:
        return None
    atoms = sorted({a for m in p for a, _ in m})
    if any(e < 0 for m in p for _, e in m) or any(T.atoms[a].kind in ('sqrt', 'inv', 'root3') for a in atoms):
        return None
    pos = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)

    def mono(v):
        return tuple((a, e) for a, e in zip(atoms, v) if e)
    rem = {vec(m): c for m, c in p.items()}
    lead = max(rem)
    if any(e % 2 for e in lead):
        return None
    c = rem[lead]
    if c <= 0:
        return None
    top = c
    rem = {v: x / c for v, x in rem.items()}
    l, lc = tuple(e // 2 for e in lead), Fraction(1)
    root = {l: lc}
    del rem[lead]
    for _ in range(60):
        if not rem:
            return top, {mono(v): x for v, x in root.items()}
        m = max(rem)
        t = tuple(x - y for x, y in zip(m, l))
        if min(t) < 0 or t >= l:
            return None
        tc = rem[m] / (2 * lc)
        for v, x in list(root.items()) + [(t, tc / 2)]:
            k = tuple(a + b for a, b in zip(v, t))
            y = rem.get(k, Fraction(0)) - 2 * x * tc
            if y:
                rem[k] = y
            else:
                rem.pop(k, None)
        root[t] = tc
    return None


# ---------------------------------------------------------------- interval evaluation (outward, exact)
def _mono_interval(m):
    """(lo, hi) with None for unbounded, plus strictness flags, of a monomial"""
    lo, hi, los, his = Fraction(1), Fraction(1), False, False
    for a, e in m:
        iv = _pow_interval(T.atoms[a], e)
        if iv is None:
            return None
        lo, hi, los, his = _imul(lo, hi, los, his, *iv)
    return lo, hi, los, his


def _pow_interval(at, e):
    lo, hi, los, his = at.lo, at.hi, at.lo_strict, at.hi_strict
    if e % 2 == 0 and (lo is None or lo < 0):
        if e < 0:
            return Fraction(0), None, True, False
        if hi is not None and hi <= 0:
            nlo = hi ** e
            nhi = lo ** e if lo is not None else None
            return nlo, nhi, his, los
        nhi = max(lo ** e, hi ** e) if lo is not None and hi is not None else None
        return Fraction(0), nhi, False, False
    if e < 0:
        if lo is not None and (lo > 0 or lo == 0):
            nlo = Fraction(1) / hi ** (-e) if hi is not None else Fraction(0)
            nlos = his if hi is not None else True
            if lo > 0:
                return nlo, Fraction(1) / lo ** (-e), nlos, los
            return nlo, None, nlos, False
        if hi is not None and hi <= 0:
            if e % 2:
                return None, Fraction(0), False, True
        return None, None, False, False
    nlo = lo ** e if lo is not None else None
    nhi = hi ** e if hi is not None else None
    return nlo, nhi, los, his


def _imul(a, b, as_, bs, c, d, cs, ds):
    if a is not None and a >= 0 and c is not None and c >= 0:
        lo = a * c
        # strict if both nonneg and product attained only at strict ends
        los = (as_ and (cs or c > 0)) or (cs and a > 0) or (as_ and cs)
        if a == 0 and not as_:
            los = False
        if c == 0 and not cs:
            los = False
        hi = b * d if b is not None and d is not None else None
        return lo, hi, los, bool(bs or ds)
    # general: corner products
    if None in (a, b, c, d):
        # sign cases only
        def sgn(lo, hi):
            if lo is not None and lo >= 0:
                return 1
            if hi is not None and hi <= 0:
                return -1
            return 0
        s = sgn(a, b) * sgn(c, d)
        strict = False
        if s > 0:
            return Fraction(0), None, strict, False
        if s < 0:
            z = ((as_ and a == 0) or (a is not None and a > 0) or (bs and b == 0) or (b is not None and b < 0)) and \
                ((cs and c == 0) or (c is not None and c > 0) or (ds and d == 0) or (d is not None and d < 0))
            return None, Fraction(0), False, bool(z)
        return None, None, False, False
    ps = [a * c, a * d, b * c, b * d]
    return min(ps), max(ps), False, False


def interval(p):
    lo = hi = Fraction(0)
    los = his = False
    for m, c in p.items():
        if m:
            iv = _mono_interval(m)
            if iv is None:
                return None, None, False, False
            a, b, as_, bs = iv
        else:
            a = b = Fraction(1)
            as_ = bs = False
        if c < 0:
            a, b, as_, bs = (None if b is None else b * c), (None if a is None else a * c), bs, as_
        else:
            a, b = (None if a is None else a * c), (None if b is None else b * c)
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
        los = los or as_
        his = his or bs
        if lo is None and hi is None:
            return None, None, False, False
    return lo, hi, los, his


def sign(p):
    """'+', '-', '0', '+0' , '-0' or None, from interval information only"""
    if not p:
        return '0'
    lo, hi, los, his = interval(p)
    if lo is not None and (lo > 0 or (lo == 0 and los)):
        return '+'
    if hi is not None and (hi < 0 or (hi == 0 and his)):
        return '-'
    if lo is not None and lo == 0:
        return '+0'
    if hi is not None and hi == 0:
        return '-0'
    return None


# ---------------------------------------------------------------- clearing denominators
def clear(p):
    """(num, den): polynomials without negative exponents or inv atoms, p = num/den"""
    atoms = T.atoms
    need = {}
    for m in p:
        for a, e in m:
            if atoms[a].kind == 'inv':
                need[a] = max(need.get(a, 0), e)
            elif e < 0:
                need[a] = max(need.get(a, 0), -e)
    if not need:
        return p, {(): Fraction(1)}
    den = {(): Fraction(1)}
    for a, e in need.items():
        at = atoms[a]
        base = at.arg if at.kind == 'inv' else {((a, 1),): Fraction(1)}
        if at.kind == 'inv':
            bn, bd = clear(base)
            base = bn  # the multiplier; bd handled by recursion below
        f = power(base, e)
        den = mul(den, f)
    # multiply monomial-wise so that inv atoms disappear
    num = {}
    for m, c in p.items():
        term = {(): c}
        md = dict(m)
        for a, e in need.items():
            at = atoms[a]
            if at.kind == 'inv':
                bn, bd = clear(at.arg)
                k = md.pop(a, 0)
                # r^k * bn^e = bn^(e-k) * (r*bn)^k ; r*bn = bd
                term = mul(term, power(bn, e - k))
                if k and not (is_const(bd) and const_val(bd) == 1):
                    term = mul(term, power(bd, k))
            else:
                k = md.pop(a, 0)
                t = k + e
                if t:
                    term = mul(term, power({((a, 1),): Fraction(1)}, t))
        restm = tuple(sorted(md.items()))
        term = mul(term, {restm: Fraction(1)}) if restm else term
        num = add(num, term)
    # reduction may have re-introduced denominators (sqrt args, nested inverses)
    if _has_den(num) or _has_den(den):
        n1, d1 = clear(num)
        n2, d2 = clear(den)
        return mul(n1, d2), mul(d1, n2)
    return num, den


def _has_den(p):
    for m in p:
        for a, e in m:
            if e < 0 or T.atoms[a].kind == 'inv':
                return True
    return False


def fmt(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items()):
        s = '*'.join(T.atoms[a].name + ('' if e == 1 else '^%d' % e) for a, e in m)
        cs = str(c) if len(str(c)) < 12 else '%.8g' % float(c)
        out.append(cs + ('*' + s if s else ''))
    return ' + '.join(out)
