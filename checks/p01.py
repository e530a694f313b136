"""P01: the analytic D-functions are the integrals that define them."""
import itertools
from fractions import Fraction
from .base import Check, four

CHECK = Check(
    'P01', 'D-functions equal their defining integrals',
    functions=['four_particle/cpp/Ds.cpp: D1, D2, D3'],
    bounds='all real momenta q >= 0, degenerate surfaces included; exact real arithmetic',
    outside='rounding of the floating-point evaluation')
case = CHECK.case


def signed_sums(q, kernels):
    """(2/pi) * 4/... integral of a product of sines/cosines, written as a sum over signs.

    kernels[i] in 's', 'c': sin(q_i x) or cos(q_i x).  Yields (coefficient, |argument|) of the
    expansion of prod kernel_i = sum coefficient * cos(argument * x); the number of sines is even.
    """
    n = len(q)
    ns = sum(1 for k in kernels if k == 's')
    for sg in itertools.product((1, -1), repeat=n):
        c = 1
        for k, s in zip(kernels, sg):
            if k == 's':
                c *= s
        arg = 0
        for s, x in zip(sg, q):
            arg = arg + s * x
        # prod sin,cos = 2^-n * sum over signs of (prod of sine signs) * i^-ns * exp(i arg x)
        yield Fraction(c * (-1) ** (ns // 2), 2 ** n), arg


# int_0^inf cos(b x)/x^2 -> -pi|b|/2, /x^4 -> pi|b|^3/12, /x^6 -> -pi|b|^5/240   (finite part)
FP = {2: (Fraction(-1, 2), 1), 4: (Fraction(1, 12), 3), 6: (Fraction(-1, 240), 5)}


def moment(q, kernels, power):
    """(1/pi) * finite part of int_0^inf prod(kernels) / x^power dx"""
    c0, e = FP[power]
    r = 0
    for c, b in signed_sums(q, kernels):
        b = abs(b)
        t = b
        for _ in range(e - 1):
            t = t * b
        r = r + float(c * c0) * t
    return r


def d1_def(q):
    return 4. * moment(q, 'ssss', 2)


def expand(q, n_plain):
    """4/pi int dx/x^2 prod_{i<n_plain} sin(q_i x) prod_{i>=n_plain} (q_i cos(q_i x) - sin(q_i x)/x)"""
    r = 0
    k = 4 - n_plain
    for pick in itertools.product((0, 1), repeat=k):
        coef, kern, power = 1, 's' * n_plain, 2
        for i, b in enumerate(pick):
            if b == 0:
                coef = coef * q[n_plain + i]
                kern += 'c'
            else:
                coef = coef * -1.
                kern += 's'
                power += 1
        # odd total power of x goes with an odd number of sines: integrate by parts is avoided by
        # the identity below, valid for the finite part
        r = r + coef * moment_any(q, kern, power)
    return 4. * r


FPS = {3: (Fraction(-1, 4), 2), 5: (Fraction(1, 48), 4)}


def moment_any(q, kernels, power):
    ns = kernels.count('s')
    if ns % 2 == 0:
        return moment(q, kernels, power)
    # product of an odd number of sines = sum c * sin(arg x); FP int sin(b x)/x^3 = -pi b|b|/4,
    # FP int sin(b x)/x^5 = pi b|b|^3/48
    c0, e = FPS[power]
    r = 0
    for sg in itertools.product((1, -1), repeat=len(q)):
        c = 1
        for k, s in zip(kernels, sg):
            if k == 's':
                c *= s
        arg = 0
        for s, x in zip(sg, q):
            arg = arg + s * x
        b = abs(arg)
        t = arg
        for _ in range(e - 1):
            t = t * b
        r = r + float(Fraction(c * (-1) ** ((ns - 1) // 2), 2 ** len(q)) * c0) * t
    return r


def momenta(ctx, n=4):
    return [ctx.real('q%d' % (i + 1), lo=0) for i in range(n)]


@case(budget=200, weight=3)
def d1(ctx):
    q = momenta(ctx)
    m = four(ctx)
    ctx.eq(m.D1(*q), d1_def(q), 'D1 is its integral', scale=sum(q))


@case(budget=300, weight=5)
def d2(ctx):
    q = momenta(ctx)
    m = four(ctx)
    ctx.eq(m.D2(*q), expand(q, 2), 'D2 is its integral', scale=sum(q) ** 3)


@case(budget=300, weight=5)
def d3(ctx):
    q = momenta(ctx)
    m = four(ctx)
    ctx.eq(m.D3(*q), expand(q, 0), 'D3 is its integral', scale=sum(q) ** 5)
