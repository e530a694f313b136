"""P10: momentum-space quadratures."""
import math
from .base import Check, repo

CHECK = Check(
    'P10', 'Quadratures integrate to their order on any interval',
    functions=['common/integrators: integrate_1D, integrate_2D, gaussian, remap_interval, double_gaussian, lambda_integrate',
               'common/integrators/gauss_legendre, gauss_laguerre, paired'],
    bounds='quadrature orders 2..5, 12 and the default 100; every polynomial integrand up to the exact degree (up to 9) with arbitrary coefficients; all finite intervals '
           '(also empty and reversed ones), inner bounds linear in the outer variable',
    outside='adaptive quadrature (FIXED_ORDER_1D_QUADRATURE off calls QUADPACK); the Simpson variants only on grids of equal spacing')
case = CHECK.case


def poly(ctx, name, degree):
    c = [ctx.real('%s%d' % (name, k)) for k in range(degree + 1)]

    def f(x):
        r = 0 * x
        for k in reversed(range(degree + 1)):
            r = r * x + c[k]
        return r
    return c, f


def env(n):
    return {'GAUSS_LEGENDRE_ORDER': str(n), 'GAUSS_LAGUERRE_ORDER': str(n)}


def exact(ctx, n):
    repo(ctx)
    from common.integrators import integrate_1D
    degree = min(2 * n - 1, 9)
    c, f = poly(ctx, 'c', degree)
    a, b = ctx.pick('interval', [(-1., 1.), (0., 2.), (0., 20.), (1., 4.), (3., -1.), (2., 2.)])
    got, _ = integrate_1D(f, (a, b))
    want = sum(c[k] * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k in range(degree + 1))
    ctx.eq(got, want, 'polynomials are integrated exactly', scale=lambda: sum(abs(c[k]) * max(abs(a), abs(b), 1) ** (k + 1) for k in range(degree + 1)))


def affine(ctx, n):
    """any interval is mapped to the reference interval"""
    repo(ctx)
    from common.integrators import integrate_1D, lambda_integrate
    c, f = poly(ctx, 'c', min(2 * n - 1, 5))
    a, b = ctx.real('a'), ctx.real('b')
    got, _ = integrate_1D(f, (a, b))
    ref, _ = integrate_1D(lambda x: f(a + (b - a) * (x + 1) / 2), (-1., 1.))
    scale = lambda: sum(abs(x) for x in c) * (1 + abs(a) + abs(b)) ** 7
    ctx.eq(got, (b - a) / 2 * ref, 'the interval is mapped linearly', scale=scale, loose=True)
    back, _ = integrate_1D(f, (b, a))
    ctx.eq(back, -got, 'reversing the bounds changes the sign', scale=scale, loose=True)

    @lambda_integrate((a, b))
    def g():
        return f
    ctx.eq(g(), got, 'the decorator integrates over its bounds', scale=scale, loose=True)


def plane(ctx, n):
    """double integrals with inner bounds that depend on the outer variable"""
    repo(ctx)
    from common.integrators import integrate_2D
    from common.integrators import paired
    c, f = poly(ctx, 'c', 2)
    d, g = poly(ctx, 'd', 1)
    a, b = ctx.pick('outer', [(0., 1.), (-1., 3.)])
    lo, hi = ctx.pick('inner', [((0., 0.), (1., 0.)), ((0., 0.), (0., 1.)), ((-1., 0.5), (2., 1.))])
    low = lambda x: lo[0] + lo[1] * x
    high = lambda x: hi[0] + hi[1] * x
    got, _ = integrate_2D(lambda x, y: f(x) * g(y), ((a, b), (low, high)))

    def exactly(c, d):
        """exact integral of sum c_k x^k sum d_j y^j"""
        from numpy.polynomial import Polynomial as Q
        r = 0
        for k in range(len(c)):
            for j in range(len(d)):
                inner = (Q([hi[0], hi[1]]) ** (j + 1) - Q([lo[0], lo[1]]) ** (j + 1)) / (j + 1)
                whole = (Q([0, 1]) ** k * inner).integ()
                r = r + c[k] * d[j] * float(whole(b) - whole(a))
        return r
    scale = lambda: 1e3 * sum(abs(x) for x in c) * sum(abs(x) for x in d)
    ctx.eq(got, exactly(c, d), 'double integrals of polynomials are exact', scale=scale)
    one, two = paired.integrate_2D(lambda x, y: (f(x) * g(y), g(y) + 0 * x), ((a, b), (low, high)))
    ctx.eq(one, exactly(c, d), 'paired double integral, first integrand', scale=scale)
    ctx.eq(two, exactly([1.], d), 'paired double integral, second integrand', scale=lambda: 1e3 * sum(abs(x) for x in d))


def pairs(ctx, n):
    repo(ctx)
    import numpy
    from common.integrators import integrate_1D, paired
    c, f = poly(ctx, 'c', 3)
    d, g = poly(ctx, 'd', 2)
    a, b = ctx.real('a'), ctx.real('b')
    ctx.assume(a < b)
    one, two = paired.integrate_1D(lambda x: numpy.array([f(x), g(x)]), (a, b))
    scale = lambda: sum(abs(x) for x in c + d) * (1 + abs(a) + abs(b)) ** 5
    ctx.eq(one, integrate_1D(f, (a, b))[0], 'paired integral, first integrand', scale=scale, loose=True)
    ctx.eq(two, integrate_1D(g, (a, b))[0], 'paired integral, second integrand', scale=scale, loose=True)


def laguerre(ctx, n):
    repo(ctx)
    from common.integrators import gauss_laguerre
    degree = min(2 * n - 1, 9)
    c, f = poly(ctx, 'c', degree)
    got, _ = gauss_laguerre.integrate_1D(f)
    ctx.eq(got, sum(c[k] * math.factorial(k) for k in range(degree + 1)), 'polynomials times exp(-x) are integrated exactly',
           scale=lambda: sum(abs(c[k]) * math.factorial(k) for k in range(degree + 1)))


@case(env=env(3))
def simpson(ctx):
    repo(ctx)
    import numpy
    from common.integrators import paired
    x = numpy.linspace(0., 2., 5)
    c, f = poly(ctx, 'c', 3)
    d, g = poly(ctx, 'd', 2)
    one, two = paired.integrate_1D_simpsons([f(x), g(x)], x)
    ctx.eq(one, sum(c[k] * 2. ** (k + 1) / (k + 1) for k in range(4)), 'Simpson integrates cubics exactly', scale=lambda: sum(abs(v) for v in c) * 10)
    ctx.eq(two, sum(d[k] * 2. ** (k + 1) / (k + 1) for k in range(3)), 'Simpson integrates cubics exactly', scale=lambda: sum(abs(v) for v in d) * 10)


for n in (2, 3, 4, 5, 12, 100):
    case('exact_%d' % n, env=env(n), args=(n,))(exact)
    if n < 100:
        case('laguerre_%d' % n, env=env(n), args=(n,))(laguerre)
for n in (2, 3):
    case('affine_%d' % n, env=env(n), args=(n,))(affine)
    case('pairs_%d' % n, env=env(n), args=(n,))(pairs)
for n in (3, 4):
    case('plane_%d' % n, env=env(n), args=(n,))(plane)
