"""P15: thermodynamics of every regime."""
from .base import Check, repo
from .part import particle, array, Box

CHECK = Check(
    'P15', 'Thermodynamics follows from the distribution in every regime',
    functions=['particles/RadiationParticle.py, DustParticle.py, IntermediateParticle.py, NonEqParticle.py: density, energy_density, pressure, entropy, '
               'numerator, denominator', 'particles/__init__.py: populate_methods', 'common/integrators: integrate_1D, gauss_laguerre, lambda_integrate'],
    bounds='all masses, temperatures, scale factors, degrees of freedom, occupation numbers and collision terms; quadratures of order 2 and 3 '
           '(the integrands do not depend on the order), grids of 3 and 5 momenta; Laguerre, Legendre and Simpson variants',
    outside='the error of the quadratures themselves (P10 for their exactness), zeta(3) is approximated by 1.2 in the density of radiation (0.2 percent)')
case = CHECK.case


def thermal_state(ctx, massive=True, **kw):
    eta = 1 if ctx.flag('fermion') else -1
    p = particle(ctx, 3, eta=eta, dof=ctx.pos('dof'), **kw)
    p.mass = ctx.pos('mass') if massive else 0.
    a, T, m = ctx.pos('a'), ctx.pos('T'), ctx.pos('m')
    p.params = Box(a=a, T=T, aT=a * T, m=m, x=a * m, t=1., h=1., H=1., a_ini=1.)
    p.T, p.aT = T, a * T
    return p, eta, a, T


def populated(p):
    p.populate_methods()
    return p.density, p.energy_density, p.pressure, p.entropy


@case(env={'REGIME_SWITCHING_FACTOR': '1e3'})
def radiation(ctx):
    import math
    p, eta, a, T = thermal_state(ctx)
    p.decoupling_temperature = 0.
    ctx.assume(T > p.mass * 1000)
    n, rho, P, s = populated(p)
    g = p.dof * (1 if eta == -1 else 7. / 8)
    ctx.eq(rho, g * math.pi ** 2 / 30 * T ** 4, 'radiation: energy density')
    ctx.eq(P, rho / 3, 'radiation: pressure is a third of the energy density')
    ctx.eq(s * T, rho + P, 'radiation: entropy density is (rho + p) / T')
    ctx.close(n, p.dof * (1 if eta == -1 else 0.75) * 1.2020569031595942 / math.pi ** 2 * T ** 3, 'radiation: number density', tol=0.005)
    ctx.eq(p.numerator(), 0., 'radiation does not heat the plasma')
    # d(rho a^4)/d(aT) at fixed a
    ctx.eq(p.denominator(), 4 * rho * a ** 4 / (a * T), 'radiation: heat capacity is that of its energy density')


@case(env={'REGIME_SWITCHING_FACTOR': '2', 'GAUSS_LEGENDRE_ORDER': '2', 'GAUSS_LAGUERRE_ORDER': '2'})
def dust(ctx):
    import math
    import numpy
    p, eta, a, T = thermal_state(ctx)
    p.decoupling_temperature = 0.
    ctx.assume(T * 2.5 < p.mass)
    n, rho, P, s = populated(p)
    ctx.eq(n ** 2, p.dof ** 2 * (p.mass * T / 2 / math.pi) ** 3 * numpy.exp(-p.mass / T) ** 2, 'dust: Boltzmann density')
    ctx.ge(n, 0, 'dust: density is not negative')
    ctx.eq(rho, n * (p.mass + 1.5 * T), 'dust: energy density')
    ctx.eq(P, n * T, 'dust: ideal gas pressure')
    ctx.eq(s * T, rho + P, 'dust: entropy density is (rho + p) / T')


def bose_fermi(ctx, E, T, eta):
    import numpy
    return 1. / (numpy.exp(E / T) + eta)


def intermediate(ctx, order):
    import math
    import numpy
    p, eta, a, T = thermal_state(ctx)
    p.decoupling_temperature = 0.
    ctx.assume(ctx.all(T < p.mass * 1000, p.mass < T * 1000))
    n, rho, P, s = populated(p)
    pts, ws = numpy.polynomial.legendre.leggauss(order)
    N = R = Q = 0
    for u, w in zip(pts, ws):
        k = 10. * T * (float(u) + 1)
        E = numpy.sqrt(k ** 2 + p.mass ** 2)
        f = bose_fermi(ctx, E, T, eta)
        c = 10. * T * float(w) * p.dof / (2 * math.pi ** 2)
        N = N + c * k ** 2 * f
        R = R + c * k ** 2 * E * f
        Q = Q + c * k ** 4 / (3 * E) * f
    ctx.eq(n, N, 'massive species: number density is the integral of p^2 f')
    ctx.eq(rho, R, 'massive species: energy density is the integral of p^2 E f')
    ctx.eq(P, Q, 'massive species: pressure is the integral of p^4/3E f')
    ctx.eq(s * T, rho + P, 'massive species: entropy density is (rho + p) / T')


for o in (2, 3):
    case('intermediate_%d' % o, args=(o,), env={'GAUSS_LEGENDRE_ORDER': str(o), 'GAUSS_LAGUERRE_ORDER': '2'})(intermediate)


def heat(ctx, order, variant):
    """terms of the temperature equation of a massive species in equilibrium"""
    import math
    import numpy
    p, eta, a, T = thermal_state(ctx)
    p.decoupling_temperature = 0.
    if variant == 'dust':
        ctx.assume(p.mass > T * 3)
    else:
        ctx.assume(ctx.all(T < p.mass * 1000, p.mass < T * 1000))
    p.populate_methods()
    num, den = p.numerator(), p.denominator()
    aT, M = a * T, p.mass * a
    I2 = I4 = 0
    if variant == 'legendre':
        top = p.grid.MAX_MOMENTUM
        pts, ws = numpy.polynomial.legendre.leggauss(order)
        for u, w in zip(pts, ws):
            y = top / 2. * (float(u) + 1)
            f = bose_fermi(ctx, numpy.sqrt(y ** 2 + M ** 2), aT, eta)
            # -df/d(E/aT) = f (1 - eta f)
            d = top / 2. * float(w) * p.dof / (2 * math.pi ** 2) * f * (1 - eta * f)
            I2, I4 = I2 + d * y ** 2, I4 + d * y ** 4
    else:
        pts, ws = numpy.polynomial.laguerre.laggauss(order)
        for u, w in zip(pts, ws):
            u = float(u)
            E = aT * u + M
            y = aT * numpy.sqrt(u * (u + 2 * M / aT))
            z = numpy.exp(-E / aT)
            # f (1 - eta f) = z / (1 + eta z)^2; dy = E/y dE; the weights hold a factor exp(-u)
            d = float(w) * math.exp(u) * aT * E / y * p.dof / (2 * math.pi ** 2) * z / (1 + eta * z) ** 2
            I2, I4 = I2 + d * y ** 2, I4 + d * y ** 4
    x, m = p.params.x, p.params.m
    ctx.eq(num * m, M ** 2 / a / aT * I2, 'massive species: heating by the change of the comoving mass')
    ctx.eq(den * aT ** 2, I4 + M ** 2 * I2, 'massive species: heat capacity')


for variant in ('laguerre', 'legendre', 'dust'):
    for o in (1, 2):
        case('heat_%s_%d' % (variant, o), args=(o, variant), timeout_ms=40000,
             env={'GAUSS_LEGENDRE_ORDER': str(o), 'GAUSS_LAGUERRE_ORDER': str(o), 'REGIME_SWITCHING_FACTOR': '2' if variant == 'dust' else '1e3',
                  'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES': 'False' if variant == 'legendre' else 'True'})(heat)


def decoupled(ctx, n, massive):
    eta = 1 if ctx.flag('fermion') else -1
    p = particle(ctx, n, eta=eta, dof=ctx.pos('dof'))
    p.mass = ctx.pos('mass') if massive else 0.
    a, m = ctx.pos('a'), ctx.pos('m')
    p.params = Box(a=a, T=1., aT=a, m=m, x=a * m, t=1., h=1., H=1., a_ini=1.)
    p.aT, p.T, p.decoupling_temperature = 0.5, 0.5 / a, 1.
    ctx.assume(p.T < p.decoupling_temperature)
    f = [ctx.real('f%d' % i, lo=0, hi=1 if eta == 1 else None) for i in range(n)]
    p._distribution = array(ctx, f)
    return p, eta, a, f


def simpson(grid):
    import numpy
    from scipy.integrate import simpson as rule
    x = numpy.array([float(t) for t in grid])
    return [float(rule(numpy.eye(len(x))[i], x=x)) for i in range(len(x))]


def noneq(ctx, n, massive):
    import math
    import numpy
    p, eta, a, f = decoupled(ctx, n, massive)
    C = [ctx.real('C%d' % i) for i in range(n)]
    p.collision_integral = array(ctx, C)
    # f = 0 and f = 1 have no entropy; keep strictly between
    for x in f:
        ctx.assume(x > 0)
        if eta == 1:
            ctx.assume(x < 1)
    rho_, n_, P_, S_ = None, None, None, None
    n_, rho_, P_, S_ = populated(p)
    y = [float(t) for t in p.grid.TEMPLATE]
    w = simpson(y)
    c = p.dof / (2 * math.pi ** 2)
    E = [numpy.sqrt(t ** 2 + (p.mass * a) ** 2) if massive else t for t in y]
    N = sum(w[i] * y[i] ** 2 * f[i] for i in range(n)) * c
    R = sum(w[i] * y[i] ** 2 * E[i] * f[i] for i in range(n)) * c
    ctx.eq(n_ * a ** 3, N, 'decoupled species: number density is the integral of p^2 f')
    ctx.eq(rho_ * a ** 4, R, 'decoupled species: energy density is the integral of p^2 E f')
    Q = sum(w[i] * y[i] ** 4 / (3 * E[i]) * f[i] for i in range(n) if y[i]) * c
    ctx.eq(P_ * a ** 4, Q, 'decoupled species: pressure is the integral of p^4/3E f')
    if not massive:
        ctx.eq(P_, rho_ / 3, 'decoupled massless species: pressure is a third of the energy density')
    s = sum(-w[i] * y[i] ** 2 * (f[i] * numpy.log(f[i]) + eta * (1 - eta * f[i]) * numpy.log(1 - eta * f[i])) for i in range(n)) * c
    ctx.eq(S_ * a ** 3, s, 'decoupled species: Boltzmann entropy of the distribution')
    # heating of the plasma: minus the rate of change of the comoving energy density
    dR = sum(w[i] * y[i] ** 2 * E[i] * C[i] for i in range(n)) * c
    ctx.eq(p.numerator() * p.params.x, -dR, 'decoupled species: energy is exchanged with the plasma through collisions')
    ctx.eq(p.denominator(), 0., 'decoupled species do not share the temperature of the plasma')


for n in (3, 5):
    for massive in (False, True):
        case('noneq_%d_%s' % (n, 'massive' if massive else 'massless'), args=(n, massive))(noneq)


@case()
def empty(ctx):
    """no particles, no density"""
    p, eta, a, f = decoupled(ctx, 3, ctx.flag('massive'))
    p._distribution = array(ctx, [0., 0., 0.])
    for v, what in zip(populated(p), ('density', 'energy density', 'pressure', 'entropy')):
        ctx.eq(v, 0., 'empty species: ' + what)


def gaussian_noneq(ctx, order, massive):
    """the variant that integrates the interpolated distribution with Gauss-Legendre quadrature"""
    import math
    import numpy
    p, eta, a, f = decoupled(ctx, 3, massive)
    p._distribution = array(ctx, [f[0]] * 3)     # (interpolation is P07)
    for x in f:
        ctx.assume(x > 0)
        if eta == 1:
            ctx.assume(x < 1)
    C = [ctx.real('C%d' % i) for i in range(3)]
    p.collision_integral = array(ctx, C)
    top = p.grid.MAX_MOMENTUM
    pts, ws = numpy.polynomial.legendre.leggauss(order)
    y = [top / 2. * (float(u) + 1) for u in pts]
    w = [top / 2. * float(v) for v in ws]
    n_, rho_, P_, S_ = populated(p)
    c = p.dof / (2 * math.pi ** 2)
    E = [numpy.sqrt(t ** 2 + (p.mass * a) ** 2) if massive else t for t in y]
    g = [p.distribution(t) for t in y]
    ctx.eq(n_ * a ** 3, c * sum(w[i] * y[i] ** 2 * g[i] for i in range(order)), 'decoupled species: number density is the integral of p^2 f')
    ctx.eq(rho_ * a ** 4, c * sum(w[i] * y[i] ** 2 * E[i] * g[i] for i in range(order)), 'decoupled species: energy density is the integral of p^2 E f')
    ctx.eq(P_ * a ** 4, c * sum(w[i] * y[i] ** 4 / 3 / E[i] * g[i] for i in range(order)), 'decoupled species: pressure is the integral of p^4/3E f')
    s = c * sum(-w[i] * y[i] ** 2 * (g[i] * numpy.log(g[i]) + eta * (1 - eta * g[i]) * numpy.log(1 - eta * g[i])) for i in range(order))
    ctx.eq(S_ * a ** 3, s, 'decoupled species: Boltzmann entropy of the distribution')
    grid = [float(t) for t in p.grid.TEMPLATE]

    def at(t):
        for i in range(2):
            if grid[i] <= t <= grid[i + 1]:
                return C[i] + (C[i + 1] - C[i]) * (t - grid[i]) / (grid[i + 1] - grid[i])
    dR = c * sum(w[i] * y[i] ** 2 * E[i] * at(y[i]) for i in range(order))
    ctx.eq(p.numerator() * p.params.x, -dR, 'decoupled species: energy is exchanged with the plasma through collisions', scale=lambda: 1 + sum(abs(x) for x in C))
    ctx.eq(p.denominator(), 0., 'decoupled species do not share the temperature of the plasma')


for o in (1, 2):
    for massive in (False, True):
        case('gaussian_%d_%s' % (o, 'massive' if massive else 'massless'), args=(o, massive), timeout_ms=40000,
             env={'GAUSS_LEGENDRE_ORDER': str(o), 'SIMPSONS_NONEQ_PARTICLES': 'False'})(gaussian_noneq)
