"""P07: interpolation of distribution functions between grid momenta."""
from .base import Check, repo, four, three
from symx import core

CHECK = Check(
    'P07', 'Distribution functions are interpolated exactly and within bounds',
    functions=['four_particle/cpp/integral.cpp: binary_find, distribution_interpolation', 'three_particle/cpp/integral.cpp: '
               'binary_find, distribution_interpolation', 'common/__init__.py: binary_find, interp',
               'particles/__init__.py: DistributionParticle.distribution'],
    bounds='every increasing grid of 2..6 momenta starting at 0, every table of occupation numbers in [0, 1) (fermions) or '
           '[0, inf) (bosons), every momentum, mass >= 0 and temperature > 0',
    outside='grids of more than 6 points; rounding; occupation numbers of exactly 1 for fermions')
case = CHECK.case


def grid(ctx, n):
    xs = [0.]
    for i in range(1, n):
        xs.append(xs[-1] + ctx.pos('d%d' % i))
    return xs


class G(object):
    pass


def arr(ctx, x):
    import numpy
    if ctx.symbolic:
        return numpy.array([numpy.float64(v) if isinstance(v, float) else v for v in x], dtype=object)
    return numpy.array(x, dtype=float)


def implementations(ctx, which):
    """distribution(grid, table, p, m, eta, T, in_equilibrium) in the three places the code computes it"""
    if which == 'four':
        m = four(ctx)
    elif which == 'three':
        m = three(ctx)
    if which in ('four', 'three'):
        return lambda g, f, p, ms, eta, T, eq: one(m.distribution_interpolation(g, f, p, ms, eta, T, eq))
    repo(ctx)
    from common import interp
    from particles import Particle

    def py(g, f, p, ms, eta, T, eq):
        q = G()
        q.in_equilibrium = eq
        q.aT = T
        q.eta = float(eta)
        q.mass = ms
        q.grid = G()
        q.grid.TEMPLATE = arr(ctx, g)
        q.grid.MOMENTUM_SAMPLES = len(g)
        q.grid.MAX_MOMENTUM = g[-1]
        q._distribution = arr(ctx, f)
        q.conformal_energy = lambda y, cm=None: Particle.conformal_energy(q, y, ms if cm is None else cm)
        return one(interp(q, p, ms))
    return py


def one(x):
    import numpy
    if isinstance(x, numpy.ndarray):
        return x.reshape(-1)[0]
    return x


def find_index(ctx, which):
    if which == 'four':
        f = four(ctx).binary_find
        return lambda g, x: f(g, x)
    if which == 'three':
        f = three(ctx).binary_find
        return lambda g, x: f(g, x)
    repo(ctx)
    from common import binary_find

    def py(g, x):
        q = G()
        q.TEMPLATE = arr(ctx, g)
        q.MOMENTUM_SAMPLES = len(g)
        return binary_find(q, x)
    return py


def locate(ctx, which, n):
    """the pair of grid indices around a momentum"""
    if ctx.symbolic:
        core.SPLIT_EXP = False
    find = find_index(ctx, which)
    g = grid(ctx, n)
    for i in range(n):
        lo, hi = find(g, g[i])
        ctx.true(int(lo) == i and int(hi) == i, 'a grid momentum is found at its own index')
    x = ctx.real('x')
    lo, hi = (int(k) for k in find(g, x))
    if x > g[-1]:
        ctx.true(lo == n - 1 and hi == -1, 'a momentum above the grid is reported as such')
    elif x < 0:
        ctx.true(lo == -1 and hi == 0, 'a momentum below the grid is reported as such')
    elif lo == hi:
        ctx.true(x == g[lo], 'equal indices mean a grid momentum')
    else:
        ctx.true(hi == lo + 1 and lo >= 0, 'indices are neighbours')
        ctx.true(ctx.all(g[lo] < x, x < g[hi]), 'neighbours surround the momentum')


def table(ctx, n, eta, zero=False):
    fs = []
    for i in range(n):
        v = ctx.real('f%d' % i, lo=0, hi=1 if eta == 1 else None, lo_strict=not zero, hi_strict=True)
        fs.append(v)
    return fs


def values(ctx, which, n, eta):
    """any table: grid values exact, inner values between the neighbours, tail decays"""
    if ctx.symbolic:
        core.SPLIT_EXP = False
    f = implementations(ctx, which)
    g = grid(ctx, n)
    tab = table(ctx, n, eta)
    T, m = ctx.pos('T'), ctx.real('m', lo=0)
    for i in range(n):
        ctx.eq(f(g, tab, g[i], m, eta, T, False), tab[i], 'grid values are reproduced')
    x = ctx.real('x', lo=0)
    got = f(g, tab, x, m, eta, T, False)
    if x > g[-1]:
        import numpy
        e1, e2 = numpy.sqrt(g[-1] ** 2 + m ** 2), numpy.sqrt(x ** 2 + m ** 2)
        ctx.eq(got, tab[-1] * numpy.exp((e1 - e2) / T), 'beyond the grid the last value falls with the Boltzmann factor')
        return
    for i in range(n - 1):
        if x <= g[i + 1]:
            break
    lo, hi = (tab[i], tab[i + 1]) if tab[i] <= tab[i + 1] else (tab[i + 1], tab[i])
    ctx.ge(got, lo, 'value is not below both neighbouring grid values')
    ctx.le(got, hi, 'value is not above both neighbouring grid values')


def empty(ctx, which, eta):
    """a neighbouring grid value of zero gives a finite, non-negative value that is zero"""
    f = implementations(ctx, which)
    n = 4
    g = grid(ctx, n)
    T, m = ctx.pos('T'), ctx.real('m', lo=0)
    k = ctx.pick('zero', [0, 1, 2, 3])
    tab = table(ctx, n, eta)
    tab[k] = 0.
    x = ctx.real('x', lo=0)
    ctx.assume(x < g[-1])
    ctx.eq(f(g, tab, g[k], m, eta, T, False), 0, 'a vanishing grid value is reproduced')
    near = (k > 0 and x > g[k - 1] and x < g[k]) or (k < n - 1 and x > g[k] and x < g[k + 1])
    if near:
        got = f(g, tab, x, m, eta, T, False)
        ctx.true(got == 0, 'next to a vanishing grid value the function vanishes')


def thermal(ctx, which, n, eta, massless):
    """a thermal table is continued to the thermal function at every momentum"""
    import numpy
    if ctx.symbolic:
        core.SPLIT_EXP = False
    f = implementations(ctx, which)
    g = grid(ctx, n)
    T = ctx.pos('T')
    m = 0. if massless else ctx.pos('m')
    E = lambda p: numpy.sqrt(p ** 2 + m ** 2) if not massless else p
    th = lambda p: 1 / (numpy.exp(E(p) / T) + eta)
    x = ctx.real('x', lo=0)
    k = 1 if (eta == -1 and massless) else 0
    # a massless boson has no finite occupation number at zero momentum
    tab = [th(p) if i >= k else 1. for i, p in enumerate(g)]
    ctx.assume(ctx.all(x > g[k], x <= g[-1]))
    ctx.eq(f(g, tab, x, m, eta, T, False), th(x), 'a thermal distribution is interpolated exactly')
    ctx.eq(f(g, tab, x, m, eta, T, True), th(x), 'an equilibrium particle has its thermal distribution')


def agree(ctx, n, eta):
    """the three implementations are the same function"""
    if ctx.symbolic:
        core.SPLIT_EXP = False
    fs = [implementations(ctx, w) for w in ('four', 'three', 'python')]
    g = grid(ctx, n)
    tab = table(ctx, n, eta, zero=False)
    T, m, x = ctx.pos('T'), ctx.pos('m'), ctx.real('x', lo=0)
    eq = ctx.flag('eq')
    a, b, c = [f(g, tab, x, m, eta, T, eq) for f in fs]
    ctx.eq(a, b, 'four- and three-particle codes interpolate alike')
    ctx.eq(a, c, 'compiled and Python codes interpolate alike')


def particle(ctx, eta):
    """the distribution a particle reports: thermal in equilibrium, its table otherwise"""
    repo(ctx)
    import numpy
    from common import statistics, Params, LinearSpacedGrid
    from particles import Particle
    if ctx.symbolic:
        core.SPLIT_EXP = False
    M = ctx.pos('M')
    n = 4
    p = Particle(name='x', symbol='x', mass=ctx.pick('massive', [0.25, 0.]), dof=2, Q=0,
                 statistics=statistics.FERMION if eta == 1 else statistics.BOSON,
                 grid=LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=1.), decoupling_temperature=0.5)
    pr = Params(T=1., m=1., dy=0.1)
    p.params = pr
    p.T = ctx.pos('T')
    p.aT = ctx.pos('aT')
    tab = table(ctx, n, eta)
    p._distribution = arr(ctx, tab)
    y = ctx.real('y', lo=0)
    if p.T > 0.5:
        if eta == -1 and p.mass == 0.:
            ctx.assume(y > 0)
        E = numpy.sqrt(y * y + (p.mass * pr.a) ** 2)
        ctx.eq(one(p.distribution(y)), 1 / (numpy.exp(E / p.aT) + eta), 'a coupled particle is thermal')
    else:
        for i in range(n):
            ctx.eq(one(p.distribution(arr(ctx, [p.grid.TEMPLATE[i]]))), tab[i], 'a decoupled particle has its own distribution')
        ctx.assume(y <= 1.)
        got = one(p.distribution(arr(ctx, [y])))
        k = 0
        while k < n - 2 and y > p.grid.TEMPLATE[k + 1]:
            k += 1
        lo, hi = (tab[k], tab[k + 1]) if tab[k] <= tab[k + 1] else (tab[k + 1], tab[k])
        ctx.ge(got, lo, 'a decoupled particle is interpolated from its own distribution')
        ctx.le(got, hi, 'a decoupled particle is interpolated from its own distribution')


for w in ('four', 'three', 'python'):
    for n in (2, 3, 4, 6):
        case('locate_%s_%d' % (w, n), args=(w, n))(locate)
    for eta in (1, -1):
        for n in (2, 3, 5):
            case('values_%s_%d_%d' % (w, n, eta), args=(w, n, eta))(values)
        case('empty_%s_%d' % (w, eta), args=(w, eta))(empty)
        for massless in (False, True):
            case('thermal_%s_%d_%d' % (w, eta, massless), args=(w, 3, eta, massless))(thermal)
for eta in (1, -1):
    case('agree_%d' % eta, args=(4, eta))(agree)
    case('particle_%d' % eta, args=(eta,))(particle)
    case('thermal_long_%d' % eta, args=('four', 6, eta, False), tier='thorough')(thermal)
    case('values_long_%d' % eta, args=('four', 9, eta), tier='thorough')(values)
