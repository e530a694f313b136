"""P20: kinematic cutoffs."""
from .base import Check, repo
from .part import Box, array

CHECK = Check(
    'P20', 'Kinematic cutoffs keep every momentum that can react',
    functions=['common/kinematics.py: cm_momentum, three_particle_bounds_creation, grid_cutoff_3p, four_particle_bounds_creation, grid_cutoff_4p, interpolation_4p, '
               'decoupling_temperature, decoupling_temperature_relativistic'],
    bounds='all momenta, decay angles, cutoffs and scale factors; listed mass patterns for boosted decays (all masses for four particles); grids of 2 to 6 momenta of any spacing',
    outside='sizes of the default grids (grid_params_*), rounding')
case = CHECK.case
TEN = 10.


class Specie(Box):
    """what the cutoffs ask of a species"""

    def __init__(self, name, mass, a, grid):
        Box.__init__(self, name=name, symbol=name, mass=mass, a=a, grid=grid, majorana=False, dof=2, Q=0)

    @property
    def conformal_mass(self):
        return self.mass * self.a


def grid_of(ctx, values):
    from common import LinearSpacedGrid
    g = LinearSpacedGrid(MOMENTUM_SAMPLES=2, MAX_MOMENTUM=1.)
    g.TEMPLATE = array(ctx, values)
    g.MOMENTUM_SAMPLES = len(values)
    g.MAX_MOMENTUM = values[-1]
    g.BOUNDS = (0, values[-1])
    return g


def free_grid(ctx, n, name='y'):
    """0 < y1 < y2 < ..."""
    ys = [0.]
    for i in range(1, n):
        ys.append(ys[-1] + ctx.pos('%s%d' % (name, i)))
    return grid_of(ctx, ys)


def reaction_of(species, sides):
    return [Box(specie=s, side=d, antiparticle=False, index=i, crossed=False) for i, (s, d) in enumerate(zip(species, sides))]


def interaction(species, sides, aT=1.):
    species[0].params = Box(aT=aT, T=1., a=species[0].a, h=1.)
    for s in species:
        s.params = species[0].params
    return Box(reaction=reaction_of(species, sides), particle=species[0], kind=None)


@case(timeout_ms=30000)
def two_body(ctx):
    """momentum of the products of a decay at rest"""
    import numpy
    repo(ctx)
    from common import kinematics
    m2, m3, p = ctx.real('m2', lo=0), ctx.real('m3', lo=0), ctx.pos('p')
    E2, E3 = numpy.sqrt(m2 ** 2 + p ** 2), numpy.sqrt(m3 ** 2 + p ** 2)
    m1 = E2 + E3
    ctx.eq(kinematics.cm_momentum(m1, m2, m3) ** 2, p ** 2, 'energy of the two products is the mass of the decaying particle', scale=m1 ** 2)
    ctx.ge(kinematics.cm_momentum(m1, m2, m3), 0, 'momenta are not negative')


#        masses of A, B in units of the mass of C = A + B
MASSES = {'massless': (0., 0.), 'light_b': (0., 0.6), 'light_a': (0.6, 0.), 'massive': (0.25, 0.5625), 'threshold': (0.375, 0.6249)}


def bounds3(ctx, pattern):
    """C -> A + B: the range of momenta of A over all boosts and angles"""
    import numpy
    repo(ctx)
    from common import kinematics
    M, a = 2., ctx.pos('a')
    mA, mB = [M * x for x in MASSES[pattern]]
    # boosts of C by their Doppler factors: momentum M (s - 1/s) / 2
    s, r = ctx.real('s', lo=1, lo_strict=True), ctx.real('r', lo=1)
    ctx.assume(r <= s)
    c = ctx.real('cos', lo=-1, hi=1)
    top = M * a * (s - 1 / s) / 2
    C = Specie('C', M, a, grid_of(ctx, [0., top]))
    A, B = Specie('A', mA, a, grid_of(ctx, [0., 1.])), Specie('B', mB, a, grid_of(ctx, [0., 1.]))
    lo, hi = kinematics.three_particle_bounds_creation(reaction_of((A, B, C), (-1, -1, 1)))
    from math import sqrt
    k = sqrt((M ** 2 - mA ** 2 - mB ** 2) ** 2 - 4 * (mA * mB) ** 2) / 2 / M
    e = sqrt(k ** 2 + mA ** 2)
    E = a * ((r + 1 / r) / 2 * e + (r - 1 / r) / 2 * k * c)
    y2 = E ** 2 - (mA * a) ** 2
    most = a * ((s + 1 / s) / 2 * e + (s - 1 / s) / 2 * k)
    ctx.ge(hi, 0, 'bounds are momenta')
    ctx.ge(lo, 0, 'bounds are momenta')
    ctx.eq(hi ** 2 + (mA * a) ** 2, most ** 2, 'the upper bound is reached by forward decays at the largest momentum', scale=most ** 2)
    ctx.ge(most, E, 'other decays give slower products')
    ctx.le(lo ** 2 * (1 - 1e-9), y2 + 1e-9 * a ** 2, 'no product is slower than the lower bound')


for name in MASSES:
    CHECK.case('bounds3_' + name, args=(name,), timeout_ms=30000)(bounds3)


def parts3(ctx, n):
    """the grid is split into momenta to compute and zeros around them"""
    repo(ctx)
    from common import kinematics
    a, aT = ctx.pos('a'), ctx.pos('aT')
    g = free_grid(ctx, n)
    # C -> A + B with massless products, C up to the momentum a (s - 1/s): a/s < y < a s
    s = ctx.real('s', lo=1, lo_strict=True)
    lo, hi = a / s, a * s
    A, B, C = Specie('A', 0., a, g), Specie('B', 0., a, g), Specie('C', 2., a, grid_of(ctx, [0., a * (s - 1 / s)]))
    got = kinematics.grid_cutoff_3p(interaction((A, B, C), (-1, -1, 1), aT), g.TEMPLATE / aT)
    ys = list(g.TEMPLATE)
    if got is False:
        for y in ys:
            ctx.true(ctx.any(y <= lo, y >= hi), 'reactions are skipped only if no momentum of the grid can take part')
        return
    split(ctx, got, ys, aT, lambda y: ctx.all(y > lo * (1 + 1e-9), y < hi * (1 - 1e-9)))


def split(ctx, got, ys, aT, needed):
    ps, before, after = got
    n = len(ps)
    ctx.true(len(before) + n + len(after) == len(ys), 'momenta to compute and zeros make up the grid')
    ctx.true(all(z == 0 for z in list(before) + list(after)), 'momenta that cannot react contribute zero')
    for i, p in enumerate(ps):
        ctx.eq(p * aT, ys[len(before) + i], 'computed momenta are those of the grid at their places, in units of aT', scale=ys[-1])
    for i, y in enumerate(ys):
        if not len(before) <= i < len(before) + n:
            ctx.true(ctx.no(needed(y)), 'every momentum of the grid that can react is computed')


for n in (2, 3, 5):
    CHECK.case('parts3_%d' % n, args=(n,))(parts3)


@case()
def other3(ctx):
    """decays are computed on the whole grid"""
    repo(ctx)
    from common import kinematics
    g = free_grid(ctx, 4)
    aT = ctx.pos('aT')
    A, B, C = [Specie(x, m, 1., g) for x, m in (('A', 3.), ('B', 1.), ('C', 1.))]
    ps = g.TEMPLATE / aT
    split(ctx, kinematics.grid_cutoff_3p(interaction((A, B, C), (-1, 1, 1), aT), ps), list(g.TEMPLATE), aT, lambda y: y >= 0)


def four(ctx, sides, n, name='A'):
    repo(ctx)
    from common import UNITS, kinematics
    a, aT = ctx.pos('a'), ctx.pos('aT')
    g = free_grid(ctx, n)
    m = [ctx.real('m%d' % i, lo=0) for i in range(4)]
    if sum(sides) == -2:
        ctx.assume(m[3] > m[0] + m[1] + m[2])
    g4 = grid_of(ctx, [0., ctx.pos('top')])
    species = [Specie(name if i == 0 else 'BCD'[i - 1], m[i], a, g if i == 0 else g4) for i in range(4)]
    it = interaction(species, sides, aT)
    ps, y1, y2 = kinematics.grid_cutoff_4p(it)
    for i, y in enumerate(y1):
        ctx.eq(y, g.TEMPLATE[i], 'the comoving momenta are returned, too')
    return ps, y1, y2, g, a, aT, m, g4, UNITS.MeV


def creation4(ctx, n):
    """A + B + C <- D"""
    import numpy
    ps, y1, y2, g, a, aT, m, g4, MeV = four(ctx, (-1, -1, -1, 1), n)
    top = g4.MAX_MOMENTUM
    # energy conservation with B and C at rest and D at its largest momentum (other B, C, D leave less energy for A)
    possible = lambda y: numpy.sqrt(y ** 2 + (m[0] * a) ** 2) + (m[1] + m[2]) * a <= numpy.sqrt(top ** 2 + (m[3] * a) ** 2)
    split(ctx, (ps, [], y2), list(g.TEMPLATE), aT, possible)


for n in (2, 4):
    CHECK.case('creation4_%d' % n, args=(n,), timeout_ms=30000)(creation4)


def scattering(ctx, name):
    ps, y1, y2, g, a, aT, m, g4, MeV = four(ctx, (-1, -1, 1, 1), 4, name)
    split(ctx, (ps, [], y2), list(g.TEMPLATE), aT, (lambda y: y <= TEN * MeV) if name == 'A' else lambda y: y >= 0)


def decay(ctx, name):
    ps, y1, y2, g, a, aT, m, g4, MeV = four(ctx, (-1, 1, 1, 1), 4, name)
    split(ctx, (ps, [], y2), list(g.TEMPLATE), aT, lambda y: y >= 0)


for name in ('A', 'Sterile neutrino (Dirac)'):
    CHECK.case('scattering_' + name[:1], args=(name,), env={'MAX_MOMENTUM_MEV': '10'})(scattering)
    CHECK.case('decay_' + name[:1], args=(name,), env={'MAX_MOMENTUM_MEV': '10'})(decay)


@case(env={'MAX_MOMENTUM_MEV': '10', 'HNL_ENERGY': '20'})
def heavy_neutrino(ctx):
    """momenta up to the energy of heavy neutrinos are kept"""
    import numpy
    sides = (-1, -1, 1, 1) if ctx.flag('scattering') else (-1, 1, 1, 1)
    ps, y1, y2, g, a, aT, m, g4, MeV = four(ctx, sides, 3)
    ctx.assume(m[0] * a < 20.)
    split(ctx, (ps, [], y2), list(g.TEMPLATE), aT, lambda y: ctx.any(y <= TEN * MeV, numpy.sqrt(y ** 2 + (m[0] * a) ** 2) <= 20.))


def coarse(ctx, n, res):
    """computing fewer momenta than the grid has"""
    repo(ctx)
    from common import kinematics, UNITS
    aT = ctx.pos('aT')
    g = free_grid(ctx, n)
    r = res * UNITS.MeV
    k = ctx.pick('kept', [n - 1, n])
    y1 = g.TEMPLATE[:k]
    L = y1[-1]
    steps = ctx.pick('steps', [2, 3, 4])
    ctx.assume(L > (steps - 1) * r)
    ctx.assume(L <= steps * r)
    A = Specie('A', 0., 1., g)
    ps = y1 / aT
    got, interpolate = kinematics.interpolation_4p(interaction((A, A, A, A), (-1, -1, 1, 1), aT), ps, y1)
    if not interpolate:
        ctx.ge(g.MAX_MOMENTUM / (n - 1), r, 'grids finer than the resolution are thinned out')
        ctx.true(len(got) == k, 'coarse grids are computed in full')
        for i in range(len(got)):
            ctx.eq(got[i], ps[i], 'coarse grids are computed in full')
        return
    ctx.le(g.MAX_MOMENTUM / (n - 1), r, 'only grids finer than the resolution are thinned out')
    ctx.eq(got[0], ps[0], 'the first momentum is kept')
    ctx.eq(got[-1], ps[-1], 'the last momentum is kept', scale=ps[-1])
    for i in range(len(got) - 1):
        ctx.le(got[i], got[i + 1], 'momenta stay in increasing order')
    for p in got:
        ctx.true(ctx.any(*[p == q for q in ps]), 'computed momenta belong to the grid')


for n in (3, 5):
    CHECK.case('coarse_%d' % n, args=(n, 2.), env={'FOUR_PARTICLE_GRID_RESOLUTION': '2.0'}, weight=3)(coarse)


@case()
def decoupling(ctx):
    """estimate of the decoupling temperature of a sterile neutrino"""
    import os
    repo(ctx)
    from common import kinematics, UNITS, CONST
    m, th = ctx.pos('mass'), ctx.pos('theta', hi=1)
    env = os.environ.pop('Relativistic_decoupling', None)
    try:
        T = kinematics.decoupling_temperature_relativistic(m, th)
        g = 61.75 if m > CONST.lambda_QCD else 14.25 if m > 105.658 * UNITS.MeV else 10.75
        ctx.assume(m != CONST.lambda_QCD)
        ctx.eq(T ** 3 * CONST.M_p * CONST.G_F ** 2 * th ** 2, 1.66 * g ** 0.5, 'interaction rate equals expansion rate at the relativistic decoupling temperature')
        got = kinematics.decoupling_temperature(m, th)
        hot = os.environ.pop('Relativistic_decoupling', None)
    finally:
        os.environ.pop('Relativistic_decoupling', None)
        if env is not None:
            os.environ['Relativistic_decoupling'] = env
    ctx.true(ctx.any(got >= m, got >= 1.5 * T), 'heavy neutrinos decouple at their mass or before')
    ctx.ge(got, 1.5 * T, 'decoupling is not later than the relativistic estimate')
    if T > m:
        ctx.eq(got, 1.5 * T, 'relativistic decoupling')
        ctx.true(hot is not None, 'relativistic decoupling is remembered')
    else:
        ctx.true(hot is None, 'relativistic decoupling is not claimed for heavy neutrinos')
        ctx.le(got, 1.5 * m, 'non-relativistic decoupling happens near the mass')
        ctx.ge(got, m, 'non-relativistic decoupling happens near the mass')
