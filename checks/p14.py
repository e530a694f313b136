"""P14: dynamical regime of a species, decoupling."""
import math
from .base import Check, repo
from .part import particle, array, Box

CHECK = Check(
    'P14', 'Species switch regime and decouple at the right temperatures',
    functions=['particles/__init__.py: regime, in_equilibrium, update, init_distribution, equilibrium_distribution, energy, conformal_energy, conformal_mass, set_params'],
    bounds='all temperatures, masses, decoupling temperatures, scale factors; three successive updates; switching factors 1000 (default), 3 and 50; grids of 3 momenta',
    outside='fast decaying species (P27), rounding')
case = CHECK.case
ENV = {'GAUSS_LEGENDRE_ORDER': '1', 'GAUSS_LAGUERRE_ORDER': '1'}


def regime(ctx):
    p = particle(ctx, 3)
    import environment
    g = environment.get('REGIME_SWITCHING_FACTOR')
    p.mass = ctx.real('mass', lo=0)
    p.T = ctx.pos('T')
    p.decoupling_temperature = ctx.real('T_dec', lo=0)
    p.thermal_dyn = ctx.flag('thermal')
    coupled = bool(p.in_equilibrium)
    if p.thermal_dyn:
        if p.T > p.decoupling_temperature:
            ctx.true(coupled, 'hotter than its decoupling temperature: in equilibrium')
        else:
            ctx.true(not coupled, 'not hotter than its decoupling temperature: decoupled')
    else:
        ctx.true(not coupled, 'a species that is never thermal is not in equilibrium')
    name = p.regime.name
    if not coupled:
        ctx.true(name == 'non-equilibrium', 'decoupled species use their own distribution')
    elif p.T > p.mass * g:
        ctx.true(name == 'radiation', 'hot species are radiation')
    elif p.T * g < p.mass:
        ctx.true(name == 'dust', 'cold species are dust')
    else:
        ctx.true(name == 'intermediate', 'massive relativistic species are integrated exactly')


for g in ('1e3', '3', '50'):
    case('regime_' + g, env={'REGIME_SWITCHING_FACTOR': g}, args=())(regime)


def params(ctx, n, T=None):
    a = ctx.pos('a%d' % n)
    aT = ctx.pos('aT%d' % n)
    return Box(a=a, aT=aT, T=aT / a, t=ctx.pos('t%d' % n), h=1., m=1., x=a, H=1., a_ini=1.)


def set_state(p, new):
    p.params.__dict__.update(new.__dict__)


def thermal(ctx, p, aT, a, i, eta):
    import numpy
    y = p.grid.TEMPLATE[i]
    E = numpy.sqrt(y ** 2 + (p.mass * a) ** 2)
    return 1. / (numpy.exp(E / aT) + eta)


def is_thermal(ctx, p, aT, a, eta, what):
    # cross-multiplied: holds for infinitely occupied bosons of zero energy, too
    import numpy
    for i, y in enumerate(p.grid.TEMPLATE):
        if eta == -1 and y == 0:
            continue
        E = numpy.sqrt(y ** 2 + (p.mass * a) ** 2)
        ctx.eq(p._distribution[i] * (numpy.exp(E / aT) + eta), 1., what)


@case(weight=5, budget=300, env=ENV)
def decoupling(ctx):
    """equilibrium until the temperature falls to T_dec, then a frozen comoving distribution"""
    eta = 1 if ctx.flag('fermion') else -1
    p = particle(ctx, 3, eta=eta)
    p.mass = 0. if ctx.flag('massless') else ctx.pos('mass')
    p.decoupling_temperature = ctx.pos('T_dec')
    now = params(ctx, 0)
    set_state(p, now)
    p.aT, p.T = now.aT, now.T
    ctx.assume(p.T > p.decoupling_temperature)
    frozen = None
    for n in (1, 2, 3):
        now = params(ctx, n)
        set_state(p, now)
        before = list(p._distribution)
        p.collision_integral = array(ctx, [ctx.real('C%d' % i) for i in range(3)])
        p.update()
        ctx.true(len(p.data['params']) == n, 'the state is recorded once per update')
        for key, want in (('a', now.a), ('t', now.t), ('T', now.T), ('density', p.density), ('energy_density', p.energy_density)):
            ctx.eq(p.data['params'][key][-1], want, 'recorded ' + key)
        for i in range(3):
            ctx.eq(p.collision_integral[i], 0., 'collision terms are reset at every step')
        if frozen is None:
            ctx.eq(p.aT, now.aT, 'temperature follows the plasma in equilibrium')
            ctx.eq(p.T * now.a, now.aT, 'temperature follows the plasma in equilibrium')
            if p.T > p.decoupling_temperature:
                ctx.true(bool(p.in_equilibrium), 'stays in equilibrium above the decoupling temperature')
            else:
                ctx.true(not p.in_equilibrium, 'decouples when the plasma reaches the decoupling temperature')
                ctx.eq(p.t_decoupling, now.t, 'decoupling time is recorded')
                is_thermal(ctx, p, now.aT, now.a, eta, 'the distribution at decoupling is thermal')
                frozen = now.aT
        else:
            ctx.eq(p.aT, frozen, 'the comoving temperature of a decoupled species is frozen')
            ctx.eq(p.T * now.a, frozen, 'the temperature of a decoupled species redshifts')
            if p.T > p.decoupling_temperature:
                return          # (the scale factor decreased)
            for i in range(3):
                if not (eta == -1 and p.grid.TEMPLATE[i] == 0):
                    ctx.eq(p._distribution[i], before[i], 'expansion does not change a decoupled comoving distribution')
        if frozen is not None and n == 2:
            break


@case()
def equilibrium_state(ctx):
    """thermal distributions at any temperature and momentum"""
    import numpy
    eta = 1 if ctx.flag('fermion') else -1
    p = particle(ctx, 3, eta=eta)
    p.mass = 0. if ctx.flag('massless') else ctx.pos('mass')
    a, aT = ctx.pos('a'), ctx.pos('aT')
    p.params.a = a
    p.aT = aT
    y = ctx.pos('y')
    E = numpy.sqrt(y ** 2 + (p.mass * a) ** 2)
    ctx.eq(p.conformal_mass, p.mass * a, 'comoving mass')
    ctx.eq(p.conformal_energy(y), E, 'comoving energy')
    ctx.eq(p.conformal_energy(y), a * p.energy(y / a), 'comoving energy is scale factor times energy')
    f = p.equilibrium_distribution(y=y)
    ctx.eq(f * (numpy.exp(E / aT) + eta), 1., 'thermal occupation number')
    other = ctx.pos('aT2')
    f = p.equilibrium_distribution(y=y, aT=other)
    ctx.eq(f * (numpy.exp(E / other) + eta), 1., 'thermal occupation number at another temperature')
    m = ctx.real('conformal mass', lo=0)
    f = p.equilibrium_distribution(y=y, conf_mass=m)
    E = numpy.sqrt(y ** 2 + m ** 2) if p.mass > 0 else y
    ctx.eq(f * (numpy.exp(E / aT) + eta), 1., 'thermal occupation number for a given comoving mass')
    p.T = 2.
    f = p.distribution(y)
    E = numpy.sqrt(y ** 2 + (p.mass * a) ** 2)
    ctx.eq(f * (numpy.exp(E / aT) + eta), 1., 'occupation number of a species in equilibrium')


@case(env=ENV)
def never_thermal(ctx):
    """species that never were in equilibrium start empty and stay as collisions made them"""
    p = particle(ctx, 3)
    p.thermal_dyn = False
    p.Q = 0
    p.mass = ctx.real('mass', lo=0)
    got = p.init_distribution()
    for i in range(3):
        ctx.eq(got[i], 0., 'no particles at the start')
        ctx.eq(p._distribution[i], 0., 'no particles at the start')
    f = [ctx.real('f%d' % i, lo=0, hi=1) for i in range(3)]
    p._distribution = array(ctx, f)
    p.aT = ctx.pos('aT')
    now = params(ctx, 0)
    set_state(p, now)
    aT = p.aT
    p.update()
    for i in range(3):
        ctx.eq(p._distribution[i], f[i], 'updates do not change the distribution')
    ctx.eq(p.aT, aT, 'temperature scale of a species that is not thermal is kept')


@case(env=ENV)
def start(ctx):
    """adding a species to the plasma: temperature of the plasma, thermal distribution, one record"""
    p = particle(ctx, 3)
    p.mass = 0. if ctx.flag('massless') else ctx.pos('mass')
    p.decoupling_temperature = ctx.pos('T_dec')
    now = params(ctx, 0)
    ctx.assume(now.T > p.decoupling_temperature)
    p.set_params(now)
    ctx.eq(p.aT, now.aT, 'starts at the temperature of the plasma')
    ctx.eq(p.T, now.T, 'starts at the temperature of the plasma')
    is_thermal(ctx, p, now.aT, now.a, 1, 'starts with a thermal distribution')
    ctx.true(len(p.data['distribution']) == 1, 'the initial distribution is recorded')
    ctx.true(len(p.data['params']) == 1, 'the initial state is recorded')
