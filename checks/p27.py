"""P27: particles that decay faster than a time step."""
from .base import Check, repo, four, three
from .part import particle, array, Box, kinds
from .kin import Hook
from .p29 import species, items, universe, hook, MEV

CHECK = Check(
    'P27', 'Short-lived particles decay into as many products as were created',
    functions=['common/kinematics.py: Icoll_fast_decay, scaling', 'particles/__init__.py: integrate_collisions, calculate_collision_integral, update_distribution',
               'interactions/three_particle/__init__.py: ThreeParticleIntegral.integrate', 'interactions/four_particle/__init__.py: FourParticleIntegral.integrate'],
    bounds='all creation and decay terms, branching ratios, steps, degrees of freedom and masses; one to three channels, grids of 3 to 5 momenta; daughters of two- and three-body decays',
    outside='quadratures over momenta (replaced by a linear functional; P01 to P06), other grids')
case = CHECK.case
TOP = 6.


def weights(ys):
    """Simpson's rule on an even number of equal intervals"""
    n = len(ys) - 1
    h = (ys[-1] - ys[0]) / n
    return [h / 3 * (1 if i in (0, n) else 4 if i % 2 else 2) for i in range(n + 1)]


def number(p, values):
    """particles per comoving volume (without 1/2 pi^2)"""
    ys = list(p.grid.TEMPLATE)
    g = p.dof if p.majorana else p.dof / 2
    return g * sum(w * v * y ** 2 for w, v, y in zip(weights(ys), values, ys))


class Integral(object):
    """a collision integral with given values"""

    def __init__(self, kind, sides, parts, gain, loss):
        self.kind, self.gain, self.loss = kind, gain, loss
        self.reaction = [Box(specie=p, side=s, antiparticle=False, index=i, crossed=False) for i, (p, s) in enumerate(zip(parts, sides))]
        self.particle = parts[0]

    def integrate(self, ps, stepsize=None, bounds=None):
        return self.gain.copy(), self.loss.copy()


def meson(ctx, n, br, **kw):
    repo(ctx)
    p = particle(ctx, n, TOP * MEV, eta=-1, name='M', symbol='M', mass=5 * MEV, fast_decay=True, lifetime=ctx.pos('lifetime'), BR=br,
                 majorana=ctx.flag('majorana'), dof=ctx.pos('dof'), **kw)
    p.thermal_dyn = False
    p.in_equilibrium_ = False
    p.T = p.aT = 0.5 * MEV
    p.decoupling_temperature = 1. * MEV
    p.decayed = False
    p.density = 1.
    p.num_creation = 0
    p.params.h = ctx.pos('h')
    p.params.T = 0.5 * MEV
    p.mass = 5 * MEV
    return p


def daughters(*symbols):
    return [Box(symbol=s, name=s) for s in symbols]


def zeros(ctx, n):
    return array(ctx, [0.] * n)


CHANNELS = [('ab', ('a', 'b'), (-1, 1, 1)), ('caa', ('a', 'c', 'a'), (-1, 1, 1, 1)), ('bb', ('b', 'b'), (-1, 1, 1))]


def balance(ctx, n, creations, channels, thermal):
    """one step of a particle that is created by some reactions and decays through others"""
    repo(ctx)
    names = CHANNELS[:channels]
    br = {key: ctx.pos('BR_' + key, hi=1) for key, _, _ in names}
    p = meson(ctx, n, dict(br), **({'thermalization': True} if thermal else {}))
    k = kinds()
    gains = [[ctx.pos('g%d_%d' % (c, i)) if ctx.symbolic or True else 0. for i in range(n)] for c in range(creations)]
    losses = [[-ctx.pos('l%d_%d' % (c, i)) for i in range(n)] for c in range(channels)]
    todo = [Integral(k.F_creation, (-1, -1, 1), [p] + daughters('x', 'y'), array(ctx, g), zeros(ctx, n)) for g in gains]
    decays = [Integral(k.F_decay, sides, [p] + daughters(*symbols), zeros(ctx, n), array(ctx, l)) for (_, symbols, sides), l in zip(names, losses)]
    p.collision_integrals = todo + decays if ctx.flag('creations first') else decays + todo
    got = p.integrate_collisions()
    h = p.params.h
    total = [sum(g[i] for g in gains) for i in range(n)]
    created = number(p, total)
    ctx.eq(p.num_creation, created, 'the number of created particles is the integral of all creation terms', loose=True)
    ys = list(p.grid.TEMPLATE)
    if thermal:
        import math
        import numpy
        M = p.conformal_mass
        g = p.dof if p.majorana else p.dof / 2
        before = [4 * math.pi * h * (created / g) / (2 * math.pi * M * p.aT) ** 1.5 * numpy.exp(-y ** 2 / (2 * M * p.aT)) for y in ys]
        for i in range(n):
            ctx.eq(p._distribution[i], before[i], 'thermalised particles have the Maxwell-Boltzmann distribution of their number', loose=True)
        before = list(p._distribution)
    else:
        before = [h * t for t in total]
        for i in range(n):
            ctx.eq(p._distribution[i], before[i], 'all particles created in the step are there before they decay', loose=True)
    # every channel removes its share; within a channel decays keep their dependence on momentum
    for i in range(n):
        want = before[i] / h if thermal else total[i]
        for (key, _, _), l in zip(names, losses):
            rate = [-v * f for v, f in zip(l, before)]
            want = want - br[key] * created * rate[i] / number(p, rate)
        ctx.eq(got[i], want, 'every channel removes its branching ratio of the created particles', loose=True)
    if not thermal:
        ctx.eq(number(p, got), (1 - sum(br.values())) * created, 'what is created and decays in a step leaves no particles behind', loose=True)


for n, c, d in ((3, 1, 1), (3, 2, 1), (3, 1, 2), (5, 1, 1), (3, 2, 3)):
    case('decay_%d_%d_%d' % (n, c, d), args=(n, c, d, False), tier='thorough' if d == 3 else 'quick')(balance)
case('thermal_1', args=(3, 1, 1, True))(balance)
case('thermal_2', args=(3, 2, 2, True))(balance)


@case()
def nothing(ctx):
    """no particles were created"""
    repo(ctx)
    p = meson(ctx, 3, {'ab': ctx.pos('BR', hi=1)}, **({'thermalization': True} if ctx.flag('thermalization') else {}))
    k = kinds()
    p.collision_integrals = [Integral(k.F_creation, (-1, -1, 1), [p] + daughters('x', 'y'), zeros(ctx, 3), zeros(ctx, 3)),
                             Integral(k.F_decay, (-1, 1, 1), [p] + daughters('a', 'b'), zeros(ctx, 3), array(ctx, [-ctx.pos('l%d' % i) for i in range(3)]))]
    got = p.integrate_collisions()
    for i in range(3):
        ctx.eq(got[i], 0., 'nothing decays if nothing was created')
        ctx.eq(p._distribution[i], 0., 'nothing is there if nothing was created')
    ctx.eq(p.num_creation, 0., 'nothing was created')


@case()
def background(ctx):
    """thermal relics decay exponentially on top"""
    repo(ctx)
    import numpy
    p = meson(ctx, 3, {'ab': ctx.pos('BR', hi=1)})
    p.thermal_dyn = True
    p.params.t, p.t_decoupling = ctx.pos('t1') + ctx.pos('t0'), ctx.pos('t0')
    g = [ctx.pos('g%d' % i) for i in range(3)]
    p.collision_integrals = [Integral(kinds().F_creation, (-1, -1, 1), [p] + daughters('x', 'y'), array(ctx, g), zeros(ctx, 3))]
    p.integrate_collisions()
    for i, y in enumerate(list(p.grid.TEMPLATE)):
        relic = 1 / (numpy.exp(numpy.sqrt(y ** 2 + (p.mass * p.aT / p.decoupling_temperature) ** 2) / p.aT) - 1)
        ctx.eq(p._distribution[i], relic * numpy.exp(-(p.params.t - p.t_decoupling) / p.lifetime) + g[i] * p.params.h, 'relics decay with their lifetime', loose=True)
    p.collision_integral = p.integrate_collisions()
    p.update_distribution()
    for i, y in enumerate(list(p.grid.TEMPLATE)):
        relic = 1 / (numpy.exp(numpy.sqrt(y ** 2 + (p.mass * p.aT / p.decoupling_temperature) ** 2) / p.aT) - 1)
        ctx.eq(p._distribution[i], relic * numpy.exp(-(p.params.t - p.t_decoupling) / p.lifetime), 'only relics remain at the end of the step', loose=True)


@case()
def gone(ctx):
    """particles of non-thermal origin do not outlive the step"""
    p = meson(ctx, 3, {'ab': ctx.pos('BR', hi=1)})
    p.t_decoupling = 1.
    p.data['params'].append({'a': 1., 't': 1., 'T': 1., 'density': 1., 'energy_density': 1.})
    p._distribution = array(ctx, [ctx.pos('f%d' % i) for i in range(3)])
    p.collision_integral = array(ctx, [ctx.real('C%d' % i) for i in range(3)])
    p.update_distribution()
    for i in range(3):
        ctx.eq(p._distribution[i], 0., 'particles of non-thermal origin do not outlive the step')
        ctx.eq(p.data['collision_integral'][-1][i], ctx.real('C%d' % i), 'the collision term is recorded')


def products(ctx, n):
    """as many daughters as the parents' branching ratio says"""
    repo(ctx)
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    params = universe(ctx)
    sides = (-1, -1, 1) if n == 3 else (-1, -1, -1, 1)
    ps = species(ctx, params, (1., 2., 9.) if n == 3 else (1., 0., 2., 9.), majorana=ctx.flag('majorana'), dof=ctx.pos('dof'))
    parent = ps[-1]
    K = ctx.pos('K')
    kind = getattr(kinds(), ctx.pick('kind', ['F_creation', 'F_1', 'F_1_vacuum_decay']))

    def run():
        if n == 3:
            it = ThreeParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=kind, Ms=[ThreeParticleM(K=K)])
        else:
            it = FourParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=kind, Ms=[FourParticleM(K=K * 1e-9)])
        it.initialize()
        with Hook(four(ctx), hook(params)), Hook(three(ctx), hook(params)):
            return it.integrate(ps[0].grid.TEMPLATE)
    plain = run()
    parent.fast_decay = True
    key = ''.join(p.symbol for p in ps[:-1])
    key = key[::-1] if ctx.flag('reversed') else key
    parent.BR = {key: ctx.pos('BR', hi=1), 'XY': ctx.pos('other', hi=1)}
    parent.num_creation = ctx.pos('created')
    got = run()
    ctx.eq(number(ps[0], got), parent.BR[key] * parent.num_creation, 'the number of products is the branching ratio times the number of parents', loose=True)
    norm = number(ps[0], plain)
    for i in range(len(got)):
        ctx.eq(got[i] * norm, plain[i] * number(ps[0], got), 'the spectrum of products keeps its shape', loose=True)


case('products_3', args=(3,), weight=2)(products)
case('products_4', args=(4,), weight=2)(products)


def twins(ctx, n):
    """products some of which are identical or each other's antiparticles"""
    repo(ctx)
    from interactions import IntegralItem
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    params = universe(ctx)
    sides = (-1, -1, 1) if n == 3 else (-1, -1, -1, 1)
    copies = ctx.pick('copies', [2] if n == 3 else [2, 3])
    maj = ctx.flag('majorana')
    ps = species(ctx, params, (1., 2., 9.) if n == 3 else (1., 0., 2., 9.), majorana=maj, dof=ctx.pos('dof'))
    daughters = [ps[0]] * copies + ps[copies:-1]
    anti = [False] + [not maj and ctx.flag('anti%d' % i) for i in range(1, copies)] + [False] * (n - 1 - copies)
    # (also: other products that are antiparticles, and the first of products listed in any order)
    if copies == 2 and n == 4:
        anti[2] = ctx.flag('anti2')
        if ctx.flag('between'):
            daughters[1], daughters[2], anti[1], anti[2] = daughters[2], daughters[1], anti[2], anti[1]
    expected = sum(p is ps[0] and not a for p, a in zip(daughters, anti))
    parent = ps[-1]
    parent.fast_decay = True
    parent.BR = {ctx.pick('order', [''.join(p.symbol for p in daughters), ''.join(p.symbol for p in daughters[::-1])]): ctx.pos('BR', hi=1), 'XY': ctx.pos('other', hi=1)}
    parent.num_creation = ctx.pos('created')
    kind = getattr(kinds(), ctx.pick('kind', ['F_creation', 'F_1', 'F_1_vacuum_decay']))
    K = ctx.pos('K')
    reaction = [IntegralItem(side=d, specie=p, antiparticle=a, index=i, crossed=False) for i, (p, d, a) in enumerate(zip(daughters + [parent], sides, anti + [False]))]
    if n == 3:
        it = ThreeParticleIntegral(particle=ps[0], reaction=reaction, washout_temperature=0., kind=kind, Ms=[ThreeParticleM(K=K)])
    else:
        it = FourParticleIntegral(particle=ps[0], reaction=reaction, washout_temperature=0., kind=kind, Ms=[FourParticleM(K=K * 1e-9)])
    it.initialize()
    with Hook(four(ctx), hook(params)), Hook(three(ctx), hook(params)):
        got = it.integrate(ps[0].grid.TEMPLATE)
    ctx.eq(number(ps[0], got), expected * list(parent.BR.values())[0] * parent.num_creation, 'every one of identical products is created', loose=True)


case('twins_3', args=(3,), weight=2)(twins)
case('twins_4', args=(4,), weight=4, budget=300)(twins)


def own(ctx, n):
    """terms of a short-lived particle itself: pure gain and pure loss"""
    repo(ctx)
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    params = universe(ctx)
    gain = ctx.flag('gain')
    if n == 3:
        sides, masses = ((-1, -1, 1), (3., 1., 9.)) if gain else ((-1, 1, 1), (9., 2., 1.))
    else:
        sides, masses = ((-1, -1, -1, 1), (3., 1., 0., 12.)) if gain else ((-1, 1, 1, 1), (12., 1., 0., 2.))
    ps = species(ctx, params, masses)
    kind = ctx.pick('kind', ['F_creation', 'F_1_vacuum_decay'] if gain else ['F_decay', 'F_f_vacuum_decay'])
    K = ctx.pos('K')

    def run():
        if n == 3:
            it = ThreeParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=getattr(kinds(), kind), Ms=[ThreeParticleM(K=K)])
        else:
            it = FourParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=getattr(kinds(), kind), Ms=[FourParticleM(K=K * 1e-9)])
        it.initialize()
        with Hook(four(ctx), hook(params)), Hook(three(ctx), hook(params)):
            return it.integrate(ps[0].grid.TEMPLATE)
    plain = run()
    ps[0].fast_decay, ps[0].num_creation, ps[0].BR = True, 1., {''.join(p.symbol for p in ps[1:]): 1.}
    A, B = run()
    f = list(ps[0]._distribution)
    for i in range(len(f)):
        ctx.eq(A[i], plain[i] if gain else 0., 'creation terms are gains', loose=True)
        ctx.eq(B[i] if gain else B[i] * f[i], 0. if gain else plain[i], 'decay terms are losses per particle', loose=True)


case('own_3', args=(3,), weight=2)(own)
case('own_4', args=(4,), weight=2)(own)
