"""P21: which collision terms are left out."""
import os
from .base import Check, repo, four, three
from .part import Box, kinds, array
from .kin import Hook
from .p29 import species, items, universe, FOUR, THREE, MEV

CHECK = Check(
    'P21', 'Only reactions without effect are left out',
    functions=['common/kinematics.py: Neglect3pInteraction, Neglect4pInteraction, return_function, has_decayed', 'interactions/four_particle/__init__.py: FourParticleIntegral.integrate',
               'interactions/three_particle/__init__.py: ThreeParticleIntegral.integrate', 'particles/__init__.py: calculate_collision_integral'],
    bounds='all densities (now and initially), temperatures, masses and scale factors; decays, creations and scatterings with and without heavy neutrinos and short-lived particles; all kinds of integral',
    outside='values of the integrals that are computed (P29)')
case = CHECK.case
HNL = 'Sterile neutrino (Dirac)'


def make(ctx, ps, sides, kind):
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    if len(ps) == 4:
        return FourParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=kind, Ms=[FourParticleM(K1=1e-9)])
    return ThreeParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=kind, Ms=[ThreeParticleM(K=1.)])


def computed(ctx, ps, sides, kind, what):
    """is the quadrature asked? what is returned if not?"""
    calls = []

    def look(f, a, b):
        calls.append(1)
        return 1.
    it = make(ctx, ps, sides, getattr(kinds(), kind))
    it.initialize()
    with Hook(four(ctx), look), Hook(three(ctx), look):
        got = it.integrate(ps[0].grid.TEMPLATE)
    n = len(ps[0].grid.TEMPLATE)
    pair = kind in ('Full', 'Full_vacuum_decay') or hasattr(ps[0], 'fast_decay')
    if pair:
        ctx.true(len(got) == 2 and len(got[0]) == len(got[1]) == n, what + ': the result has the shape of the kind of integral')
        got = list(got[0]) + list(got[1])
    else:
        ctx.true(len(got) == n, what + ': the result has the shape of the kind of integral')
    if not calls:
        ctx.true(all(v == 0 for v in got), what + ': what is left out contributes nothing')
    return bool(calls)


def setup(ctx, sides, masses, names=None, **kw):
    params = universe(ctx)
    params.a, params.aT = 1., 1. * MEV      # results depend on them, not what is left out
    params.T = ctx.pos('T')
    ps = species(ctx, params, masses, names=names, **kw)
    for p in ps:
        p.T = 0.5 * MEV
        p.thermal_dyn = True
        p.decoupling_temperature = 1e3
    return params, ps


KINDS = ['Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_decay', 'F_creation']


@case()
def dilution(ctx):
    """scatterings of species that have diluted"""
    repo(ctx)
    sides, masses = FOUR['scattering']
    params, ps = setup(ctx, sides, masses)
    params.a_ini = ctx.pick('a_ini', [10., 1., 0.05])
    limit = 1e-10 * (params.a_ini / 10) ** 3
    gone = []
    for i, p in enumerate(ps):
        first = ctx.pos('n%d_first' % i)
        now = ctx.pos('n%d' % i)
        ctx.assume(ctx.any(now <= first * limit * 0.999, now >= first * limit * 1.001))
        p.data['params']._data['density'][0] = first
        p.density = now
        gone.append(now < first * limit)
    kind = ctx.pick('kind', ['Full', 'F_1'])
    done = computed(ctx, ps, sides, kind, 'scattering')
    ctx.true(done == (not ((gone[0] or gone[1]) and (gone[2] or gone[3]))), 'scatterings are left out if a species on either side has diluted away, and only then')


def decayed(ctx, n):
    """daughters of a particle that is gone"""
    repo(ctx)
    sides, masses = (FOUR if n == 4 else THREE)['creation']
    params, ps = setup(ctx, sides, masses)
    for p in ps:
        p.decayed = ctx.flag('decayed ' + p.name)
    kind = ctx.pick('kind', KINDS)
    done = computed(ctx, ps, sides, kind, 'creation')
    if n == 4:
        ctx.true(done == (not ps[-1].decayed), 'creation ends with the decay of the parent')
    elif kind in ('Full', 'Full_vacuum_decay'):
        ctx.true(done == (not ps[-1].decayed), 'creation ends with the decay of the parent')
    if not ps[-1].decayed:
        ctx.true(done, 'nothing else stops creation')


case('decayed_4', args=(4,))(decayed)
case('decayed_3', args=(3,))(decayed)


def shortlived(ctx, n, direction):
    """short-lived particles that were not created yet"""
    repo(ctx)
    sides, masses = (FOUR if n == 4 else THREE)[direction]
    params, ps = setup(ctx, sides, masses)
    parent = ps[-1] if direction == 'creation' else ps[0]
    parent.fast_decay = True
    parent.num_creation = ctx.pos('created') if ctx.flag('created before') else 0
    key = ''.join(p.symbol for p in (ps[:-1] if direction == 'creation' else ps[1:]))
    parent.BR = {key: 1.}
    if direction == 'creation':
        kind = ctx.pick('kind', ['Full', 'Full_vacuum_decay'] if n == 3 else ['F_1', 'F_creation', 'F_1_vacuum_decay'])
    else:
        kind = ctx.pick('kind', ['F_decay', 'F_f_vacuum_decay'])
    if direction == 'creation' and n == 3 and parent.num_creation > 0:
        return      # pairs of short-lived particles' products have no spectrum of their own
    done = computed(ctx, ps, sides, kind, direction)
    ctx.true(done == (parent.num_creation > 0), 'short-lived particles take part once some were created')


for n in (3, 4):
    for d in ('creation', 'decay'):
        case('shortlived_%d_%s' % (n, d), args=(n, d))(shortlived)


def heavy(ctx, reaction, relativistic):
    """reactions of heavy neutrinos"""
    repo(ctx)
    sides, masses = FOUR[reaction]
    where = ctx.pick('where', [0, 1, 3]) if reaction == 'scattering' else 0
    names = ['A', 'B', 'C', 'D']
    sterile = ctx.flag('sterile')
    if sterile:
        names[where] = HNL
    masses = list(masses)
    params, ps = setup(ctx, sides, masses, names=names)
    params.m, params.a_ini = 1., ctx.pos('a_ini', hi=100)      # far from dilution
    for p in ps:
        p.density = 1.
    os.environ.pop('Relativistic_decoupling', None)
    if relativistic:
        os.environ['Relativistic_decoupling'] = 'True'
    if reaction == 'decay':
        ps[0].mass = M = 12. * MEV
        ctx.assume(ctx.any(params.T <= M * 0.999999, params.T >= M * 1.000001))
        skip = sterile and params.T > M
        what = 'decays of heavy neutrinos wait until they can be resolved'
    else:
        start = params.m / params.a_ini / 15
        for limit in (1. * MEV, start):
            ctx.assume(ctx.any(params.T <= limit * 0.999999, params.T >= limit * 1.000001))
        skip = sterile and (params.T < 1. * MEV or (relativistic and params.T < start))
        what = 'scatterings of heavy neutrinos end when they are decoupled'
    kind = ctx.pick('kind', ['Full', 'F_1'] if reaction == 'scattering' else ['Full', 'F_decay'])
    done = computed(ctx, ps, sides, kind, reaction)
    ctx.true(done == (not skip), what)


case('heavy_scattering', args=('scattering', False))(heavy)
case('heavy_relativistic', args=('scattering', True))(heavy)
case('heavy_decay', args=('decay', False))(heavy)


@case()
def massless(ctx):
    """massless particles do not decay, though they can fuse"""
    repo(ctx)
    way = ctx.pick('way', ['decay', 'massless'])
    sides, masses = THREE[way]
    masses = (0.,) + tuple(masses[1:])
    params, ps = setup(ctx, sides, masses)
    kind = ctx.pick('kind', KINDS)
    done = computed(ctx, ps, sides, kind, way)
    ctx.true(done == (way == 'massless'), 'massless particles do not decay, but they can be created by decays')


@case()
def particles(ctx):
    """particles without reactions, or none left"""
    repo(ctx)
    params, ps = setup(ctx, (-1, -1, 1, 1), (1., 0., 2., 0.5))
    p = ps[0]
    p.decayed = ctx.flag('decayed')
    calls = []

    class Asked(object):
        kind = kinds().F_1

        def integrate(self, ps_, stepsize=None, bounds=None):
            calls.append(1)
            return array(ctx, [ctx.real('v%d' % i) for i in range(3)])
    p.collision_integrals = [Asked()] if ctx.flag('reacts') else []
    got = p.integrate_collisions()
    ctx.true(len(got) == 3, 'there is a value for every momentum')
    if p.decayed or not p.collision_integrals:
        ctx.true(not calls and all(v == 0 for v in got), 'particles that are gone or do not react have no collision term')
    else:
        ctx.true(len(calls) == 1, 'others are asked for theirs')
