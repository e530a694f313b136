"""P17: neutrino oscillations."""
from .base import Check, repo
from .part import array, Box, grid

CHECK = Check(
    'P17', 'Oscillations redistribute neutrinos without creating any',
    functions=['library/SM.py: leptons.oscillations_map', 'evolution.py: Universe.oscillation_parameters, init_oscillations, update_distributions'],
    bounds='all matter potentials (of either sign), temperatures, scale factors; three flavours, grids of 3 momenta, arbitrary collision terms',
    outside='values of the mixing angles; the branch of the effective angle beyond a resonance')
case = CHECK.case
FLAVOURS = ('electron', 'muon', 'tau')


def stochastic(ctx, m, what, get=lambda x: x):
    for a in FLAVOURS:
        ctx.eq(sum(get(m[(a, b)]) for b in FLAVOURS), 1., what + ': probabilities of a flavour sum to one')
        ctx.eq(sum(get(m[(b, a)]) for b in FLAVOURS), 1., what + ': probabilities into a flavour sum to one')
        for b in FLAVOURS:
            ctx.ge(get(m[(a, b)]), 0, what + ': probabilities are not negative')
            ctx.le(get(m[(a, b)]), 1, what + ': probabilities are not above one')
            ctx.eq(get(m[(a, b)]), get(m[(b, a)]), what + ': probabilities are symmetric')


@case(timeout_ms=40000)
def probabilities(ctx):
    repo(ctx)
    from library.SM import particles; leptons = particles.leptons
    x, y = ctx.real('x'), ctx.real('y')
    m = leptons.oscillations_map(MSW_12=x, MSW_13=y, matter_effects=True)
    stochastic(ctx, m, 'in matter')


@case()
def vacuum(ctx):
    repo(ctx)
    from library.SM import particles; leptons = particles.leptons
    m = leptons.oscillations_map(matter_effects=False)
    stochastic(ctx, m, 'in vacuum')
    n = leptons.oscillations_map(MSW_12=0., MSW_13=0., matter_effects=True)
    k = leptons.oscillations_map(MSW_12=ctx.real('x'), MSW_13=ctx.real('y'), matter_effects=False)
    for key in m:
        ctx.close(n[key], m[key], 'matter of no density changes nothing')
        ctx.eq(k[key], m[key], 'potentials are ignored without matter effects')


@case(timeout_ms=40000)
def suppression(ctx):
    """dense matter: flavour states do not mix"""
    repo(ctx)
    from library.SM import particles; leptons = particles.leptons
    x, y = ctx.real('x', lo=1000.), ctx.real('y', lo=1000.)
    m = leptons.oscillations_map(MSW_12=x, MSW_13=y, matter_effects=True)
    for a in FLAVOURS:
        ctx.ge(m[(a, a)], 0.999, 'dense matter suppresses oscillations')


class Neutrino(object):
    def __init__(self, flavour, C, n, Tdec):
        self.flavour, self.name, self.collision_integral, self.decoupling_temperature = flavour, flavour, C, Tdec
        self.grid = grid(n)
        self.collision_integrals = []
        self.updated = 0

    def update_distribution(self):
        self.updated += 1


def world(ctx, matter=True):
    repo(ctx)
    from evolution import Universe
    from common import Params
    u = Universe(params=Params(T=ctx.pos('T'), m=ctx.pos('m'), dy=0.1))
    C = {f: [ctx.real('C_%s_%d' % (f, i)) for i in range(3)] for f in FLAVOURS}
    Tdec = [ctx.pos('Tdec_' + f) for f in FLAVOURS]
    ps = [Neutrino(f, array(ctx, C[f]), 3, t) for f, t in zip(FLAVOURS, Tdec)]
    other = Neutrino(None, array(ctx, [ctx.real('D%d' % i) for i in range(3)]), 3, 1.)
    u.particles = ps + [other]
    return u, ps, other, C, Tdec


@case(env={'LOGARITHMIC_TIMESTEP': 'True'})
def mixing(ctx):
    """collision terms of the flavours are mixed with the given probabilities, momentum by momentum"""
    u, ps, other, C, Tdec = world(ctx)
    P = {}
    pe, pt, et = [[ctx.real('%s%d' % (n, i), lo=0, hi=0.25) for i in range(3)] for n in ('p', 'q', 'r')]
    off = {frozenset(FLAVOURS[:2]): pe, frozenset(FLAVOURS[1:]): pt, frozenset((FLAVOURS[0], FLAVOURS[2])): et}
    for a in FLAVOURS:
        for b in FLAVOURS:
            P[(a, b)] = array(ctx, off[frozenset((a, b))] if a != b else [1 - sum(v[i] for k, v in off.items() if a in k) for i in range(3)])
    seen = []
    u.init_oscillations(lambda x, y, matter: (seen.append(matter), P)[1], ps, matter_effects=ctx.flag('matter'))
    D = list(other.collision_integral)
    cold = ctx.flag('decoupled')
    coldest = ctx.any(*[u.params.T < t for t in Tdec])
    ctx.assume(coldest if cold else ctx.no(coldest))
    u.update_distributions()
    for i in range(3):
        ctx.eq(other.collision_integral[i], D[i], 'other species are not affected')
        for a in ps:
            want = sum(P[(a.flavour, b)][i] * C[b][i] for b in FLAVOURS) if cold else C[a.flavour][i]
            ctx.eq(a.collision_integral[i], want, 'collision terms are mixed once a neutrino has decoupled, and only then',
                   scale=lambda: sum(abs(C[b][i]) for b in FLAVOURS))
        ctx.eq(sum(a.collision_integral[i] for a in ps), sum(C[b][i] for b in FLAVOURS), 'the total collision term is conserved at every momentum',
               scale=lambda: sum(abs(C[b][i]) for b in FLAVOURS))
    ctx.true(all(p.updated == 1 for p in u.particles), 'every distribution is changed once')


@case(env={'LOGARITHMIC_TIMESTEP': 'True'})
def potentials(ctx):
    """matter potentials: proportional to momentum squared times T^4, for every momentum"""
    import numpy
    u, ps, other, C, Tdec = world(ctx)
    from common import CONST
    calls = []

    def pattern(x, y, matter):
        calls.append((x, y, matter))
        return 'pattern'
    matter = ctx.flag('matter')
    u.init_oscillations(pattern, ps, matter_effects=matter)
    a, T = u.params.a, u.params.T
    x, y, m = calls[-1]
    ctx.true(m == matter, 'matter effects are passed on')
    k = 16. * 1.2021 * 2 ** 0.5 * CONST.G_F / numpy.pi / CONST.M_W ** 2
    for i, p in enumerate(ps[0].grid.TEMPLATE):
        if matter:
            ctx.eq(x[i], k * (p / a) ** 2 * T ** 4 / CONST.delta_m12_sq, 'solar matter potential')
            ctx.eq(y[i], k * (p / a) ** 2 * T ** 4 / CONST.delta_m13_sq * SIGN[0], 'atmospheric matter potential')
        else:
            ctx.eq(numpy.asarray(x).reshape(-1)[0], 0., 'no potential without matter effects')
            ctx.eq(numpy.asarray(y).reshape(-1)[0], 0., 'no potential without matter effects')
    ctx.true(u.oscillations[0] == 'pattern' and u.oscillations[1] is ps, 'the pattern is stored with its particles')


SIGN = [1.]


@case(env={'LOGARITHMIC_TIMESTEP': 'True', 'NORMAL_HIERARCHY_NEUTRINOS': 'False'})
def inverted(ctx):
    SIGN[0] = -1.
    try:
        potentials_fn(ctx)
    finally:
        SIGN[0] = 1.


potentials_fn = [c for c in CHECK.cases if c['name'] == 'potentials'][0]['fn']
