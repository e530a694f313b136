"""P29: from the integrals of the C++ modules to collision terms."""
from .base import Check, repo, four, three
from .part import particle, array, Box, kinds
from .kin import Hook, kind_of, species4, species3

CHECK = Check(
    'P29', 'Collision terms are the Boltzmann integrals in physical units',
    functions=['interactions/four_particle/__init__.py: FourParticleIntegral.initialize, integrate', 'interactions/three_particle/__init__.py: ThreeParticleIntegral.initialize, integrate',
               'common/kinematics.py: CollisionMultiplier4p, CollisionMultiplier3p, grid_cutoff_4p, grid_cutoff_3p, interpolation_4p, return_function', 'integration, integration_3 (C++)'],
    bounds='all scale factors, temperatures, expansion rates, couplings and degrees of freedom; scatterings, decays and creations of four, decays and creations of three particles, massless and massive; '
           'all kinds of integral; one set of momentum grids, distributions (different for every particle) and comoving masses',
    outside='the quadrature (replaced by a functional of bounds and integrand; the integrand itself: P01 to P06), fast decaying particles (P27), neglected interactions (P21)')
case = CHECK.case
MEV = 1e-3                       # the program's unit of MeV
TABLES = [[0.45, 0.3, 0.11], [0.4, 0.21, 0.1], [0.37, 0.22, 0.05], [0.33, 0.17, 0.06]]
TOPS = [6., 8., 10., 7.]
LIN = {'LOGARITHMIC_TIMESTEP': 'False'}


def universe(ctx):
    a, aT, H, x = ctx.pos('a'), ctx.pos('aT'), ctx.pos('H'), ctx.pos('x')
    return Box(a=a, aT=aT, T=aT / a, H=H, x=x, m=1., h=0.1, t=1., a_ini=1.)


def species(ctx, params, masses, names=None, fermions=(1, 1, -1, 1), n=3, **kw):
    """particles with different grids, distributions, comoving masses, temperatures"""
    repo(ctx)
    out = []
    for i, m in enumerate(masses):
        p = particle(ctx, n, TOPS[i] * MEV, eta=fermions[i], name=names[i] if names else 'ABCD'[i], **(kw if i == 0 else {}))
        p.params = params
        p.mass = m * MEV / params.a if m else 0.
        p.thermal_dyn = True
        p.aT = (0.7 + i * 0.1) * MEV
        p.T = p.aT / params.a
        p.decoupling_temperature = 2 * p.T
        p._distribution = array(ctx, (TABLES[i] * 3)[:n])
        p.decayed = False
        p.density = 1.
        p.data['params'].append({'a': 1., 't': 1., 'T': 1., 'density': 1., 'energy_density': 1.})
        out.append(p)
    return out


def items(ps, sides):
    from interactions import IntegralItem
    return [IntegralItem(side=s, specie=p, antiparticle=False, index=i, crossed=False) for i, (p, s) in enumerate(zip(ps, sides))]


def hook(params):
    """a linear functional of the integrand that depends on the bounds and stands for the quadrature"""
    depth = [0]

    def run(f, a, b):
        depth[0] += 1
        x = a + (0.4 if depth[0] == 1 else 0.55) * (b - a)
        r = f(x) * (1 + 0.01 * (2 * a + 3 * b))
        depth[0] -= 1
        return r
    return run


def conf(p):
    return p.mass * p.params.a


def direct4(ctx, ps, momenta, sides, Ms, kind):
    """the integral in units of aT, asked from the C++ module"""
    m = four(ctx)
    aT = ps[0].params.aT
    sp = [species4(m, p.eta, conf(p) / aT, p.grid.TEMPLATE / aT, p._distribution, 0, p.aT / aT) for p in ps]
    reaction = [m.reaction_t(specie=s, side=d) for s, d in zip(sp, sides)]
    with Hook(m, hook(ps[0].params)):
        return m.integration([y / aT for y in momenta], 0., ps[1].grid.MAX_MOMENTUM / aT, 0., ps[2].grid.MAX_MOMENTUM / aT, ps[3].grid.MAX_MOMENTUM / aT,
                             reaction, [m.M_t(order=list(o), K1=a, K2=b, K=c) for o, a, b, c in Ms], 1., kind_of(m, 4, kind))


def direct3(ctx, ps, momenta, sides, kind):
    m = three(ctx)
    aT = ps[0].params.aT
    sp = [species3(m, p.eta, conf(p) / aT, p.grid.TEMPLATE / aT, p._distribution, 0, p.aT / aT) for p in ps]
    reaction = [m.reaction_t3(specie=s, side=d) for s, d in zip(sp, sides)]
    with Hook(m, hook(ps[0].params)):
        return m.integration_3([y / aT for y in momenta], 0., ps[1].grid.MAX_MOMENTUM / aT, ps[2].grid.MAX_MOMENTUM / aT, reaction, 1., kind_of(m, 3, kind))


def spins(p, dof):
    return dof if p.majorana else dof / 2


def run(ctx, ps, integral, kind):
    integral.initialize()
    with Hook(four(ctx), hook(ps[0].params)), Hook(three(ctx), hook(ps[0].params)):
        return integral.integrate(ps[0].grid.TEMPLATE)


def compare(ctx, got, const, kind, values, f, what):
    """got: result of integrate; values(kind): integrals per momentum; f: distribution"""
    if kind in ('Full', 'Full_vacuum_decay'):
        ctx.true(len(got) == 2 and len(got[0]) == len(f) == len(got[1]), what + ': a collision term and a damping rate for every momentum')
        A, B = values('F_1'), values('F_f')
        for i in range(len(f)):
            ctx.eq(got[1][i] / const, B[i], what + ': damping rate', loose=True)
            ctx.eq(got[0][i] / const, A[i] + f[i] * B[i], what + ': gain plus damping times occupation', loose=True)
        return
    V = values(kind)
    ctx.true(len(got) == len(f), what + ': a value for every momentum')
    for i in range(len(f)):
        lost = kind in ('F_f', 'F_decay', 'F_f_vacuum_decay')
        ctx.eq(got[i] / const, V[i] * f[i] if lost else V[i], what + (': loss term' if lost else ': gain term'), loose=True)


KINDS = ['Full', 'F_1', 'F_f', 'F_creation', 'F_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'Full_vacuum_decay']
FOUR = {'scattering': ((-1, -1, 1, 1), (0., 0., 0., 0.)), 'massive': ((-1, -1, 1, 1), (1., 0., 2., 0.5)),
        'decay': ((-1, 1, 1, 1), (12., 1., 0., 2.)), 'creation': ((-1, -1, -1, 1), (1., 0., 2., 12.))}
THREE = {'decay': ((-1, 1, 1), (9., 2., 1.)), 'light': ((-1, 1, 1), (9., 0., 0.)), 'creation': ((-1, -1, 1), (1., 2., 9.)), 'massless': ((-1, -1, 1), (0., 2., 9.))}


SOME = ['Full', 'F_1', 'F_decay', 'F_f_vacuum_decay']


def four_body(ctx, name, mode, which=SOME):
    repo(ctx)
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from common import CONST
    import math
    sides, masses = FOUR[name]
    params = universe(ctx)
    maj = ctx.flag('majorana')
    dof = ctx.pos('dof')
    ps = species(ctx, params, masses, majorana=maj, dof=dof)
    K = [[ctx.real('K%d_%d' % (j, i)) for j in range(3)] for i in range(2)]
    unit = 32 * CONST.G_F ** 2
    orders = [(0, 1, 2, 3), (0, 2, 1, 3)]
    kind = ctx.pick('kind', which)
    it = FourParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=getattr(kinds(), kind),
                              Ms=[FourParticleM(order=o, K1=k[0] * unit, K2=k[1] * unit, K=k[2] * unit) for o, k in zip(orders, K)])
    got = run(ctx, ps, it, kind)
    const = unit * (params.aT / params.a) ** 5 / 64 / math.pi ** 3 / params.H / spins(ps[0], dof)
    if mode == 'linear':
        const = const / params.x
    f = ps[0]._distribution
    compare(ctx, got, const, kind, lambda k: direct4(ctx, ps, ps[0].grid.TEMPLATE, sides, [(o,) + tuple(k) for o, k in zip(orders, K)], k), f, 'four particles')


for name in FOUR:
    CHECK.case('four_' + name, args=(name, 'log') + ((KINDS,) if name == 'scattering' else ()), weight=4, budget=300)(four_body)
    CHECK.case('four_all_' + name, args=(name, 'log', KINDS), weight=4, budget=600, tier='thorough')(four_body)
CHECK.case('four_linear', args=('scattering', 'linear'), env=LIN, weight=4, budget=300)(four_body)


def three_body(ctx, name, mode):
    repo(ctx)
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    import math
    sides, masses = THREE[name]
    params = universe(ctx)
    maj, dof = ctx.flag('majorana'), ctx.pos('dof')
    ps = species(ctx, params, masses, majorana=maj, dof=dof)
    K, L = ctx.pos('K'), ctx.pos('L')
    kind = ctx.pick('kind', KINDS)
    it = ThreeParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=getattr(kinds(), kind), Ms=[ThreeParticleM(K=K), ThreeParticleM(K=L)])
    got = run(ctx, ps, it, kind)
    # |M|^2 / (16 pi E p) times the integral (the module counts it twice); at rest |M|^2 p / (8 pi m^2)
    const = (K + L) / 32 / math.pi * params.a / params.aT / params.H / spins(ps[0], dof)
    if mode == 'linear':
        const = const / params.x
    aT = params.aT

    def values(k):
        V = list(direct3(ctx, ps, ps[0].grid.TEMPLATE, sides, k))
        V[0] = V[0] * 4 / (conf(ps[0]) / aT) ** 2 if masses[0] else 0.
        return V
    compare(ctx, got, const, kind, values, ps[0]._distribution, 'three particles')


for name in THREE:
    CHECK.case('three_' + name, args=(name, 'log'), weight=2)(three_body)
CHECK.case('three_linear', args=('decay', 'linear'), env=LIN, weight=2)(three_body)


def multiplicity(ctx, n):
    """several particles of the evolving species on one side"""
    repo(ctx)
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    params = universe(ctx)
    heavy = n == 4 and ctx.flag('sterile')
    ps = species(ctx, params, (0., 1., 2., 12.) if n == 4 else (0., 1., 9.), names=['A', 'B', 'C', 'Sterile neutrino (Dirac)' if heavy else 'D'])
    k = ctx.pick('copies', [1, 2, 3][:n - 1])
    sides = ctx.pick('sides', [(-1, -1, 1, 1), (-1, -1, -1, 1)]) if n == 4 else (-1, -1, 1)
    two = [ps[0]] * k + ps[k:] if k <= -sum(d for d in sides if d < 0) else None
    if two is None:
        return
    for p in set(two):
        p.grid = ps[0].grid
        p._distribution = ps[0]._distribution
    K = ctx.real('K')
    make = (lambda q: FourParticleIntegral(particle=q[0], reaction=items(q, sides), kind=kinds().F_1, Ms=[FourParticleM(K=K * 1e-10)])) if n == 4 else \
        (lambda q: ThreeParticleIntegral(particle=q[0], reaction=items(q, sides), kind=kinds().F_1, Ms=[ThreeParticleM(K=K)]))
    # the same reaction of particles that happen to look alike
    twins = []
    for i, q in enumerate(two):
        if i and q is ps[0]:
            t = species(ctx, params, [0.])[0]
            t.__dict__.update({key: v for key, v in ps[0].__dict__.items() if key not in ('data', 'name')})
            t.name = 'twin%d' % i
            t.data = ps[0].data
            q = t
        twins.append(q)
    a, b = run(ctx, two, make(two), 'F_1'), run(ctx, twins, make(twins), 'F_1')
    factor = k if sum(sides) < 0 and not heavy else 1        # (reactions of heavy neutrinos are listed for both of their signs)
    for i in range(len(a)):
        ctx.eq(a[i], factor * b[i], 'creations count every evolving particle they consume', loose=True)


CHECK.case('multiplicity_4', args=(4,))(multiplicity)
CHECK.case('multiplicity_3', args=(3,))(multiplicity)


@case()
def registration(ctx):
    """integrals act on decoupled particles only"""
    repo(ctx)
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    params = universe(ctx)
    for n in (3, 4):
        ps = species(ctx, params, (0., 0., 0., 0.)[:n])
        p = ps[0]
        p.thermal_dyn = ctx.flag('thermal')
        p.T = ctx.pos('T')
        p.decoupling_temperature = ctx.pos('T_dec')
        if n == 4:
            it = FourParticleIntegral(particle=p, reaction=items(ps, (-1, -1, 1, 1)), kind=kinds().Full, Ms=[FourParticleM(K1=1.)])
        else:
            it = ThreeParticleIntegral(particle=p, reaction=items(ps, (-1, 1, 1)), kind=kinds().Full, Ms=[ThreeParticleM(K=1.)])
        it.initialize()
        cold = p.params.T < p.decoupling_temperature and not p.in_equilibrium
        ctx.true(p.collision_integrals == ([it] if cold else []), 'integrals are registered with decoupled particles, once')


@case(env={'FOUR_PARTICLE_GRID_RESOLUTION': '4.0'})
def thinned(ctx):
    """on fine grids the integral is computed for some momenta and interpolated in between"""
    repo(ctx)
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from common import CONST
    import math
    sides = (-1, -1, 1, 1)
    params = universe(ctx)
    ps = species(ctx, params, (0.,) * 4, n=7)
    for p in ps:
        p.grid.TEMPLATE = array(ctx, [MEV * y for y in (0., 0.5, 1., 2.5, 4., 6., 9.)])
        p.grid.MAX_MOMENTUM, p.grid.BOUNDS = 9. * MEV, (0, 9. * MEV)
        p._distribution = array(ctx, [0.4, 0.35, 0.3, 0.2, 0.12, 0.1, 0.05])
    K = ctx.real('K')
    unit = 32 * CONST.G_F ** 2
    kind = ctx.pick('kind', ['Full', 'F_1'])
    it = FourParticleIntegral(particle=ps[0], reaction=items(ps, sides), kind=getattr(kinds(), kind), Ms=[FourParticleM(K1=K * unit)])
    got = run(ctx, ps, it, kind)
    const = unit * (params.aT / params.a) ** 5 / 64 / math.pi ** 3 / params.H / (ps[0].dof / 2)
    ys, f = list(ps[0].grid.TEMPLATE), list(ps[0]._distribution)
    exact = lambda k: direct4(ctx, ps, ys, sides, [((0, 1, 2, 3), K, 0., 0.)], k)
    A, B = exact('F_1'), exact('F_f')
    C = [x + g * y for x, y, g in zip(A, B, f)] if kind == 'Full' else A
    rows = [(got[0], C), (got[1], B)] if kind == 'Full' else [(got, C)]
    for out, V in rows:
        ctx.true(len(out) == len(ys), 'there is a value for every momentum')
        # ends and at least one momentum in between are computed, the others follow linearly
        ctx.eq(out[0] / const, V[0], 'first momentum is computed', loose=True)
        ctx.eq(out[-1] / const, V[-1], 'last momentum is computed', loose=True)
        kept = [0, 5, 6]     # the momenta next to 0, 4.5 and 9
        for i in range(len(ys)):
            l = max(k for k in kept if k <= i)
            r = min(k for k in kept if k >= i)
            want = V[l] if l == r else V[l] + (V[r] - V[l]) * ((ys[i] - ys[l]) / (ys[r] - ys[l]))
            ctx.eq(out[i] / const, want, 'other momenta are interpolated linearly between computed ones', loose=True)


def steps(ctx, n):
    """the same integral in two successive time steps"""
    repo(ctx)
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    params = universe(ctx)
    sides, masses = ((-1, -1, 1, 1), (0., 0., 0., 0.)) if n == 4 else ((-1, 1, 1), (9., 2., 1.))
    ps = species(ctx, params, masses)
    kind = ctx.pick('kind', ['Full', 'F_1', 'F_f'])
    K = ctx.pos('K')

    def make():
        if n == 4:
            return FourParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=getattr(kinds(), kind), Ms=[FourParticleM(K1=K * 1e-10)])
        return ThreeParticleIntegral(particle=ps[0], reaction=items(ps, sides), washout_temperature=0., kind=getattr(kinds(), kind), Ms=[ThreeParticleM(K=K)])
    it = make()
    run(ctx, ps, it, kind)
    # everything changes
    params.a, params.aT, params.H, params.x, params.h = ctx.pos('a2'), ctx.pos('aT2'), ctx.pos('H2'), ctx.pos('x2'), 0.2
    params.T = params.aT / params.a
    for i, p in enumerate(ps):
        p.mass = masses[i] * MEV / params.a if masses[i] else 0.
        p._distribution = array(ctx, [v * (0.9 - 0.1 * i) for v in list(p._distribution)])
        p.aT = (0.5 + 0.1 * i) * MEV
        p.T = p.aT / params.a
        p.decoupling_temperature = 2 * p.T
        p.collision_integrals = []
    again, fresh = run(ctx, ps, it, kind), run(ctx, ps, make(), kind)
    if kind != 'Full':
        again, fresh = [again], [fresh]
    for a, b in zip(again, fresh):
        for x, y in zip(a, b):
            ctx.eq(x, y, 'every step is computed from the state of that step', loose=True)


CHECK.case('steps_4', args=(4,))(steps)
CHECK.case('steps_3', args=(3,))(steps)
