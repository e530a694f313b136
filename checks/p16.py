"""P16: the temperature equation and the order of a time step."""
from .base import Check, repo
from .part import array, Box

CHECK = Check(
    'P16', 'Each step advances the temperature by the energy balance of all species',
    functions=['evolution.py: Universe.make_step, integrand, update_particles, init_interactions, calculate_collisions, update_distributions, '
               'calculate_temperature_terms, total_energy_density, total_entropy, save_params, evolve'],
    bounds='1..3 species with arbitrary heating terms, heat capacities, densities; histories of 1..7 records; logarithmic and linear steps, Adams-Bashforth and Euler',
    outside='output files, printing; longer histories (only the last five derivatives are used)')
case = CHECK.case
AB = {1: [1.], 2: [-1. / 2, 3. / 2], 3: [5. / 12, -16. / 12, 23. / 12], 4: [-9. / 24, 37. / 24, -59. / 24, 55. / 24],
      5: [251. / 720, -1274. / 720, 2616. / 720, -2774. / 720, 1901. / 720]}
LOG, LIN = {'LOGARITHMIC_TIMESTEP': 'True'}, {'LOGARITHMIC_TIMESTEP': 'False'}


class Species(object):
    """a particle that records what is asked of it"""

    def __init__(self, name, log, num, den, rho, s, active=True):
        self.name = self.symbol = name
        self.mass, self.flavour, self.decoupling_temperature = 0., name, 1.
        self.log, self.num, self.den, self.energy_density, self.entropy = log, num, den, rho, s
        self.collision_integrals = []
        self.collision_integral = None
        self.active, self.applied = active, None

    def update(self):
        self.log.append(('update', self.name))

    def integrate_collisions(self):
        self.log.append(('collide', self.name))
        return ('collision term of', self.name)

    def update_distribution(self):
        self.applied = self.collision_integral
        self.collision_integrals = []
        self.log.append(('distribution', self.name))

    def numerator(self):
        self.log.append(('terms', self.name))
        return self.num

    def denominator(self):
        self.log.append(('terms', self.name))
        return self.den


class Interaction(object):
    integrals = ()

    def __init__(self, name, species, log):
        self.name, self.species, self.log = name, species, log

    def initialize(self):
        self.log.append(('interaction', self.name))
        for s in self.species:
            if s.active:
                s.collision_integrals.append(object())


def universe(ctx, n, log, records=1, mode='log', h=None):
    repo(ctx)
    from evolution import Universe
    from common import Params
    T = ctx.pos('T')
    h = ctx.pos('h') if h is None else h
    params = Params(T=T, m=ctx.pos('m'), **({'dy': h} if mode == 'log' else {'dx': h}))
    u = Universe(params=params)
    parts = [Species('ABC'[i], log, ctx.real('num%d' % i), ctx.pos('den%d' % i), ctx.pos('rho%d' % i), ctx.pos('s%d' % i)) for i in range(n)]
    u.particles = parts
    history = []
    for k in range(records):
        f = 0. if k == 0 else ctx.real('f%d' % k)
        history.append(f)
        u.data.append({'aT': 1., 'T': 1., 'a': 1., 'x': 1., 'rho': 1., 'N_eff': 3., 't': 1., 'fraction': f, 'S': 1.})
    params.update(sum(p.energy_density for p in parts), 1.)
    return u, parts, history


def balance(ctx, parts, x, mode):
    f = sum(p.num for p in parts) / sum(p.den for p in parts)
    return f * x if mode == 'log' else f


def step(ctx, n, records, mode):
    log = []
    u, parts, history = universe(ctx, n, log, records, mode)
    aT, x, h, a, t, dx = u.params.aT, u.params.x, u.params.h, u.params.a, u.params.t, u.params.dx
    f = balance(ctx, parts, x, mode)
    u.make_step()
    ctx.eq(u.fraction, f, 'd(aT) is the ratio of total heating and total heat capacity')
    fs = (history[1:] + [f])[-5:]
    w = AB[len(fs)]
    want = aT + h * sum(a * b for a, b in zip(w, fs))
    ctx.eq(u.params.aT, want, 'aT is advanced by the Adams-Bashforth formula of the known derivatives', scale=lambda: 1 + sum(abs(v) for v in fs) * h + aT)
    ctx.eq(u.params.x, x + dx, 'the integration variable is advanced by one step')
    ctx.eq(u.params.a * u.params.m, u.params.x, 'the scale factor follows the integration variable')
    ctx.eq(u.params.T * u.params.a, u.params.aT, 'temperature is aT over a')
    ctx.eq(u.params.rho, sum(p.energy_density for p in parts), 'total energy density is the sum over the species')
    ctx.eq(u.params.S, sum(p.entropy for p in parts), 'total entropy is the sum over the species')


for k in (1, 2, 3, 5, 7):
    case('step_log_%d' % k, args=(2, k, 'log'), env=LOG)(step)
for k in (1, 4):
    case('step_lin_%d' % k, args=(2, k, 'lin'), env=LIN)(step)
case('step_one', args=(1, 2, 'log'), env=LOG)(step)
case('step_three', args=(3, 2, 'log'), env=LOG)(step)


def euler(ctx, mode):
    log = []
    u, parts, history = universe(ctx, 2, log, 3, mode)
    aT, x, h = u.params.aT, u.params.x, u.params.h
    u.make_step()
    ctx.eq(u.params.aT, aT + h * balance(ctx, parts, x, mode), 'aT is advanced by an Euler step when asked for', scale=lambda: 1 + aT)


case('euler_log', args=('log',), env=dict(LOG, ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='False'))(euler)
case('euler_lin', args=('lin',), env=dict(LIN, ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='False'))(euler)


@case(env=LOG)
def order(ctx):
    """phases of a step, with any subset of colliding species"""
    log = []
    u, parts, history = universe(ctx, 3, log, 1)
    for p in parts:
        p.active = ctx.flag('collides ' + p.name)
    u.interactions = [Interaction('I', parts[:2], log), Interaction('J', parts[1:], log)]
    seen = []
    if ctx.flag('monitored'):
        u.step_monitor = lambda universe: seen.append(len(log))
    del log[:]
    u.make_step()
    phases = ['update', 'interaction', 'collide', 'distribution', 'terms']
    got = [phases.index(x[0]) for x in log]
    ctx.true(got == sorted(got), 'species are updated, interactions set up, collisions evaluated, distributions changed, heating summed - in this order')
    for p in parts:
        ctx.true(log.count(('update', p.name)) == 1, 'every species is updated once')
        ctx.true(log.count(('distribution', p.name)) == 1, 'every distribution is changed once')
        ctx.true(log.count(('collide', p.name)) == int(p.active), 'collisions of a species are evaluated once, if it has active interactions')
        if p.active:
            ctx.true(p.applied == ('collision term of', p.name), 'the collision term applied to a species is its own')
    for n in 'IJ':
        ctx.true(log.count(('interaction', n)) == 1, 'every interaction is set up once')
    if seen:
        ctx.true(seen == [len(log)], 'the monitor sees the state after the evaluation of the step')


@case(env=LOG)
def run(ctx):
    """steps until the final temperature is reached, one record for each"""
    import io
    import sys
    log = []
    h = ctx.pick('h', [0.5, 0.25])
    u, parts, history = universe(ctx, 1, log, 0, h=h)
    parts[0].num = 0.
    # no heating: T falls by 1 + h each step
    n = ctx.pick('steps', [0, 1, 3])
    T0 = u.params.T
    T = T0
    for k in range(n):
        T = T / (1 + h)
    margin = ctx.real('margin', lo=1.01, hi=1.2)
    final = T if n == 0 and ctx.flag('exact') else T * margin
    out = u.evolve(final, export=False)
    ctx.true(len(out) == n + 1, 'one record for the start and one for each step until the final temperature')
    ctx.true(u.step == n + 1, 'steps are counted')
    ctx.le(u.params.T, final, 'stops at the first temperature that is not above the final one')
    ctx.eq(out['T'][-1], u.params.T, 'the last record is the final state')
    ctx.eq(out['T'][0], T0, 'the first record is the initial state')
    for name in ('aT', 'a', 'x', 't', 'rho', 'N_eff', 'S'):
        ctx.eq(out[name][-1], getattr(u.params, name), 'recorded ' + name)
    ctx.eq(out['fraction'][-1], u.fraction, 'recorded derivative')
