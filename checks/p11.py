"""P11: collision terms change the distribution of decoupled particles, and only of those."""
from fractions import Fraction as F
from .base import Check, repo
from .part import particle, array, kinds, Box

CHECK = Check(
    'P11', 'Distribution functions follow the collision terms',
    functions=['particles/__init__.py: DistributionParticle.update_distribution, calculate_collision_integral, integrate_collisions, distribution',
               'common/integrators: adams_moulton_solver', 'common/kinematics: has_decayed'],
    bounds='grids of 3 momenta, all occupation numbers, collision terms and steps; 1..3 active integrals of every kind; histories of 0..6 steps',
    outside='fast decaying species (P27); rounding; longer histories (only the last four entries are used)')
case = CHECK.case

# Adams-Moulton weights from the interpolation polynomial through the last slopes: (oldest .. new)
AM = {1: [F(1)], 2: [F(1, 2), F(1, 2)], 3: [F(-1, 12), F(2, 3), F(5, 12)], 4: [F(1, 24), F(-5, 24), F(19, 24), F(9, 24)],
      5: [F(-19, 720), F(106, 720), F(-264, 720), F(646, 720), F(251, 720)]}


class Integral(object):
    """an active collision integral with given values"""

    def __init__(self, kind, value, log=None):
        self.kind, self.value, self.log = kind, value, log

    def integrate(self, ps, stepsize=None):
        if self.log is not None:
            self.log.append((len(ps), stepsize))
        return self.value


def decoupled(ctx, n=3, **kw):
    p = particle(ctx, n, **kw)
    p.params.h = ctx.pos('h')
    f = [ctx.real('f%d' % i, lo=0, hi=1) for i in range(n)]
    p._distribution = array(ctx, f)
    return p, f


@case()
def update(ctx):
    n = 3
    coupled = ctx.flag('coupled')
    p, f = decoupled(ctx, n)
    p.T = 2. if coupled else 0.5
    C = [ctx.real('C%d' % i) for i in range(n)]
    p.collision_integral = array(ctx, C)
    p.collision_integrals = [object()]
    before = (len(p.data['distribution']), len(p.data['collision_integral']))
    p.update_distribution()
    for i in range(n):
        if coupled:
            ctx.eq(p._distribution[i], f[i], 'an equilibrium distribution is not touched by collisions')
        else:
            new = f[i] + p.params.h * C[i]
            want = new if new > 0 else 0.
            ctx.eq(p._distribution[i], want, 'the distribution changes by step times collision term and stays non-negative',
                   scale=lambda: (1 + abs(p.params.h * C[i])))
    if not coupled:
        ctx.true(len(p.data['distribution']) == before[0] + 1, 'the new distribution is recorded once')
        ctx.true(len(p.data['collision_integral']) == before[1] + 1, 'the collision term is recorded once')
        for i in range(n):
            ctx.eq(p.data['distribution'][-1][i], p._distribution[i], 'the recorded distribution is the new one')
            ctx.eq(p.data['collision_integral'][-1][i], C[i], 'the recorded collision term is the applied one')
        ctx.true(len(p.collision_integrals) == 0, 'active integrals are cleared for the next step')
    else:
        ctx.true((len(p.data['distribution']), len(p.data['collision_integral'])) == before, 'no history is recorded in equilibrium')


@case()
def undefined(ctx):
    """an undefined collision term leaves its momentum alone"""
    p, f = decoupled(ctx, 3)
    bad = ctx.pick('bad', [0, 1, 2])
    C = [float('nan') if i == bad else ctx.real('C%d' % i) for i in range(3)]
    p.collision_integral = array(ctx, C)
    p.update_distribution()
    for i in range(3):
        new = f[i] if i == bad else f[i] + p.params.h * C[i]
        ctx.eq(p._distribution[i], new if new > 0 else 0., 'undefined collision terms count as zero', scale=lambda: 1 + abs(new))


def implicit(ctx, n_integrals, history):
    """integrals that come as slope and damping: the step solves the Adams-Moulton relation"""
    n = 3
    p, f = decoupled(ctx, n)
    K = kinds()
    log = []
    values = []
    for j in range(n_integrals):
        kind = (K.Full, K.Full_vacuum_decay)[j % 2]
        C = [ctx.real('C%d_%d' % (j, i)) for i in range(n)]
        B = [ctx.real('B%d_%d' % (j, i), hi=0) for i in range(n)]
        values.append((C, B))
        p.collision_integrals.append(Integral(kind, (array(ctx, C), array(ctx, B)), log))
    past = []
    for k in range(history):
        past.append([ctx.real('I%d_%d' % (k, i)) for i in range(n)])
        p.data['collision_integral'].append(array(ctx, past[-1]))
    h = p.params.h
    got = p.integrate_collisions()
    ctx.true(len(got) == n, 'one collision term per grid momentum')
    ctx.true(log == [(n, h)] * n_integrals, 'every integral is evaluated once, on the grid and with the step')
    order = min(5, history + 1)
    w = AM[order]
    for i in range(n):
        C = sum(v[0][i] for v in values)
        B = sum(v[1][i] for v in values)
        f1 = f[i] + h * got[i]
        # slope at the end of the step, the collision term being linear in f
        end = C + B * (f1 - f[i])
        rhs = w[-1] * end
        for k in range(order - 1):
            rhs = rhs + w[k] * past[history - (order - 1) + k][i]
        ctx.eq(got[i], rhs, 'the collision term satisfies the implicit relation of its order',
               scale=lambda: 10 * (1 + h) * (1 + abs(C) + abs(B) + sum(abs(x[i]) for x in past)))


for k in (0, 1, 2, 3, 4, 6):
    case('implicit_%d' % k, args=(2, k))(implicit)
case('implicit_one', args=(1, 1))(implicit)
case('implicit_three', args=(3, 1))(implicit)


@case()
def gain_only(ctx):
    """integrals given as pure slopes enter explicitly, in any combination with the others"""
    n = 3
    p, f = decoupled(ctx, n)
    K = kinds()
    name = ctx.pick('kind', ['F_1', 'F_creation', 'F_1_vacuum_decay', 'F_f'])
    g = [ctx.real('G%d' % i) for i in range(n)]
    p.collision_integrals.append(Integral(getattr(K, name), array(ctx, g)))
    both = ctx.flag('with a full integral')
    C, B = [0.] * n, [0.] * n
    if both:
        C = [ctx.real('C%d' % i) for i in range(n)]
        B = [ctx.real('B%d' % i, hi=0) for i in range(n)]
        p.collision_integrals.append(Integral(K.Full, (array(ctx, C), array(ctx, B))))
    got = p.integrate_collisions()
    h = p.params.h
    for i in range(n):
        ctx.eq(got[i] * (1 - h * B[i]), g[i] + C[i], 'gain terms add to the slope', scale=lambda: 10 * (1 + h) * (1 + abs(g[i]) + abs(C[i])) * (1 + abs(B[i])))


@case()
def loss_only(ctx):
    n = 3
    p, f = decoupled(ctx, n)
    K = kinds()
    name = ctx.pick('kind', ['F_decay', 'F_f_vacuum_decay'])
    g = [ctx.real('G%d' % i, hi=0) for i in range(n)]
    p.collision_integrals.append(Integral(getattr(K, name), array(ctx, g)))
    got = p.integrate_collisions()
    for i in range(n):
        ctx.le(got[i], 0, 'loss terms only remove particles')
        ctx.ge(got[i], g[i], 'loss terms are damped, not amplified')


@case()
def inactive(ctx):
    """no active integrals, or a decayed particle: no change"""
    n = 3
    p, f = decoupled(ctx, n)
    K = kinds()
    decayed = ctx.flag('decayed')
    p.decayed = decayed
    if decayed:
        p.collision_integrals.append(Integral(K.Full, (array(ctx, [ctx.real('C%d' % i) for i in range(n)]), array(ctx, [0.] * n))))
    got = p.integrate_collisions()
    for i in range(n):
        ctx.eq(got[i], 0., 'nothing collides')


@case()
def dilution(ctx):
    """a massive particle whose density has fallen below the threshold is removed"""
    n = 3
    p, f = decoupled(ctx, n, mass=1.)
    K = kinds()
    n0, n1 = ctx.pos('n0'), ctx.pos('n1')
    a_ini = p.params.a_ini = ctx.pos('a_ini')
    C = [ctx.real('C%d' % i) for i in range(n)]
    p.collision_integrals.append(Integral(K.Full, (array(ctx, C), array(ctx, [0.] * n))))
    for k in range(2):
        p.data['distribution'].append(array(ctx, f))
        p.data['params'].append({'a': 1., 't': 1., 'T': 1., 'density': n0 if k == 0 else n1, 'energy_density': 1.})
    p.density = n1
    got = p.integrate_collisions()
    thr = 1e-10 * (a_ini / 10) ** 3
    if n1 < thr * n0 * (1 - 1e-9):
        ctx.true(p.decayed, 'a diluted particle counts as decayed')
        for i in range(n):
            ctx.eq(got[i], 0., 'a decayed particle has no collision term')
            ctx.eq(p._distribution[i], 0., 'a decayed particle is gone')
    elif n1 > thr * n0 * (1 + 1e-9):
        ctx.true(not p.decayed, 'a particle above the threshold has not decayed')
        for i in range(n):
            ctx.eq(got[i], C[i], 'a particle above the threshold collides', scale=lambda: 1 + abs(C[i]))
            ctx.eq(p._distribution[i], f[i], 'computing the collision term does not change the distribution')
