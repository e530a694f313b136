"""P12: cosmological state: Friedmann equation, scale factor, temperature, time."""
import math
from .base import Check, repo

CHECK = Check(
    'P12', 'Expansion follows the Friedmann equation consistently',
    functions=['common/__init__.py: Params.__init__, infer, init_time, update, entropic_dof_eq'],
    bounds='every initial temperature, normalisation mass, step, density > 0; sequences of 4 updates with arbitrary '
           'densities and arbitrary increments of the integration variables; logarithmic and linear stepping',
    outside='rounding; longer sequences (each update reads only the state the previous one left)')
case = CHECK.case
LOG = {'LOGARITHMIC_TIMESTEP': 'true'}
LIN = {'LOGARITHMIC_TIMESTEP': ''}


def start(ctx, log):
    repo(ctx)
    from common import Params, CONST
    T, m = ctx.pos('T0'), ctx.pos('m')
    step = ctx.pos('step')
    kw = {'dy': step} if log else {'dx': step}
    p = Params(T=T, m=m, **kw)
    return p, T, m, step, CONST


def initial(ctx, log):
    p, T, m, step, CONST = start(ctx, log)
    ctx.eq(p.a, m / T, 'initial scale factor makes aT equal to the reference mass')
    ctx.eq(p.a_ini, m / T, 'initial scale factor is remembered')
    ctx.eq(p.aT, m, 'aT is a times T')
    ctx.eq(p.x, m * m / T, 'x is a times the reference mass')
    ctx.eq(p.T, T, 'temperature is the requested one')
    if log:
        ctx.eq(p.h, step, 'step size of the integration variable')
        ctx.eq(p.dx, p.x * step, 'dx = x dy')
        import numpy
        ctx.eq(p.y, numpy.log(m / T), 'y = log a')
    else:
        ctx.eq(p.h, step, 'step size of the integration variable')
        ctx.eq(p.dx, step, 'dx is the requested one')
    rho = ctx.pos('rho')
    t = p.init_time(rho)
    ctx.eq(t, p.t, 'initial time is stored')
    # radiation domination: H = 1/(2t)
    ctx.eq(32. * math.pi * rho * p.t * p.t, 3. * CONST.M_p ** 2, 'initial age of a radiation dominated universe', tol=1e-9)


def updates(ctx, log, n):
    """any history of integration variables and densities"""
    p, T, m, step, CONST = start(ctx, log)
    p.t = ctx.real('t0', lo=0)
    for k in range(n):
        rho, S = ctx.pos('rho%d' % k), ctx.real('S%d' % k)
        aT, dx = ctx.pos('aT%d' % k), ctx.pos('dx%d' % k)
        a_old, t_old, T_old, x_old = p.a, p.t, p.T, p.x
        p.aT = aT
        p.x = p.x + dx
        x = p.x
        p.update(rho, S)
        ctx.eq(p.H * p.H * CONST.M_p ** 2, 8. * math.pi / 3. * rho, 'Friedmann equation')
        ctx.ge(p.H, 0, 'expansion rate is positive')
        ctx.eq(p.x, x, 'update does not move the integration variable')
        ctx.eq(p.a * m, x, 'scale factor follows the integration variable')
        ctx.eq(p.T * p.a, aT, 'temperature is aT / a')
        ctx.eq(p.aT, aT, 'aT is kept')
        ctx.eq(p.rho, rho, 'density is recorded')
        ctx.eq(p.S, S, 'entropy is recorded')
        ctx.eq((p.t - t_old) * p.H * p.a, p.a - a_old, 'time step is da / (a H)')
        ctx.ge(p.t, t_old, 'time does not run backwards')
        ctx.eq(p.N_eff * (7. / 8.) * (T_old / 1.401) ** 4 * math.pi ** 2 / 15., rho - math.pi ** 2 / 15. * T_old ** 4,
               'N_eff counts the non-photon density in neutrino units at the temperature of the step')
        if log:
            ctx.eq(p.dx, x * p.dy, 'step follows x in logarithmic stepping')
            ctx.eq(p.dy, step, 'logarithmic step is constant')
            ctx.eq(p.h, step, 'integration step is the logarithmic step')
        else:
            ctx.eq(p.dx, step, 'linear step is constant')
            ctx.eq(p.h, step, 'integration step is the linear step')


case('initial_log', env=LOG, args=(True,))(initial)
case('initial_lin', env=LIN, args=(False,))(initial)
for n in (1, 2, 4):
    case('updates_log_%d' % n, env=LOG, args=(True, n))(updates)
    case('updates_lin_%d' % n, env=LIN, args=(False, n))(updates)
for n in (6, 8):
    case('updates_log_%d' % n, tier='thorough', env=LOG, args=(True, n))(updates)


@case()
def relativistic_species(ctx):
    """entropic degrees of freedom: relativistic equilibrium species, 7/8 for fermions"""
    repo(ctx)
    from common import Params, statistics

    class P(object):
        pass

    class U(object):
        pass
    u = U()
    u.params = P()
    u.params.T = ctx.pos('T')
    u.particles = []
    want = 0
    for i in range(3):
        q = P()
        q.mass, q.dof = ctx.real('mass%d' % i, lo=0), ctx.real('dof%d' % i, lo=1)
        q.in_equilibrium = ctx.flag('eq%d' % i)
        q.statistics = statistics.FERMION if ctx.flag('fermion%d' % i) else statistics.BOSON
        u.particles.append(q)
    got = Params.entropic_dof_eq(u)
    for q in u.particles:
        if q.in_equilibrium and q.mass < u.params.T:
            want = want + q.dof * (0.875 if q.statistics == statistics.FERMION else 1.)
    ctx.eq(got, want, 'entropic degrees of freedom')


def missing_step(ctx, log):
    """a stepping mode without its step size is refused"""
    repo(ctx)
    from common import Params
    T = ctx.pos('T')
    refused = False
    try:
        Params(T=T, **({'dx': 1.} if log else {'dy': 1.}))
    except Exception:
        refused = True
    ctx.true(refused, 'step of the other stepping mode is refused')


case('missing_step_log', env=LOG, args=(True,))(missing_step)
case('missing_step_lin', env=LIN, args=(False,))(missing_step)
