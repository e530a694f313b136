"""P23: what is recorded for nucleosynthesis."""
from .base import Check, repo
from .part import Box
from .p16 import universe, LOG, LIN

CHECK = Check(
    'P23', 'Records for nucleosynthesis describe the state of the Universe',
    functions=['evolution.py: Universe.save, save_params, init_kawano', 'common/utils.py: DynamicRecArray.append, row_repr', 'semianalytic.py: step_monitor'],
    bounds='all states of the Universe, rates and derivatives; logarithmic and linear stepping; one to three records; three calls of the step monitor',
    outside='binary output (savetxt), the external nuclear network')
case = CHECK.case
COLUMNS = ['t', 'x', 'Tg', 'dTg/dt', 'rho_tot', 'H', 'n nue->p e', 'p e->n nue', 'n->p e nue', 'p e nue->n', 'n e->p nue', 'p nue->n e']
ONE = {'GAUSS_LEGENDRE_ORDER': '1'}
# natural units (MeV) in the units of the table, from CODATA
HBAR = 6.582119569e-22           # MeV s
KELVIN = 11.604518e9             # K per MeV
GRAM = 1.78266192e-27            # g per MeV
CM = 197.3269804e-13             # cm MeV
MEV = 1e-3


class Lines(object):
    def __init__(self):
        self.text = ''

    def write(self, s):
        self.text += s

    def rows(self):
        return [line.split('\t') for line in self.text.split('\n') if line.strip()]


def start(ctx, mode, file=True):
    log = []
    u, parts, history = universe(ctx, 1, log, 1, mode)
    import kawano
    p = u.params
    one = Box(distribution=lambda y: 0.3, grid=Box(MIN_MOMENTUM=0., MAX_MOMENTUM=1e-2, BOUNDS=(0., 1e-2)), params=p)
    u.init_kawano(electron=one, neutrino=one)
    if file:
        u.kawano_log = Lines()
    u.log_throttler.output = ctx.flag('log')
    return u, kawano


def derivative(u, mode):
    """dT/dt for T = aT/a"""
    p = u.params
    if mode == 'log':
        return (u.fraction - p.aT) * p.H / p.a          # fraction = d(aT)/d ln a
    return (u.fraction * p.m - p.T) * p.H               # fraction = d(aT)/dx, x = a m


def change(ctx, u, i):
    """another state of the Universe"""
    p = u.params
    p.t, p.rho, p.S, p.N_eff = ctx.pos('t%d' % i), ctx.pos('r%d' % i), ctx.pos('S%d' % i), ctx.real('N%d' % i)
    p.aT, p.x, p.H = ctx.pos('aT%d' % i), ctx.pos('X%d' % i), ctx.pos('H%d' % i)
    p.a = p.x / p.m
    p.T = p.aT / p.a
    u.fraction = ctx.real('F%d' % i)


def record(ctx, mode, n):
    """rows appended by save"""
    u, kawano = start(ctx, mode)
    states = []
    count = 0
    for i in range(n):
        change(ctx, u, i)
        u.save()
        p = u.params
        ctx.assume(ctx.any(p.T <= 9.999999 * MEV, p.T >= 10.000001 * MEV))
        cold = p.T <= 10. * MEV
        ctx.true(len(u.data) == i + 2, 'there is one record per step')
        last = u.data[-1]
        for name, value in (('aT', p.aT), ('T', p.T), ('a', p.a), ('x', p.x), ('t', p.t), ('rho', p.rho), ('N_eff', p.N_eff), ('fraction', u.fraction), ('S', p.S)):
            ctx.eq(last[name], value, 'the record holds the state after the step')
        if cold:
            count += 1
            want = [p.t, p.x, p.T, derivative(u, mode), p.rho, p.H] + kawano.baryonic_rates(p.a)
            states.append(want)
        rows = u.kawano_log.rows()
        ctx.true(len(u.kawano_data) == len(rows) == len(states), 'nuclear data are recorded at every step below 10 MeV, and only then')
    for k, want in enumerate(states):
        for name, value in zip(COLUMNS, want):
            ctx.eq(u.kawano_data[k][name], value, 'nuclear data hold the state, its rate of change and the six rates', loose=True)
        ctx.true(len(rows[k]) == 12, 'lines have a value for every column')
        units = [1 / HBAR / MEV, MEV, MEV / KELVIN * 1e9, MEV ** 2 / KELVIN * HBAR * 1e9, MEV ** 4 / GRAM * CM ** 3, MEV * HBAR] + [1.] * 6
        for j, (value, unit, text) in enumerate(zip(want, units, rows[k])):
            shown = ctx.printed(text)
            if j >= 6:
                ctx.close(shown, value, 'rates are written as they are', tol=1e-4)
            else:
                ctx.le(ctx.abs(shown * unit - value), 2e-3 * ctx.abs(value), 'values are written in the units of the heading')


for m, e in (('log', LOG), ('lin', LIN)):
    for n in (1, 2):
        case('record_%s_%d' % (m, n), args=(m, n), env=dict(e, **ONE), tier='quick')(record)


@case(env=dict(LOG, **ONE))
def heading(ctx):
    """the columns of the table"""
    u, kawano = start(ctx, 'log')
    ctx.true(list(u.kawano_data.columns) == COLUMNS, 'columns are those the nuclear network reads')
    change(ctx, u, 0)
    ctx.assume(u.params.T <= 9 * MEV)
    u.save()
    text = u.kawano_data.row_repr(-1, names=True)
    for name in COLUMNS:
        ctx.true(name + ' = ' in text, 'named rows show every column')
    names = [part.split(' = ') for part in text.split('\t')]
    for (name, value), column, unit in zip(names, COLUMNS, kawano.heading):
        ctx.true(name == column and (unit[2] == 1. or value.split(' ', 1)[1] == unit[1] or unit[1] == 'dimensionless'), 'named rows show the units')


@case(env=dict(LOG, **ONE))
def memory(ctx):
    """without an output folder nuclear data are recorded all the same"""
    u, kawano = start(ctx, 'log', file=False)
    change(ctx, u, 0)
    ctx.assume(u.params.T <= 9 * MEV)
    u.save()
    ctx.true(len(u.kawano_data) == 1, 'nuclear data are recorded without an output folder, too')


def estimates(ctx, n):
    """semi-analytic helium fraction"""
    repo(ctx)
    import semianalytic
    import kawano
    import math
    from common import utils, UNITS
    class Q(object):
        pass
    u = Q()
    u.kawano = kawano
    u.kawano_data = utils.DynamicRecArray(kawano.heading)
    frozen = cold = None
    for i in range(n):
        u.params = Box(T=ctx.pos('T%d' % i), t=ctx.pos('t%d' % i), N_eff=3.)
        ctx.assume(ctx.any(u.params.T <= 0.064999 * MEV, u.params.T >= 0.065001 * MEV))
        state = (u.params.T, u.params.t)
        r = [ctx.pos('r%d_%d' % (i, j)) for j in range(2)]
        if ctx.flag('recorded%d' % i):
            row = dict.fromkeys(COLUMNS, 1.)
            # each of the six rates counts: shares that add up to the total
            share = [0.5, 0.3, 0.2]
            for j in range(6):
                row[COLUMNS[6 + j]] = r[j % 2] * share[j // 2]
            u.kawano_data.append(row)
            up, down = r
            last = ctx.any(up > 10 * down, up * 10 < down)
        elif not len(u.kawano_data):
            last = False
        semianalytic.step_monitor(u)
        u.params.T = u.params.t = -1.       # the state goes on changing
        if frozen is None and last:
            frozen = state
        if cold is None and state[0] <= 0.065 * MEV:
            cold = state
        ctx.true(hasattr(u, 'neutron_decoupling_parameters') == (frozen is not None), 'neutrons decouple when one direction of conversion is ten times faster than the other')
        ctx.true(hasattr(u, 'deuterium_generation_parameters') == (cold is not None), 'deuterium is generated below 0.065 MeV')
        for want, name in ((frozen, 'neutron_decoupling_parameters'), (cold, 'deuterium_generation_parameters')):
            if want:
                ctx.eq(getattr(u, name).T, want[0], 'the first such state is remembered')
                ctx.eq(getattr(u, name).t, want[1], 'the first such state is remembered')
        ctx.true(hasattr(u, 'BBN_estimates') == (frozen is not None and cold is not None), 'estimates are made once both are known')
        if frozen and cold:
            time, ratio, helium = u.BBN_estimates
            ctx.eq(time, cold[1] - frozen[1], 'neutrons decay from their decoupling to the generation of deuterium', scale=lambda: cold[1] + frozen[1])
            ctx.eq(ratio, math.exp(-kawano.q / frozen[0]) * math.exp(-(cold[1] - frozen[1]) / (885.7 * UNITS.s)), 'equilibrium ratio at decoupling, reduced by decays')
            ctx.eq(helium * (1 + ratio), 2 * ratio, 'all neutrons end in helium', loose=True)


case('estimates_1', args=(1,))(estimates)
case('estimates_2', args=(2,))(estimates)
case('estimates_3', args=(3,), tier='thorough', budget=600)(estimates)
