"""P22: weak rates that convert neutrons and protons."""
from .base import Check, repo
from .part import Box

CHECK = Check(
    'P22', 'Neutron-proton conversion rates follow the evolved spectra',
    functions=['kawano.py: baryonic_rates, init_kawano', 'common/integrators/__init__.py: integrate_1D, gaussian'],
    bounds='all scale factors and ranges of the grid, electron and neutrino spectra linear in momentum with arbitrary coefficients; quadratures of 1 to 3 nodes (20 for the decay of free neutrons)',
    outside='the external nuclear network; the error of the quadrature (P10)')
case = CHECK.case
# nodes and weights of Gauss-Legendre quadratures
NODES = {1: [(0., 2.)], 2: [(-3 ** -0.5, 1.), (3 ** -0.5, 1.)], 3: [(-0.6 ** 0.5, 5. / 9), (0., 8. / 9), (0.6 ** 0.5, 5. / 9)]}
MEV = 1e-3
NAMES = ['n nu -> p e', 'p e -> n nu', 'n -> p e nu', 'p e nu -> n', 'n e+ -> p nu', 'p nu -> n e+']


class Spectrum(Box):
    def distribution(self, y):
        return self.c0 + self.c1 * (y / MEV)


def setup(ctx, a, top, low=0., pa=None):
    repo(ctx)
    import kawano
    e = Spectrum(c0=ctx.real('e0'), c1=ctx.real('e1'))
    grid = Box(MIN_MOMENTUM=low, MAX_MOMENTUM=top, BOUNDS=(low, top))
    nu = Spectrum(c0=ctx.real('n0'), c1=ctx.real('n1'), grid=grid, params=Box(a=a if pa is None else pa))
    kawano.init_kawano(electron=e, neutrino=nu)
    return kawano, e, nu


def free(ctx):
    from common import CONST
    from library.SM import particles as SMP
    return SMP.hadrons.neutron['mass'] - SMP.hadrons.proton['mass'], SMP.leptons.electron['mass'], CONST.rate_normalization


def rates(ctx, n, which):
    """the six rates are the phase space integrals of their processes"""
    import math
    repo(ctx)
    a = ctx.pos('a', 0.01, 1e4)
    top = ctx.pick('top', [4. * MEV, 40. * MEV])
    kawano, e, nu = setup(ctx, a, top)
    Q, me, K = free(ctx)
    got = kawano.baryonic_rates(a)
    ctx.true(len(got) == 6, 'there are six rates')
    import numpy
    for i in which:
        pair = i // 2
        lo, hi = [(0., top), (0., (Q - me) * a), ((Q + me) * a, top)][pair]
        if abs(hi - lo) < 1e-6 * top:       # the threshold itself, where rounding decides
            continue
        if not lo < hi:
            ctx.eq(got[i], 0., NAMES[i] + ': no rate without phase space')
            continue
        total = 0.
        for x, w in NODES[n]:
            y = (hi - lo) / 2 * x + (hi + lo) / 2
            E = [y + Q * a, Q * a - y, y - Q * a][pair]
            k = numpy.sqrt(E ** 2 - (me * a) ** 2)
            fe, fn = e.distribution(k), nu.distribution(y)
            # what is present in the initial state, and what blocks the final state
            occupied = {0: fn * (1 - fe), 1: fe * (1 - fn), 2: (1 - fe) * (1 - fn), 3: fe * fn, 4: fe * (1 - fn), 5: fn * (1 - fe)}[i]
            total = total + w * y ** 2 * k * E * occupied
        ctx.eq(got[i] * a ** 5, K * (hi - lo) / 2 * total, NAMES[i] + ': phase space times occupations', loose=True)


for n in (1, 2, 3):
    for p in range(3):
        CHECK.case('rates_%d_%d' % (n, p), args=(n, (2 * p, 2 * p + 1)), env={'GAUSS_LEGENDRE_ORDER': str(n)}, tier='thorough' if n == 3 else 'quick')(rates)


@case(env={'GAUSS_LEGENDRE_ORDER': '20'})
def free_neutrons(ctx):
    """rates are in units of the decay rate of free neutrons"""
    repo(ctx)
    import kawano
    a = ctx.pos('a', 0.01, 1e4)
    empty = Box(distribution=lambda y: 0., grid=Box(MIN_MOMENTUM=0., MAX_MOMENTUM=20. * MEV, BOUNDS=(0., 20. * MEV)), params=Box(a=a))
    kawano.init_kawano(electron=empty, neutrino=empty)
    got = kawano.baryonic_rates(a)
    ctx.ge(got[2], 0.99, 'free neutrons decay with their lifetime')
    ctx.le(got[2], 1.01, 'free neutrons decay with their lifetime')
    for i in (0, 1, 3, 4, 5):
        ctx.eq(got[i], 0., 'nothing else happens in empty space')


@case(env={'GAUSS_LEGENDRE_ORDER': '2'})
def detailed_balance(ctx):
    """at a common temperature the rates of inverse processes differ by exp(-Q/T)"""
    repo(ctx)
    import kawano
    Q, me, K = free(ctx)
    a = 1.
    T = 0.7 * MEV
    import numpy
    # Fermi-Dirac occupations, with any value for each energy
    D = ctx.pos('D')                    # exp(Q/T)
    memo = {}

    def weight(E):
        key = round(float(E) / MEV, 9)
        for k, v in memo.items():
            if abs(k - key) < 1e-7:
                return v
        memo[key] = ctx.pos('w%d' % len(memo))
        return memo[key]
    class Electron(object):
        def distribution(self, y):
            E = numpy.sqrt(y ** 2 + me ** 2)
            # neutrons absorb E - Q with neutrinos, or Q - E with antineutrinos, or E + Q from positrons
            key = self.mode(E)
            return 1 / (key + 1)
    el = Electron()
    nu = Box(distribution=lambda y: 1 / (weight(y) + 1), grid=Box(MIN_MOMENTUM=0., MAX_MOMENTUM=12. * MEV, BOUNDS=(0., 12. * MEV)), params=Box(a=a))
    # the electron's occupation factor follows from the neutrino's through exp((E +- Q)/T) = exp(E/T) D^(+-1)
    def run(mode):
        el.mode = mode
        memo.clear()
        kawano.init_kawano(electron=el, neutrino=nu)
        return kawano.baryonic_rates(a)
    r = run(lambda E: weight(E - Q) * D)
    ctx.eq(r[1] * D, r[0], 'n nu <-> p e', loose=True)
    r = run(lambda E: D / weight(Q - E))
    ctx.eq(r[3] * D, r[2], 'n <-> p e nu', loose=True)
    r = run(lambda E: weight(E + Q) / D)
    ctx.eq(r[5] * D, r[4], 'n e+ <-> p nu', loose=True)
