"""P28: Universes do not influence each other; composing a Universe of species and interactions."""
from .base import Check, repo
from .part import array, Box, grid, particle
from .p16 import universe, Species, Interaction, LOG, LIN

CHECK = Check(
    'P28', 'Universes are independent and made of the species and reactions they were given',
    functions=['evolution.py: Universe.__init__, add_particles, make_step, save_params, QCD_transition', 'common/utils.py: particle_orderer, particle_filter, interaction_filter, reaction_type',
               'common/__init__.py: Params.entropic_dof_eq', 'particles/__init__.py: AbstractParticle.__init__, set_params, update, update_distribution'],
    bounds='two Universes with arbitrary states advanced in any order, 2 steps each; up to 4 species of arbitrary masses; up to 4 reactions',
    outside='Universes with output folders (the log replaces the standard output)')
case = CHECK.case
ENV = {'GAUSS_LEGENDRE_ORDER': '1', 'GAUSS_LAGUERRE_ORDER': '1'}
STATE = ('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'S', 'H', 'dx')


class Named(object):
    """the same context with a suffix to all names; only the heating terms and entropies are unknown"""
    fixed = {'T': 0.01, 'm': 0.001, 'h': 0.05, 'den0': 2., 'den1': 0.5, 'rho0': 3e-9, 'rho1': 1e-9}

    def __init__(self, ctx, suffix):
        self.ctx, self.suffix = ctx, suffix

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def real(self, name, *a, **k):
        return self.ctx.real(name + self.suffix, lo=-0.01, hi=0.01)

    def pos(self, name, *a, **k):
        if name in self.fixed:
            return self.fixed[name] * (1.25 if self.suffix else 1.)
        return self.ctx.pos(name + self.suffix, *a, **k)


def snapshot(u):
    return [getattr(u.params, s) for s in STATE] + [u.fraction, u.step] + [list(u.data[c]) for c in ('aT', 'T', 'a', 'fraction', 't')]


def equal(ctx, a, b, label):
    for x, y in zip(a, b):
        if isinstance(x, list):
            ctx.true(len(x) == len(y), label)
            for v, w in zip(x, y):
                ctx.eq(v, w, label)
        elif x is None or y is None:
            ctx.true(x is y, label)
        else:
            ctx.eq(x, y, label)


def advance(u):
    u.make_step()
    u.save()


def together(ctx, mode):
    """the history of a Universe is the same whether or not another one is evolved at the same time"""
    make = lambda s, n: universe(Named(ctx, s), n, [], 0, mode)[0]
    alone = []
    for s, n in (('', 2), ('_', 1)):
        u = make(s, n)
        advance(u)
        advance(u)
        alone.append(snapshot(u))
    order = ctx.pick('order', ['AABB', 'ABAB', 'ABBA', 'BAAB', 'BABA', 'BBAA'])
    pair = {}
    if ctx.flag('B first'):
        pair['B'] = make('_', 1)
    pair['A'] = make('', 2)
    if 'B' not in pair:
        pair['B'] = make('_', 1)
    for who in order:
        other = pair['B' if who == 'A' else 'A']
        before = snapshot(other)
        advance(pair[who])
        equal(ctx, before, snapshot(other), 'advancing a Universe does not change another one')
    for who, want in zip('AB', alone):
        equal(ctx, want, snapshot(pair[who]), 'the history of a Universe does not depend on another one')


case('together_log', args=('log',), env=LOG)(together)
case('together_lin', args=('lin',), env=LIN)(together)


@case(env=LOG)
def fresh(ctx):
    """new Universes are empty"""
    repo(ctx)
    from evolution import Universe
    from common import Params
    a = Universe(params=Params(T=ctx.pos('T'), dy=ctx.pos('h')))
    log = []
    s = Species('A', log, 0., 1., 1., 1.)
    s.set_params = lambda params: None
    a.add_particles([s])
    a.interactions += [object()]
    a.data.append({c: ctx.real(c) for c in a.data.columns})
    b = Universe(params=Params(T=ctx.pos('T'), dy=ctx.pos('h')))
    ctx.true(b.particles == [] and b.interactions == [], 'a new Universe has no species and no reactions')
    ctx.true(len(b.data) == 0, 'a new Universe has no records')
    ctx.true(len(a.data) == 1 and len(a.particles) == 1 and len(a.interactions) == 1, 'a Universe keeps what it was given')
    ctx.true(b.step == 1 and not b.oscillations and not b.kawano and b.step_monitor is None, 'a new Universe starts at the first step without options')


def species(ctx, name, mass, **kw):
    """a real particle that is not yet part of a Universe"""
    repo(ctx)
    from common import statistics
    from particles import Particle
    settings = dict(name=name, symbol=name, mass=mass, dof=2, Q=0, majorana=False, statistics=statistics.FERMION, grid=grid(3, 4e-3), decoupling_temperature=0.)
    settings.update(kw)
    return Particle(**settings)


def plasma(ctx, suffix=''):
    from evolution import Universe
    from common import Params
    return Universe(params=Params(T=ctx.pos('T' + suffix), dy=0.01, m=ctx.pos('m' + suffix)))


def ordered(ctx, n, k):
    """species are ordered by mass, whatever their masses; each is set up with the state of the Universe"""
    repo(ctx)
    u = plasma(ctx)
    masses = [ctx.real('M%d' % i, lo=0) for i in range(n)]
    names = 'BDAC'[:n]
    parts = [species(ctx, names[i], masses[i], thermal_dyn=False, decoupling_temperature=1e9) for i in range(n)]
    first, second = list(parts[:k]), list(parts[k:])
    u.add_particles(first)
    if second:
        seen = [len(p.data['params']) for p in first]
        u.add_particles(second)
        ctx.true(seen == [len(p.data['params']) for p in first], 'adding species does not touch those already there')
    ctx.true(sorted(p.name for p in u.particles) == sorted(names), 'every species is there once')
    ctx.true(all(any(p is q for q in parts) for p in u.particles), 'the species are those that were given')
    ctx.true([p.name for p in first] == list(names[:k]), 'the list of species that was given is not changed')
    for a, b in zip(u.particles, u.particles[1:]):
        ctx.ge(a.mass, b.mass, 'species are ordered from the heaviest to the lightest')
    for p in parts:
        ctx.true(p.params is u.params, 'species follow the state of their Universe')
        ctx.eq(p.T, u.params.T, 'species start with the temperature of the Universe')


case('ordered_3', args=(3, 3), env=ENV)(ordered)
case('ordered_2_1', args=(3, 2), env=ENV)(ordered)
case('ordered_4', args=(4, 2), env=ENV, tier='thorough', budget=600)(ordered)


@case(env=ENV)
def strangers(ctx):
    """species do not share records, distributions or collision terms, even on a shared grid"""
    repo(ctx)
    from common import Params
    g = grid(3, 4e-3)
    a, b = [species(ctx, n, 0., grid=g, decoupling_temperature=1e9) for n in 'AB']
    pa, pb = Params(T=0.01, dy=0.01), Params(T=0.02, dy=0.02)
    a.set_params(pa)
    b.set_params(pb)
    f = [ctx.real('f%d' % i, lo=0) for i in range(3)]
    C = [ctx.real('C%d' % i, lo=0) for i in range(3)]
    for p, other in ((a, b), (b, a)):
        p._distribution = array(ctx, f)
        kept = [list(other._distribution), list(other.collision_integral), [len(other.data[k]) for k in sorted(other.data)], other.aT, other.density, other.energy_density]
        integral = object()
        p.collision_integrals.append(integral)
        ctx.true(other.collision_integrals == [], 'active reactions belong to one species')
        p.collision_integral = array(ctx, C)
        p.update_distribution()
        p.params.aT, p.params.a = ctx.pos('aT'), 0.25
        p.update()
        now = [list(other._distribution), list(other.collision_integral), [len(other.data[k]) for k in sorted(other.data)], other.aT, other.density, other.energy_density]
        ctx.true(kept[2] == now[2], 'records of a species are its own')
        for x, y in zip(kept[0] + kept[1] + kept[3:], now[0] + now[1] + now[3:]):
            ctx.eq(x, y, 'the state of a species does not depend on that of another one')
        for i in range(3):
            ctx.eq(p.data['distribution'].data[-1][i], f[i] + C[i] * p.params.h, 'the changed distribution is recorded')
            # later changes do not rewrite the record
        p._distribution += 1.
        for i in range(3):
            ctx.eq(p.data['distribution'].data[-1][i], f[i] + C[i] * p.params.h, 'records do not change afterwards')
        p._distribution -= 1.


# ---------------------------------------------------------------- selections

def item(name, side):
    return Box(specie=Box(name=name), side=side)


def reaction(names):
    """first species on the left, as in the code: +1 incoming, -1 outgoing"""
    left, right = names.split('>')
    return Box(reaction=[item(n, 1) for n in left] + [item(n, -1) for n in right])


REACTIONS = ['AB>CD', 'A>BCD', 'BCD>A', 'B>CD', 'CD>B', 'DD>AA', 'CA>BB']


@case()
def selections(ctx):
    """filters remove what was asked for, and nothing else"""
    repo(ctx)
    from common import utils
    names = [n for n in 'ABCD' if ctx.flag('without ' + n)]
    parts = [Box(name=n) for n in 'ABCDA']
    got = utils.particle_filter(names, parts)
    want = [p for p in parts if p.name not in names]
    ctx.true(len(got) == len(want) and all(x is y for x, y in zip(got, want)), 'species of the given names are removed')
    ctx.true(len(parts) == 5, 'the original list is kept')
    first = ctx.flag('first only')
    kinds = ctx.pick('kinds', [None, [2], [-2, -1], [0]])
    inters = [Box(integrals=[reaction(r) for r in REACTIONS]), Box(integrals=[]), Box(integrals=[reaction(r) for r in REACTIONS[::-1]])]
    keep = [[i for i in x.integrals] for x in inters]
    kw = {} if kinds is None else {'reaction_type': kinds}
    got = utils.interaction_filter(names, inters, first_only=first, **kw)
    ctx.true(len(got) == 3 and all(x is y for x, y in zip(got, inters)), 'all interactions remain')
    for inter, before in zip(got, keep):
        want = []
        for i in before:
            concerned = [i.reaction[0].specie.name] if first else [x.specie.name for x in i.reaction]
            if any(n in names for n in concerned):
                continue
            if kinds and sum(x.side for x in i.reaction) in kinds:
                continue
            want.append(i)
        ctx.true(len(want) == len(inter.integrals) and all(x is y for x, y in zip(want, inter.integrals)), 'reactions of the given species and kinds are removed')


@case()
def kind(ctx):
    """creations, scatterings and decays are told apart"""
    repo(ctx)
    from common import utils
    sides = [ctx.pick('side%d' % i, [1, -1]) for i in range(ctx.pick('legs', [3, 4]))]
    t = utils.reaction_type(Box(reaction=[Box(side=s) for s in sides]))
    incoming, outgoing = sides.count(1), sides.count(-1)
    # sides: reactants -1, products +1
    if incoming and outgoing:
        ctx.true(bool(t.DECAY) == (outgoing == 1), 'one reactant: a decay')
        ctx.true(bool(t.CREATION) == (incoming == 1 and outgoing > 1), 'one product: a creation')
        ctx.true(bool(t.SCATTERING) == (incoming == outgoing), 'two reactants and two products: a scattering')


# ---------------------------------------------------------------- QCD transition

QUARKS = ['Up quark', 'Down quark', 'Charm quark', 'Strange quark', 'Top quark', 'Bottom quark', 'Gluon']


class Thermal(object):
    """a species in (or out of) equilibrium"""
    decoupling_temperature = 0.
    flavour = None

    def __init__(self, name, mass, dof, fermion, coupled, rho):
        from common import statistics
        self.name, self.mass, self.dof = name, mass, dof
        self.statistics = statistics.FERMION if fermion else statistics.BOSON
        self.in_equilibrium, self.energy_density, self.entropy = coupled, rho, 0.5 * rho
        self.updated = 0
        self.params = None

    def set_params(self, params):
        self.params = params

    def update(self):
        self.updated += 1
        self.T = self.params.T

    def __gt__(self, other):
        return self.name > other.name


@case(env=LOG, budget=200)
def transition(ctx):
    """quarks and gluons are replaced by hadrons; the entropy of the plasma stays"""
    repo(ctx)
    u = plasma(ctx)
    p = u.params
    g = [ctx.pos('g%d' % i) for i in range(4)]
    which = ctx.pick('quark', QUARKS)
    photon = Thermal('Photon', 0., g[0], False, True, ctx.pos('rho0'))
    quark = Thermal(which, 0., g[1], ctx.flag('quark is a fermion'), True, ctx.pos('rho1'))
    other = Thermal('Neutrino', 0., g[2], True, ctx.flag('coupled'), ctx.pos('rho2'))
    hadron = Thermal('Pion', ctx.pos('M'), g[3], ctx.flag('hadron is a fermion'), True, ctx.pos('rho3'))
    ctx.assume(ctx.any(hadron.mass <= 0.999 * p.T, hadron.mass >= 1.001 * p.T))
    u.add_particles([quark, photon, other])
    old, new, rest, late = object(), object(), object(), object()
    u.interactions = [rest, old]
    n = ctx.pick('records', [2, 3])
    aTs = []
    for k in range(n):
        row = {c: ctx.pos('%s%d' % (c, k)) for c in u.data.columns}
        aTs.append(row['aT'])
        u.data.append(row)
    weigh = lambda s: s.dof * (7. / 8. if s.statistics == other.statistics else 1.)
    live = lambda s: s.in_equilibrium and bool(p.T > s.mass)
    before = sum(weigh(s) for s in (quark, photon, other) if live(s))
    after = sum(weigh(s) for s in (hadron, photon, other) if live(s))
    x, a = p.x, p.a
    p.H = ctx.pos('H')
    u.QCD_transition(hadrons=[hadron], quarkic_interactions=[old], hadronic_interactions=[new], secondary_interactions=[late] if ctx.flag('secondary') else None)
    ctx.true(sorted(s.name for s in u.particles) == ['Neutrino', 'Photon', 'Pion'], 'quarks and gluons are gone, hadrons are there, everything else stays')
    ctx.true(hadron.params is p, 'hadrons follow the state of the Universe')
    ctx.true(u.interactions[0] is rest and u.interactions[1] is new and all(i is not old for i in u.interactions), 'reactions of quarks are replaced by those of hadrons')
    ctx.true(len(u.interactions) in (2, 3) and (len(u.interactions) == 2 or u.interactions[2] is late), 'secondary reactions are added')
    ctx.true(len(u.data) == n - 1, 'the last record, of the state before the transition, is dropped')
    ctx.eq(u.data['aT'][-1], aTs[-2], 'earlier records stay')
    ctx.eq(p.aT ** 3 * after, aTs[-2] ** 3 * before, 'the plasma is heated: degrees of freedom times (aT)^3 is conserved')
    ctx.eq(p.x, x, 'expansion does not jump')
    ctx.eq(p.a, a, 'expansion does not jump')
    ctx.eq(p.T * p.a, p.aT, 'temperature is aT over a')
    ctx.eq(p.rho, sum(s.energy_density for s in (hadron, photon, other)), 'total energy density is the sum over the species')
    for s in (hadron, photon, other):
        ctx.true(s.updated >= 1, 'species follow the heating')
        ctx.eq(s.T, p.T, 'species follow the heating')


@case(env=LOG)
def degrees(ctx):
    """effective number of relativistic degrees of freedom in equilibrium"""
    repo(ctx)
    from common import Params
    from common import statistics
    T = ctx.pos('T')
    parts = []
    want = 0.
    for i in range(3):
        fermion, coupled = ctx.flag('fermion%d' % i), ctx.flag('coupled%d' % i)
        s = Thermal('ABC'[i], ctx.real('M%d' % i, lo=0), ctx.pos('g%d' % i), fermion, coupled, 1.)
        parts.append(s)
        if coupled and bool(s.mass < T):
            want = want + s.dof * (0.875 if fermion else 1.)
    got = Params.entropic_dof_eq(Box(particles=parts, params=Box(T=T)))
    ctx.eq(got, want, 'relativistic species in equilibrium count, fermions with 7/8')
