"""P31: decays of the library's unstable particles."""
from collections import Counter
from .base import Check, repo
from .part import kinds
from .p30 import library, sterile, NU, CH, MEV

CHECK = Check(
    'P31', 'Chains of decays are complete and conserve charge and numbers of particles',
    functions=['library/SM.py: interactions.meson_interactions (and the decays in it), decay_charged_pion, decay_neutral_pion, four_particle_meson_decay, three_particle_meson_decay, lepton_interactions; branching ratios of particles.hadrons',
               'library/NuMSM.py: interactions_decay_products, sterile_hadrons_interactions, sterile_leptons_interactions', 'interactions/__init__.py: CrossGeneratingInteraction, IntegralDeduplicator'],
    bounds='all branching ratios; one to three (thorough: four) mesons created directly, listed in any order, decays of every meson in the library; all kinds of integral; all particles given that occur in the decays',
    outside='decays of taus (the library lists no branching ratios for them), lists of particles that lack a decay product')
case = CHECK.case
MESONS = ['neutral_pion', 'charged_pion', 'charged_kaon', 'kaon_long', 'kaon_short', 'eta', 'charged_rho', 'neutral_rho', 'omega', 'eta_prime', 'phi']


class Zoo(object):
    def __init__(self, ctx, symbolic=True):
        self.mesons = dict(zip(MESONS, library(ctx, *MESONS)))
        self.neutrinos = library(ctx, *NU.values())
        self.leptons = library(ctx, 'electron', 'muon')
        self.photon = library(ctx, 'photon')
        self.ratios = {}
        for p in list(self.mesons.values()) + self.leptons:
            if hasattr(p, 'BR'):
                self.ratios[p.symbol] = dict(p.BR)
                p.BR = {k: ctx.real('BR %s %s' % (p.symbol, k), lo=0, hi=1) for k in p.BR} if symbolic else dict(p.BR)
        self.unstable = [p for p in list(self.mesons.values()) + self.leptons if hasattr(p, 'fast_decay')]


def key_of(reaction, parent):
    """the branching ratio of a decay"""
    letters = Counter(''.join(x.specie.symbol for x in reaction if x.specie is not parent or False))
    return [k for k in parent.BR if Counter(k) == letters]


def split(integral):
    left = [x for x in integral.reaction if x.side == -1]
    right = [x for x in integral.reaction if x.side == 1]
    return left, right


def content(items):
    return tuple(sorted((x.specie.symbol, bool(x.antiparticle)) for x in items))


def conj(ctx, species, items):
    return tuple(sorted((s, not a and not species[s].majorana) for s, a in items))


def verify(ctx, zoo, interactions, roots, parents=None, kind=None):
    """roots: mesons that must decay; kind: (of creations, of decays)"""
    species = {p.symbol: p for p in list(zoo.mesons.values()) + zoo.leptons + zoo.neutrinos + zoo.photon}
    decays, creations = {}, {}
    for it in interactions:
        for I in it.integrals:
            left, right = split(I)
            charge = sum(x.side * x.specie.Q * (-1 if x.antiparticle else 1) for x in I.reaction)
            ctx.true(abs(charge) < 1e-9, 'every reaction conserves charge')
            ctx.true(all(not (x.specie.majorana and x.antiparticle) for x in I.reaction) and not I.reaction[0].antiparticle, 'particles that are their own antiparticles are not told apart')
            if len(left) == 1:
                decays.setdefault(left[0].specie.symbol, []).append((content(right), I))
                if kind:
                    ctx.true(I.kind == kind[1], 'decays are pure losses')
            elif len(right) == 1:
                creations.setdefault((right[0].specie.symbol, I.particle.symbol), []).append((content(left), right[0], I))
                if kind:
                    ctx.true(I.kind == kind[0], 'creations are pure gains')
            elif kind:
                ctx.true(False, 'products of decays do not scatter')
    for p in roots:
        ctx.true(p.symbol in decays, 'a meson decays: ' + p.symbol)
    for symbol, ds in decays.items():
        p = species[symbol]
        ctx.true(max(Counter(d for d, I in ds).values()) == 1, 'every decay is there once')
        used = set()
        lost = {}
        total = 0
        for d, I in ds:
            ctx.true(p.mass > sum(species[s].mass for s, a in d), 'decays are possible')
            keys = [k for k in p.BR if Counter(k) == Counter(''.join(s for s, a in d))]
            ctx.true(len(keys) == 1, 'every decay has a branching ratio')
            used.update(keys)
            total = total + p.BR[keys[0]]
            for s in set(s for s, a in d):
                n = sum(x == s and not a for x, a in d)
                if not p.majorana:
                    n += sum(x == s and not a for x, a in conj(ctx, species, d))
                lost[s] = lost.get(s, 0) + n * p.BR[keys[0]]
            if p.majorana:
                ctx.true(any(e == conj(ctx, species, d) for e, J in ds), 'neutral mesons decay into both signs of charge alike')
        ctx.true(used == set(p.BR), 'every branching ratio belongs to a decay')
        for s, want in lost.items():
            if species[s].symbol == 'γ':
                continue                # always in equilibrium
            got = 0
            for products, parent, I in creations.get((symbol, s), []):
                keys = [k for k in p.BR if Counter(k) == Counter(''.join(x for x, a in products))]
                got = got + sum(x == s and not a for x, a in products) * p.BR[keys[0]]
            ctx.eq(got, want, 'as many products are created as parents decay, times their number in a decay')
            # products that are unstable decay, too
            if hasattr(species[s], 'fast_decay') and species[s] is not zoo.skip:
                ctx.true(s in decays, 'unstable products decay, too: ' + s)
    for (symbol, s) in creations:
        ctx.true(symbol in decays, 'nothing is created by particles that do not decay')


def chain(ctx, n):
    """mesons created directly, in any order"""
    zoo = Zoo(ctx)
    zoo.skip = None
    left = list(MESONS)
    first = []
    for i in range(n):
        name = ctx.pick('meson%d' % i, left)
        left = [m for m in left if m != name]
        first.append(zoo.mesons[name])
    from library.SM import interactions as SMI
    given = list(zoo.mesons.values())
    if ctx.flag('reversed'):
        given = given[::-1]
    made = SMI.meson_interactions(primary_mesons=first, mesons=given, leptons=zoo.leptons, neutrinos=zoo.neutrinos, photon=zoo.photon, muon_tau=[0, 0])
    for it in made:
        it.integrals = [I for I in it.integrals if min(map(len, split(I))) == 1]
    verify(ctx, zoo, made, first)


case('chain_1', args=(1,), weight=2)(chain)
case('chain_2', args=(2,), weight=6, budget=600)(chain)
case('chain_3', args=(3,), weight=8, budget=800, tier='thorough')(chain)


def products(ctx, names, leptons, vacuum):
    """decay products of reactions of a sterile neutrino"""
    zoo = Zoo(ctx)
    from library.NuMSM import interactions as NuI
    N = sterile(ctx, 1500, 3000)
    theta = {f: ctx.real('theta_' + f, lo=1e-8, hi=1) for f in ('electron', 'muon', 'tau')}
    some = [zoo.mesons[n] for n in names]
    own = ctx.flag('muon_dec')
    zoo.skip = zoo.leptons[1] if own else None
    primary = []
    if names:
        primary.append(NuI.sterile_hadrons_interactions(thetas=theta, sterile=N, neutrinos=zoo.neutrinos, leptons=zoo.leptons, mesons=some))
    if leptons:
        primary.append(NuI.sterile_leptons_interactions(thetas=theta, sterile=N, neutrinos=zoo.neutrinos, leptons=zoo.leptons))
    k = kinds()
    kind = ctx.pick('kind', ['Full', 'F_1_vacuum_decay', 'F_f_vacuum_decay'] if vacuum else ['Full'])
    made = NuI.interactions_decay_products(interactions_primary=primary, muon_dec=own, neutrinos=zoo.neutrinos, leptons=zoo.leptons, mesons=list(zoo.mesons.values()) if names else None,
                                           photon=zoo.photon, kind=getattr(k, kind))
    verify(ctx, zoo, made, some, kind=(k.F_1_vacuum_decay, k.F_f_vacuum_decay) if 'vacuum' in kind else (k.F_creation, k.F_decay))
    muons = [I for it in made for I in it.integrals if I.particle.name == 'Muon' and len(split(I)[0]) == 1]
    ctx.true(len(muons) == (0 if own else 1), 'muons decay, unless their decay is given otherwise')
    if names:
        # particles that decay at once are only created and only decay
        for it in primary[0]:
            for I in it.integrals:
                if hasattr(I.particle, 'fast_decay'):
                    ctx.true(I.kind == (k.F_creation if len(split(I)[1]) == 1 else k.F_decay), 'short-lived particles have gains and losses apart')


case('products_pions', args=(('neutral_pion', 'charged_pion'), False, True), weight=2)(products)
case('products_leptons', args=((), True, True), weight=2)(products)
case('products_all', args=(('charged_rho', 'eta', 'neutral_rho', 'phi', 'charged_pion', 'neutral_pion', 'omega', 'eta_prime', 'charged_kaon'), True, False), weight=4)(products)


@case()
def ratios(ctx):
    """branching ratios of every meson"""
    zoo = Zoo(ctx, symbolic=False)
    zoo.skip = None
    from library.SM import interactions as SMI
    for name, p in zoo.mesons.items():
        made = SMI.meson_interactions(primary_mesons=[p], mesons=list(zoo.mesons.values()), leptons=zoo.leptons, neutrinos=zoo.neutrinos, photon=zoo.photon, muon_tau=[0, 0])
        total = 0
        for it in made:
            for I in it.integrals:
                left, right = split(I)
                if len(left) == 1 and I.particle is p:
                    keys = [k for k in p.BR if Counter(k) == Counter(''.join(x.specie.symbol for x in right))]
                    total += p.BR[keys[0]]
        ctx.true(0.9 < total < 1.0005, 'branching ratios of all decays add up to at most one: ' + p.symbol)
        ctx.true(hasattr(p, 'fast_decay') and p.lifetime > 0 and p.dof >= 1, 'mesons are unstable')
