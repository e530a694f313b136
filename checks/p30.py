"""P30: matrix elements of the library's weak reactions against the Fermi theory."""
import itertools
from collections import Counter
from .base import Check, repo
from .part import particle
from .p19 import symmetrised, amplitude

CHECK = Check(
    'P30', 'Reactions of the library have the rates of the weak interactions',
    functions=['library/SM.py: interactions (neutrino_scattering, neutrinos_to_leptons, leptons_CC, neutrino_interactions, lepton_interactions, decay_charged_pion, decay_neutral_pion)',
               'library/NuMSM.py: interactions (sterile_active_scattering, sterile_active_to_leptons_NC/CC, sterile_leptons_interactions, sterile_quark_*, sterile_hadrons_interactions, *_meson)',
               'interactions/__init__.py: CrossGeneratingInteraction, IntegralDeduplicator', 'common/kinematics.py: CollisionMultiplier4p, CollisionMultiplier3p'],
    bounds='all mixing angles (zero or not), masses of the sterile neutrino, decay constants and momenta on the mass shell; one to three flavours of neutrinos and charged leptons, '
           'pairs of quarks, all mesons; Dirac sterile neutrinos',
    outside='Majorana sterile neutrinos (their interactions are documented as unsuitable), constant matrix elements of meson decays (unobservable: products are scaled to branching ratios, P27), reactions of baryons; '
            'scatterings of muons and taus followed for neutrinos of the plasma (left out by the library)')
case = CHECK.case
MEV = 1e-3
LEPTONS = {'Electron': 'electron', 'Muon': 'muon', 'Tau': 'tau'}


def library(ctx, *names):
    """particles from the library, by attribute name"""
    repo(ctx)
    from library.SM import particles as SM
    out = []
    for n in names:
        where = [w for w in (SM.leptons, SM.quarks, SM.hadrons, SM) if hasattr(w, n)][0]
        p = particle(ctx, 2, **getattr(where, n))
        out.append(p)
    return out


def sterile(ctx, lo, hi):
    repo(ctx)
    from library.NuMSM import particles as NuP
    m = ctx.real('M', lo=lo * MEV, hi=hi * MEV)
    p = particle(ctx, 2, **NuP.dirac_sterile_neutrino(100 * MEV))
    p.mass = m
    return p


class Theory(object):
    """currents of the Fermi theory; couplings in units of 2 sqrt(2) G_F"""

    def __init__(self, theta=None, neutral=True, charged=True, same=True):
        """theta: mixing angles by flavour; neutral: currents that do not change the charge; charged: ones that do; same: also of one and the same flavour"""
        from common import CONST
        self.s = CONST.sin_theta_w_2
        self.theta, self.neutral, self.charged, self.same = theta, neutral, charged, same

    def couplings(self, psi, bar):
        """left- and right-handed coupling of two incoming and two outgoing fermions: C_L, C_R"""
        everyone = psi + bar
        n = [i for i, p in enumerate(everyone) if is_sterile(p)]
        if self.theta is None:
            return self.active([flavour_of(p) for p in psi], [flavour_of(p) for p in bar]) if not n else (0, 0)
        if len(n) != 1:
            return 0, 0
        L, R = 0, 0
        for flavour, t in self.theta.items():
            kinds = [('nu', flavour) if i in n else flavour_of(p) for i, p in enumerate(everyone)]
            l, r = self.active(kinds[:2], kinds[2:])
            if l or r:
                L, R = L + t * l, R + t * r
        return L, R

    def active(self, psi, bar):
        nu = lambda x: x[0] == 'nu'
        # order: neutrino first
        psi, bar = sorted(psi, key=lambda x: not nu(x)), sorted(bar, key=lambda x: not nu(x))
        count = sum(map(nu, psi)), sum(map(nu, bar))
        if count == (2, 2):
            if sorted(psi) != sorted(bar) or not self.neutral:
                return 0, 0
            return (1. if psi[0] == psi[1] else 0.5), 0
        if count == (1, 1):
            (a, f), (b, g) = psi, bar
            L = R = 0
            if self.neutral and a == b and f == g:
                T, Q = {'l': (-0.5, -1), 'u': (0.5, 2 / 3.), 'd': (-0.5, -1 / 3.)}[f[0]]
                L, R = T - Q * self.s, -Q * self.s
            if f[0] == g[0] == 'l' and f[1] == b[1] and g[1] == a[1]:
                if a != b and self.charged or a == b and self.neutral and self.same:
                    L = L + 1
            return L, R
        if count in ((1, 0), (0, 1)) and self.charged:
            one, other = (psi, bar) if count == (1, 0) else (bar, psi)
            # neutrino + down quark <-> lepton + up quark
            q = [x for x in other if x[0] == 'u']
            l = [x for x in other if x[0] == 'l']
            if one[1][0] == 'd' and q and l and l[0][1] == one[0][1]:
                from library.SM import particles as SM
                return SM.quarks.CKM[(q[0][1], one[1][1])], 0
        return 0, 0

    def squared(self, psi, bar, dot):
        """|M|^2 / (32 G_F^2), summed over all spins and colours; legs: (particle, sign, label)"""
        L, R = self.couplings([x[0] for x in psi], [x[0] for x in bar])
        if not (ctx_nonzero(L) or ctx_nonzero(R)):
            return None
        colours = 3 if any(hasattr(x[0], 'family') for x in psi + bar) else 1
        (a, sa, la), (b, sb, lb) = psi
        (c, sc, lc), (d, sd, ld) = bar
        out = 4 * colours * L ** 2 * dot(la, lb) * dot(lc, ld)
        if ctx_nonzero(R):
            neutrino = lambda p: is_sterile(p) or flavour_of(p)[0] == 'nu'
            if neutrino(b):
                (a, sa, la), (b, sb, lb) = psi[::-1]
            if neutrino(d):
                (c, sc, lc), (d, sd, ld) = bar[::-1]
            out = out + 4 * colours * (R ** 2 * dot(la, ld) * dot(lc, lb) - L * R * b.mass * d.mass * sb * sd * dot(la, lc))
        return out


def ctx_nonzero(x):
    return not (isinstance(x, (int, float)) and x == 0)


def is_sterile(p):
    return 'Sterile' in p.name


def flavour_of(p):
    if hasattr(p, 'family'):
        return ('u' if p.Q > 0 else 'd', p.family)
    if p.name in LEPTONS:
        return ('l', p.flavour)
    return ('nu', getattr(p, 'flavour', None))


def on_shell(ctx, lab, mass, left):
    """scalar products of four momenta as functions of two invariants"""
    S = [ctx.real('S12'), ctx.real('S13')]
    m2 = [mass[l[1]] ** 2 for l in lab]
    S.append(sum(m2) - S[0] - S[1])
    where = {l: i for i, l in enumerate(lab)}

    def dot(a, b):
        i, j = sorted((where[a], where[b]))
        inv = S[j - 1] if i == 0 else S[{(2, 3): 0, (1, 3): 1, (1, 2): 2}[(i, j)]]
        value = (inv - m2[i] - m2[j]) / 2
        return value if (i < left) == (j < left) else -value
    return dot


def labels(left, right):
    """the first particle, then others by side and name: (side, name, occurrence)"""
    lab, count = [('f', left[0], 0)], Counter()
    for side, names in (('i', left[1:]), ('o', right)):
        for n in sorted(names):
            lab.append((side, n, count[(side, n)]))
            count[(side, n)] += 1
    return lab


def mult(integral):
    from common import kinematics
    return (kinematics.CollisionMultiplier4p if len(integral.reaction) == 4 else kinematics.CollisionMultiplier3p)(integral)


def collect(interactions):
    """integrals by (species, other incoming ones, outgoing ones)"""
    out = {}
    for it in interactions:
        for I in it.integrals:
            left = [x.specie.name for x in I.reaction if x.side == -1]
            right = [x.specie.name for x in I.reaction if x.side == 1]
            out.setdefault((left[0], tuple(sorted(left[1:])), tuple(sorted(right))), []).append(I)
    return out


def value(I, lab, dot, mass, unit):
    """what the collision term contains, symmetrised over particles that look alike"""
    total = 0
    count, ls = Counter(), [('f', I.reaction[0].specie.name, 0)]
    for x in I.reaction[1:]:
        side = 'i' if x.side == -1 else 'o'
        ls.append((side, x.specie.name, count[(side, x.specie.name)]))
        count[(side, x.specie.name)] += 1
    for M in I.Ms:
        total = total + symmetrised(ls, lambda p: amplitude(dot, mass, M.order, M.K1 / unit, M.K2 / unit, M.K / unit, p))
    return total * mult(I)


def physical(theory, species, key, dot_of):
    """sum over particles and antiparticles of squared amplitudes, with 1/n! for identical ones"""
    first, others, right = key
    lab = labels((first,) + others, right)
    names = [l[1] for l in lab]
    incoming = [True] * (1 + len(others)) + [False] * len(right)
    total, seen = None, set()
    for flags in itertools.product(*[(False,) if k == 0 else (False, True) for k in range(4)]):
        content = (tuple(sorted((n, f) for n, f, i in list(zip(names, flags, incoming))[1:] if i)), tuple(sorted((n, f) for n, f, i in zip(names, flags, incoming) if not i)))
        if content in seen:
            continue
        seen.add(content)
        psi, bar = [], []
        for l, anti, inc in zip(lab, flags, incoming):
            (psi if inc != anti else bar).append((species[l[1]], -1 if anti else 1, l))
        if len(psi) != 2:
            continue
        if theory.couplings([x[0] for x in psi], [x[0] for x in bar]) == (0, 0):
            continue
        S = 1
        for side in content:
            for n in Counter(side).values():
                S *= {1: 1, 2: 2, 3: 6}[n]
        dot = dot_of(lab)

        def swapped(ls):
            to = dict(zip(lab, ls))
            return theory.squared([(p, s, to[l]) for p, s, l in psi], [(p, s, to[l]) for p, s, l in bar], dot)
        v = symmetrised(lab, swapped) / S
        total = v if total is None else total + v
    return total


def possible(species, key):
    """kinematics: decays need a heavier particle"""
    first, others, right = key
    m = lambda ns: sum(species[n].mass for n in ns)
    if not others:
        return species[first].mass > m(right)
    if len(right) == 1:
        return species[right[0]].mass > m((first,) + others)
    return True


def weak(ctx, theory, ps, interactions, omitted=lambda key: False):
    from common import CONST
    unit = 32 * CONST.G_F ** 2
    species = {p.name: p for p in ps}
    mass = {n: p.mass for n, p in species.items()}
    got = collect(interactions)
    names = sorted(species)
    keys = set(got)
    for first in names:
        for n in (0, 1, 2):
            for others in itertools.combinations_with_replacement(names, n):
                for right in itertools.combinations_with_replacement(names, 3 - n):
                    keys.add((first, others, right))
    for key in sorted(keys):
        dot_of = lambda lab: on_shell(ctx, lab, mass, 1 + len(key[1]))
        want = physical(theory, species, key, dot_of)
        text = '%s %s <-> %s' % (key[0], ' '.join(key[1]), ' '.join(key[2]))
        if key not in got:
            if want is not None and not omitted(key) and possible(species, key):
                ctx.eq(want, 0., 'every reaction that is possible is there: ' + text)
            continue
        if want is None:
            ctx.true(False, 'only reactions of the weak interactions are there: ' + text)
            continue
        ctx.true(bool(possible(species, key)), 'only possible reactions are there: ' + text)
        lab = labels((key[0],) + key[1], key[2])
        value_ = sum(value(I, lab, dot_of(lab), mass, unit) for I in got[key])
        ctx.eq(value_, want, 'the rate is that of the weak interactions', loose=True)


NU = {'e': 'neutrino_e', 'm': 'neutrino_mu', 't': 'neutrino_tau'}
CH = {'e': 'electron', 'm': 'muon', 't': 'tau'}


def plasma(ctx, nus, leptons):
    """active neutrinos and charged leptons"""
    ns, ls = library(ctx, *[NU[x] for x in nus]), library(ctx, *[CH[x] for x in leptons])
    from library.SM import interactions as SMI
    weak(ctx, Theory(charged=False), ns + ls, SMI.neutrino_interactions(leptons=ls, neutrinos=ns))


for nus, leptons in (('e', ''), ('e', 'e'), ('m', 'e'), ('em', 'e'), ('emt', 'e'), ('em', 'em')):
    case('plasma_%s_%s' % (nus, leptons or '0'), args=(nus, leptons), tier='quick' if len(nus) < 3 else 'quick')(plasma)


def flavours(ctx, nus, leptons):
    """charged currents change flavours"""
    ns, ls = library(ctx, *[NU[x] for x in nus]), library(ctx, *[CH[x] for x in leptons])
    from library.SM import interactions as SMI
    weak(ctx, Theory(neutral=False), ns + ls, SMI.lepton_interactions(leptons=ls, neutrinos=ns))


for nus, leptons in (('em', 'em'), ('emt', 'em'), ('emt', 'emt'), ('e', 'em')):
    case('flavours_%s_%s' % (nus, leptons), args=(nus, leptons))(flavours)


def mixing(ctx, flavours, zero=()):
    return {f: 0. if f in zero else ctx.real('theta_' + f, lo=1e-8, hi=1) for f in flavours}


def sterile_leptons(ctx, nus, leptons, zero=''):
    lo, hi = (5, 3000)
    N = sterile(ctx, lo, hi)
    ns, ls = library(ctx, *[NU[x] for x in nus]), library(ctx, *[CH[x] for x in leptons])
    long = {'e': 'electron', 'm': 'muon', 't': 'tau'}
    theta = mixing(ctx, long.values(), [long[x] for x in zero])
    from library.NuMSM import interactions as NuI
    made = NuI.sterile_leptons_interactions(thetas=theta, sterile=N, neutrinos=ns, leptons=ls)
    heavy = {'Muon', 'Tau'}

    def omitted(key):
        first, others, right = key
        left = (first,) + others
        charged = [n for n in left + right if n in LEPTONS]
        if len(charged) == 2 and charged[0] == charged[1]:
            # scatterings of heavy leptons are followed for the sterile neutrino only
            return charged[0] in heavy and first != N.name and sum(n == charged[0] for n in left) == 1
        if len(charged) == 2:
            # charged currents: the lepton that does not mix is created or destroyed along with the sterile neutrino
            nu = [n for n in left + right if 'neutrino' in n and n != N.name]
            flavour = next(p.flavour for p in ns if p.name == nu[0])
            other = next(l.name for l in ls if l.flavour == flavour)
            return (N.name in left) == (other in left)
        return False
    weak(ctx, Theory({f: t for f, t in theta.items() if ctx_nonzero(t)}), [N] + ns + ls, made, omitted)


for nus, leptons, zero in (('e', '', 'mt'), ('em', '', 't'), ('e', 'e', 'mt'), ('m', 'e', 'et'), ('em', 'em', 'mt'), ('em', 'em', 'et'), ('em', 'em', 't')):
    case('sterile_%s_%s_%s' % (nus, leptons or '0', zero), args=(nus, leptons, zero), weight=2)(sterile_leptons)
case('sterile_emt_emt_', args=('emt', 'emt', ''), weight=6, budget=600)(sterile_leptons)


def quarks(ctx, up, down, nus, leptons):
    N = sterile(ctx, 5, 6000)
    ns, ls = library(ctx, *[NU[x] for x in nus]), library(ctx, *[CH[x] for x in leptons])
    qs = library(ctx, *(up + down))
    theta = mixing(ctx, ('electron', 'muon', 'tau'))
    from library.NuMSM import interactions as NuI
    weak(ctx, Theory(theta, same=False), [N] + ns + ls + qs, [i for i in NuI.sterile_quark_interactions(thetas=theta, sterile=N, neutrinos=ns, leptons=ls, quarks=qs)],
         lambda key: not any(n.endswith('quark') for n in (key[0],) + key[1] + key[2]))


for up, down in ((('up',), ('down',)), (('charm',), ('strange',)), (('up',), ('strange', 'bottom')), (('up', 'charm'), ('down',))):
    case('quarks_' + '_'.join(up + down), args=(up, down, 'em', 'e'), weight=3, budget=300)(quarks)


def two_body(ctx, ps, interactions, squared):
    """squared(parent, names of products): sum over spins of |M|^2, or None"""
    species = {p.name: p for p in ps}
    got = collect(interactions)
    keys = set(got)
    for first in species:
        for x in species:
            for y in species:
                keys.add((first, (), tuple(sorted((x, y)))))
                keys.add((first, (x,), (y,)))
    for key in sorted(keys):
        first, others, right = key
        names = (first,) + others + right
        if first == 'Photon':
            continue                # always in equilibrium
        parent = first if not others else right[0]
        rest = right if not others else (first,) + others
        M2 = squared(parent, tuple(sorted(rest)))
        text = '%s %s <-> %s' % (first, ' '.join(others), ' '.join(right))
        if M2 is None:
            ctx.true(key not in got, 'only reactions of the weak interactions are there: ' + text)
            continue
        if not species[parent].mass > sum(species[n].mass for n in rest):
            ctx.true(key not in got, 'only possible reactions are there: ' + text)
            continue
        # ways to choose particles and antiparticles, of which the first is a particle
        ways, seen = 0, set()
        for flags in itertools.product(*[(False,) if k == 0 or species[n].majorana else (False, True) for k, n in enumerate(names)]):
            content = (tuple(sorted(zip(names[1:1 + len(others)], flags[1:1 + len(others)]))), tuple(sorted(zip(names[1 + len(others):], flags[1 + len(others):]))))
            if content in seen:
                continue
            seen.add(content)
            side = [-1] * (1 + len(others)) + [1] * len(right)
            fermions = ('Electron', 'Muon', 'Tau')
            charge = sum(s * species[n].Q * (-1 if f else 1) for s, n, f in zip(side, names, flags))
            number = sum(s * (-1 if f else 1) for s, n, f in zip(side, names, flags) if n in fermions or 'neutrino' in n)
            if charge or number:
                continue
            S = 2 if len(right) == 2 and len(set(zip(right, flags[1:]))) == 1 else 1
            ways += 1. / S
        if key not in got:
            ctx.true(False, 'every reaction that is possible is there: ' + text)
            continue
        value_ = sum(mult(I) * sum(M.K for M in I.Ms) for I in got[key])
        ctx.eq(value_, M2 * ways, 'two-body decays have their rate', loose=True)


def mesons(ctx, names, nus, leptons, lo=5):
    N = sterile(ctx, lo, 3000)
    ns, ls = library(ctx, *[NU[x] for x in nus]), library(ctx, *[CH[x] for x in leptons])
    ms = library(ctx, *names)
    from common import CONST
    from library.SM import particles as SM
    from library.NuMSM import interactions as NuI
    theta = mixing(ctx, ('electron', 'muon', 'tau'), ('tau',) if ctx.flag('one') else ())
    for m in ms:
        m.decay_constant = ctx.real('f_' + m.name, lo=0.05, hi=0.3)
    made = NuI.sterile_hadrons_interactions(thetas=theta, sterile=N, neutrinos=ns, leptons=ls, mesons=ms)
    species = {p.name: p for p in [N] + ns + ls + ms}
    s, G, M = CONST.sin_theta_w_2, CONST.G_F, N.mass
    kappa = {'Neutral rho': 1 - 2 * s, 'Omega': 4 * s / 3, 'Phi': 4 * s / 3 - 1}

    def squared(parent, products):
        everyone = (parent,) + products
        m = [species[n] for n in everyone if n in [x.name for x in ms]]
        l = [species[n] for n in everyone if n in [x.name for x in ns + ls]]
        if len(m) != 1 or len(l) != 1 or N.name not in everyone:
            return None
        m, l = m[0], l[0]
        if (m.Q == 0) != (l.Q == 0) or not ctx_nonzero(theta[l.flavour]):
            return None
        x, y = (m.mass / M) ** 2, (l.mass / M) ** 2
        V = SM.quarks.CKM[(1, 2)] if 'kaon' in m.name else SM.quarks.CKM[(1, 1)]
        c = (G * theta[l.flavour] * m.decay_constant) ** 2 * M ** 4
        if m.type == 'scalar':
            v = c * (1 - x) if m.Q == 0 else 2 * c * V ** 2 * ((1 - y) ** 2 - x * (1 + y))
        else:
            v = c * kappa[m.name] ** 2 * (1 + 2 * x) * (1 - x) if m.Q == 0 else 2 * c * V ** 2 * ((1 - y) ** 2 + x * (1 + y) - 2 * x ** 2)
        return -v if parent == m.name else v
    two_body(ctx, [N] + ns + ls + ms, made, squared)


for names, nus, leptons in ((('neutral_pion',), 'em', 'e'), (('charged_pion',), 'e', 'em'), (('charged_kaon',), '', 'em'), (('eta', 'eta_prime'), 'e', ''),
                            (('neutral_rho', 'omega', 'phi'), 'e', ''), (('charged_rho',), '', 'em'), (('charged_pion', 'charged_rho', 'neutral_pion'), 'emt', 'emt')):
    case('mesons_' + '_'.join(names), args=(names, nus, leptons), weight=2, budget=300)(mesons)


@case()
def pions(ctx):
    """decays of pions"""
    ps = library(ctx, 'charged_pion', 'muon', 'neutrino_mu')
    pi, mu, nu = ps
    from common import CONST
    import math
    from library.SM import particles as SM, interactions as SMI
    pi.decay_constant = ctx.real('f', lo=0.05, hi=0.3)
    mu.mass = ctx.real('m_mu', lo=0.001, hi=0.13)
    V = SM.quarks.CKM[(1, 1)]
    squared = lambda parent, products: 2 * (CONST.G_F * pi.decay_constant * V * mu.mass) ** 2 * (pi.mass ** 2 - mu.mass ** 2) if parent == pi.name and products == tuple(sorted((mu.name, nu.name))) else None
    two_body(ctx, ps, SMI.decay_charged_pion(meson=pi, lepton=mu, neutrino=nu), squared)
    p0, photon = library(ctx, 'neutral_pion', 'photon')
    p0.decay_constant = ctx.real('f0', lo=0.05, hi=0.3)
    squared = lambda parent, products: CONST.alpha ** 2 * p0.mass ** 4 / (math.pi * p0.decay_constant) ** 2 if parent == p0.name and products == (photon.name,) * 2 else None
    two_body(ctx, [p0, photon], SMI.decay_neutral_pion(meson=p0, photon=photon), squared)


@case()
def units(ctx):
    """constants of the weak interactions"""
    repo(ctx)
    from common import CONST, UNITS
    from library.SM import WeakM
    from library.NuMSM import SterileM
    x, y, t = ctx.pos('K1'), ctx.pos('K2'), ctx.pos('theta')
    unit = 32 * (1.166379e-5 / UNITS.GeV ** 2) ** 2
    for M, f in ((WeakM(K1=x, K2=y), 1), (SterileM(theta=t, K1=x, K2=y), t ** 2)):
        ctx.close(M.K1 / unit, x * f, 'matrix elements are multiples of 32 G_F^2', 2e-3)
        ctx.close(M.K2 / unit, y * f, 'matrix elements are multiples of 32 G_F^2', 2e-3)
    ctx.true(abs(CONST.sin_theta_w_2 - 0.2312) < 1e-3 and CONST.g_R == CONST.sin_theta_w_2 and abs(CONST.alpha * 137.036 - 1) < 2e-3, 'weak mixing angle and fine-structure constant')
