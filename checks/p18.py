"""P18: crossings of an interaction."""
from collections import Counter
from .base import Check, repo
from .part import particle

CHECK = Check(
    'P18', 'An interaction contributes every possible crossing exactly once',
    functions=['interactions/__init__.py: CrossGeneratingInteraction (constructor, reactions_map, permutations, cross_particle, init_integrals), '
               'IntegralDeduplicator, Interaction.initialize'],
    bounds='reactions 2 -> 2, 1 -> 3, 3 -> 1, 1 -> 2, 2 -> 1; distinct, repeated and Majorana species; all masses, charges and particle/antiparticle assignments',
    outside='more than four particles')
case = CHECK.case

#        species on the left, on the right
SHAPES = {
    'ab_cd': ('ab', 'cd'), 'ab_ab': ('ab', 'ab'), 'aa_bb': ('aa', 'bb'), 'aa_aa': ('aa', 'aa'), 'ab_cc': ('ab', 'cc'),
    'aa_ab': ('aa', 'ab'), 'a_bcd': ('a', 'bcd'), 'a_bbb': ('a', 'bbb'), 'bcd_a': ('bcd', 'a'), 'a_bc': ('a', 'bc'), 'a_bb': ('a', 'bb'), 'bc_a': ('bc', 'a'),
    'Mb_cd': ('Mb', 'cd'), 'MM_cc': ('MM', 'cc'), 'M_bcc': ('M', 'bcc'), 'M_bc': ('M', 'bc'), 'a_MM': ('a', 'MM'),
}
HEAVY = ('ab_cd', 'aa_ab', 'bcd_a', 'MM_cc', 'Mb_cd')


class Setup(object):
    pass


def build(ctx, shape, recorder, Ms=(), flags=None, masses=True, **kw):
    repo(ctx)
    from interactions import CrossGeneratingInteraction
    left, right = SHAPES[shape]
    s = Setup()
    s.left, s.names = len(left), left + right
    s.species = {}
    for k, n in enumerate(sorted(set(s.names))):
        p = particle(ctx, 2, name=n, symbol=n, majorana=n == 'M')
        p.mass = ctx.real('mass_' + n, lo=0) if masses else 1.
        s.species[n] = p
    s.anti = [(False if n == 'M' else flags[i] if flags is not None else ctx.flag('anti%d' % i)) for i, n in enumerate(s.names)]
    s.parts = [s.species[n] for n in s.names]
    s.interaction = CrossGeneratingInteraction(
        name='test', particles=(tuple(s.parts[:s.left]), tuple(s.parts[s.left:])),
        antiparticles=(tuple(s.anti[:s.left]), tuple(s.anti[s.left:])), Ms=tuple(Ms), integral_type=recorder, **kw)
    return s


def recorder(ctx):
    """an integral class that remembers what was created"""
    repo(ctx)
    from interactions.boltzmann import BoltzmannIntegral
    made = []

    class Recorder(BoltzmannIntegral):
        def __init__(self, **kwargs):
            made.append(kwargs)
            BoltzmannIntegral.__init__(self, **kwargs)
            self.initialized = 0

        def initialize(self):
            self.initialized += 1
    return Recorder, made


def side_of(s, i):
    return -1 if i < s.left else 1


def crossed(s, i, side):
    """particle i of the interaction as it takes part in a crossing on the given side"""
    cross = side != side_of(s, i)
    anti = s.anti[i]
    if cross:
        anti = False if s.parts[i].majorana else not anti
    return cross, anti


def expected(s):
    """all ways to choose the particle whose distribution changes and its partners: (first, others on its side, rest)"""
    n = len(s.parts)
    for first in range(n):
        if crossed(s, first, -1)[1]:
            continue
        rest = [i for i in range(n) if i != first]
        for mask in range(2 ** len(rest) - 1):
            left = [i for k, i in enumerate(rest) if mask & (1 << k)]
            yield first, frozenset(left), frozenset(i for i in rest if i not in left)


def sides(reaction):
    left = [item for item in reaction if item.side == -1]
    right = [item for item in reaction if item.side == 1]
    return left, right


def crossings(ctx, shape):
    Recorder, made = recorder(ctx)
    s = build(ctx, shape, Recorder, washout_temperature=7.)
    n = len(s.parts)
    charge = [ctx.real('Q_' + x) for x in s.names]
    for i in range(n):
        for j in range(i):
            if s.names[i] == s.names[j]:
                charge[i] = charge[j]
    charge = [0. if s.names[i] == 'M' else q for i, q in enumerate(charge)]
    q = lambda i, anti: -charge[i] if anti else charge[i]
    ctx.assume(sum(side_of(s, i) * q(i, s.anti[i]) for i in range(n)) == 0)
    seen = Counter()
    for kw in made:
        reaction = kw['reaction']
        left, right = sides(reaction)
        ctx.true(len(reaction) == n and list(reaction) == left + right, 'a crossing has all particles, incoming ones first')
        ctx.true(sorted(item.index for item in reaction) == list(range(n)), 'every particle of the interaction takes part once')
        ctx.true(len(left) > 0 and len(right) > 0, 'particles enter and leave a crossing')
        for item in reaction:
            ctx.true(item.specie is s.parts[item.index], 'species are those of the interaction')
            cross, anti = crossed(s, item.index, item.side)
            ctx.true(bool(item.crossed) == cross, 'particles that changed sides are marked as crossed')
            ctx.true(bool(item.antiparticle) == anti, 'crossing turns particles into antiparticles and back (Majorana particles excepted)')
        ctx.true(reaction[0].specie is kw['particle'] and not reaction[0].antiparticle, 'the first particle is the one that evolves')
        ctx.eq(sum(i.side * q(i.index, i.antiparticle) for i in reaction), 0., 'crossings conserve every charge that the interaction conserves')
        key = (reaction[0].index, frozenset(i.index for i in left[1:]), frozenset(i.index for i in right))
        seen[key] += 1
        ctx.true(seen[key] == 1, 'no crossing is generated twice')
        ctx.true(kw['washout_temperature'] == 7., 'washout temperature is passed on')
    want = list(expected(s))
    ctx.true(set(seen) <= set(want), 'only crossings are generated')
    for key in want:
        first, left, right = key
        lone = first if not left else None if len(right) > 1 else list(right)[0]
        if lone is None:
            ctx.true(key in seen, 'every crossing with several particles on both sides is generated')
            continue
        others = sum(s.parts[i].mass for i in range(n) if i != lone)
        if key in seen:
            ctx.ge(s.parts[lone].mass, others, 'a particle only decays into lighter ones')
        else:
            ctx.le(s.parts[lone].mass, others, 'every kinematically possible decay and creation is generated')
    # merged by species
    classes = Counter()
    for kw in made:
        left, right = sides(kw['reaction'])
        classes[(kw['particle'].name, tuple(sorted(i.specie.name for i in left)), tuple(sorted(i.specie.name for i in right)))] += 1
    got = Counter()
    for integral in s.interaction.integrals:
        left, right = sides(integral.reaction)
        got[(integral.particle.name, tuple(sorted(i.specie.name for i in left)), tuple(sorted(i.specie.name for i in right)))] += 1
    ctx.true(set(got) == set(classes) and all(v == 1 for v in got.values()), 'there is one integral for every particle and set of species')
    s.interaction.initialize()
    ctx.true(all(i.initialized == 1 for i in s.interaction.integrals), 'every integral is initialised once')


for name in SHAPES:
    CHECK.case('crossings_' + name, args=(name,), weight=5 if name in HEAVY else 1, budget=300)(crossings)


@case()
def kinds(ctx):
    """the kind of the integrals"""
    repo(ctx)
    from .part import kinds as K
    K = K()
    Recorder, made = recorder(ctx)
    names = ['Full', 'F_1', 'F_f', 'F_creation', 'F_decay', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay']
    k = ctx.pick('kind', list(range(len(names) + 2)))
    flags = [False] * 4
    if k < len(names):
        kind = getattr(K, names[k])
        build(ctx, 'ab_cd', Recorder, flags=flags, masses=False, kind=kind)
        ctx.true(all(kw['kind'] == kind for kw in made), 'integrals are of the kind requested')
    elif k == len(names):
        build(ctx, 'ab_cd', Recorder, flags=flags, masses=False, kind=None)
        ctx.true(all(kw['kind'] == K.Full for kw in made), 'full integrals by default')
    else:
        try:
            build(ctx, 'ab_cd', Recorder, flags=flags, masses=False, kind='unknown')
        except Exception:
            return
        ctx.true(False, 'unknown kinds are refused')
