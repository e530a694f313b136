"""P03: gain and loss factors of the collision integrals, for every kind of integral."""
from .base import Check, four, three
from .kin import KINDS, species4, species3, integrand4, integrand3

CHECK = Check(
    'P03', 'Collision terms have quantum gain and loss factors and vanish in equilibrium',
    functions=['four_particle/cpp/integral.cpp: integration, integrand_full, F_A, F_B, F_f, F_1, F_decay, F_creation, *_vacuum_decay',
               'three_particle/cpp/integral.cpp: integration_3, integrand_full, F_A, F_B, F_f, F_1, F_decay, F_creation, *_vacuum_decay'],
    bounds='every occupation number >= 0, both statistics for every particle, all side assignments with the first particle on the left, all '
           'eight kinds of integral; equilibrium: every temperature; four particles: every set of energies conserving energy, massless except for a decaying or created particle of any mass; three particles: one set of momenta per assignment of sides',
    outside='rounding; the momenta at which the occupation numbers are taken are fixed in the first group of cases')
case = CHECK.case

# momenta, masses for which the fourth momentum is a whole number
KIN4 = {
    (-1, -1, 1, 1): ((2., 3., 4.), (0., 0., 0., 0.), 1.),
    (-1, 1, -1, 1): ((2., 4., 3.), (0., 0., 0., 0.), 1.),
    (-1, 1, 1, -1): ((6., 4., 3.), (0., 0., 0., 0.), 1.),
    (-1, 1, 1, 1): ((5., 3., 4.), (12., 0., 0., 0.), 6.),
    (-1, -1, -1, 1): ((3., 4., 6.), (0., 0., 0., 12.), 5.),
}
KIN3 = {
    (-1, 1, 1): ((5., 8.), (12., 0., 0.), 5.),
    (-1, -1, 1): ((5., 8.), (0., 0., 12.), 5.),
    (-1, 1, -1): ((5., 5.), (0., 12., 0.), 8.),
}


def expected(kind, sides, etas, f, last):
    """the statistical factor of this kind of integral; f[0] belongs to the particle the integral is for"""
    def gain(skip0):
        r = 1.
        for i in range(len(f)):
            if i == 0 and skip0:
                continue
            r = r * (f[i] if sides[i] == 1 else 1. - etas[i] * f[i])
        return r

    def loss(skip0):
        r = 1.
        for i in range(len(f)):
            if i == 0 and skip0:
                continue
            r = r * (f[i] if sides[i] == -1 else 1. - etas[i] * f[i])
        return r
    if kind == 'Full':
        return gain(False) - loss(False)
    if kind == 'F_1':
        return gain(True)
    if kind == 'F_f':
        return -loss(True) - etas[0] * gain(True)
    if kind == 'F_creation':
        return gain(False)
    if kind == 'F_decay':
        return -loss(True)
    if kind == 'F_1_vacuum_decay':
        return f[last]
    if kind == 'F_f_vacuum_decay':
        return -1.
    return f[last] - f[0]


def occupation(ctx, i, eta):
    return ctx.real('f%d' % i, lo=0, hi=1 if eta == 1 else None)


def factors4(ctx, sides):
    m = four(ctx)
    (p0, p1, p2), masses, p3 = KIN4[sides]
    etas = [1 if ctx.flag('fermion%d' % i) else -1 for i in range(4)]
    f = [occupation(ctx, i, etas[i]) for i in range(4)]
    K = ctx.pos('K')
    sp = [species4(m, etas[i], masses[i], [0., p], [0.5, f[i]], 0, 1.) for i, p in enumerate((p0, p1, p2, p3))]
    reaction = [m.reaction_t(specie=s, side=sd) for s, sd in zip(sp, sides)]
    Ms = [m.M_t(order=[0, 1, 2, 3], K1=0., K2=0., K=K)]
    # relativistic phase space factor of the integrated particles
    w = 1.
    for i, p in ((1, p1), (2, p2)):
        w *= p / (p * p + masses[i] ** 2) ** 0.5 if masses[i] else 1.
    for kind in KINDS:
        got, rec = integrand4(m, p0, p1, p2, reaction, Ms, kind, bounds=(0., 20., 0., 20., 20.))
        ctx.eq(got, w * K * expected(kind, sides, etas, f, 3), '%s factor of the four-particle integral' % kind,
               scale=lambda: K * (1 + f[0]) * (1 + f[1]) * (1 + f[2]) * (1 + f[3]))


def factors3(ctx, sides):
    m = three(ctx)
    (p0, p1), masses, p2 = KIN3[sides]
    etas = [1 if ctx.flag('fermion%d' % i) else -1 for i in range(3)]
    f = [occupation(ctx, i, etas[i]) for i in range(3)]
    sp = [species3(m, etas[i], masses[i], [0., p], [0.5, f[i]], 0, 1.) for i, p in enumerate((p0, p1, p2))]
    reaction = [m.reaction_t3(specie=s, side=sd) for s, sd in zip(sp, sides)]
    E0 = (p0 * p0 + masses[0] ** 2) ** .5
    w = 2. / p0 / E0
    if masses[1]:
        w *= p1 / (p1 * p1 + masses[1] ** 2) ** .5
    for kind in KINDS:
        got, rec = integrand3(m, p0, p1, reaction, kind, bounds=(0., 20., 20.))
        ctx.true(len(rec) == 1, 'the three-particle integral is evaluated')
        ctx.eq(got, w * expected(kind, sides, etas, f, 2), '%s factor of the three-particle integral' % kind,
               scale=lambda: (1 + f[0]) * (1 + f[1]) * (1 + f[2]))


for n, s in enumerate(KIN4):
    case('factors4_%d' % n, args=(s,))(factors4)
for n, s in enumerate(KIN3):
    case('factors3_%d' % n, args=(s,))(factors3)


# energies over temperature as sums of non-negative parts, so that energy is conserved for every choice of the parts
# (any a + b = c + d with positive terms can be written this way)
PARTS4 = {
    (-1, -1, 1, 1): ('uv', 'wz', 'uw', 'vz'),
    (-1, 1, -1, 1): ('uv', 'uw', 'wz', 'vz'),
    (-1, 1, 1, -1): ('uv', 'uw', 'vz', 'wz'),
    (-1, 1, 1, 1): ('uvw', 'u', 'v', 'w'),
    (-1, -1, -1, 1): ('u', 'v', 'w', 'uvw'),
}

def equilibrium(ctx, parts, massive):
    import numpy
    T = ctx.pos('T')
    part = {c: ctx.pos(c) for c in sorted(set(''.join(parts)))}
    E = [T * sum(part[c] for c in w) for w in parts]
    ms, p = [], []
    for i, e in enumerate(E):
        if i == massive:
            k = ctx.pos('p%d' % i)
            ctx.assume(k < e)
            p.append(k)
            ms.append(numpy.sqrt(e * e - k * k))
        else:
            p.append(e)
            ms.append(0.)
    return T, ms, p


def balance4(ctx, sides, massive):
    """species in equilibrium at one temperature: gain and loss cancel at all momenta"""
    m = four(ctx)
    T, ms, p = equilibrium(ctx, PARTS4[sides], massive)
    etas = [1 if ctx.flag('fermion%d' % i) else -1 for i in range(4)]
    sp = [species4(m, etas[i], ms[i], [0., 1.], [0.5, 0.25], 1, T) for i in range(4)]
    reaction = [m.reaction_t(specie=s, side=sd) for s, sd in zip(sp, sides)]
    Ms = [m.M_t(order=[0, 1, 2, 3], K1=0., K2=0., K=1.)]
    got, rec = integrand4(m, p[0], p[1], p[2], reaction, Ms, 'Full', bounds=(0., 1e9, 0., 1e9, 1e9))
    ctx.eq(got, 0., 'collision term vanishes in equilibrium (four particles)', scale=lambda: 1e3)


def balance3(ctx, sides):
    m = three(ctx)
    T = ctx.pos('T')
    p, ms, last = KIN3[sides]
    etas = [1 if ctx.flag('fermion%d' % i) else -1 for i in range(3)]
    sp = [species3(m, etas[i], ms[i], [0., 1.], [0.5, 0.25], 1, T) for i in range(3)]
    reaction = [m.reaction_t3(specie=s, side=sd) for s, sd in zip(sp, sides)]
    got, rec = integrand3(m, p[0], p[1], reaction, 'Full', bounds=(0., 1e9, 1e9))
    ctx.eq(got, 0., 'collision term vanishes in equilibrium (three particles)', scale=lambda: 1e3)


HEAVY4 = {(-1, 1, 1, 1): 0, (-1, -1, -1, 1): 3}
for n, s in enumerate(PARTS4):
    case('balance4_%d' % n, args=(s, HEAVY4.get(s)), budget=200)(balance4)
for n, s in enumerate(KIN3):
    case('balance3_%d' % n, args=(s,), budget=200)(balance3)
