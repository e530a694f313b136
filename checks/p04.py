"""P04: the four-particle collision integrals cover all kinematically allowed momenta."""
from .base import Check, four
from .kin import species4, Hook, kind_of

CHECK = Check(
    'P04', 'Four-particle collision integrals cover all allowed momenta',
    functions=['four_particle/cpp/integral.cpp: integration, integrand_2nd_integration, p2_max_dec, p2_min_scat, p2_max_scat, '
               'integrand_1st_integration'],
    bounds='decays 1 -> 3, scatterings 2 -> 2 and inverse decays 3 -> 1 with arbitrary masses and momenta; particles at rest: mass patterns '
           'listed in the check',
    outside='accuracy of the adaptive quadrature inside its bounds (GSL is replaced by a hook), rounding; momenta above the cutoff of the '
            'external grid are excluded by design')
case = CHECK.case


def mass_shell(ctx, name, massless):
    """(mass, energy, momentum) of any moving particle"""
    if massless:
        p = ctx.pos('p' + name)
        return 0., p, p
    m = ctx.pos('m' + name)
    s = ctx.real('s' + name, lo=1)
    ctx.assume(s > 1)
    return m, m * (s + 1 / s) / 2, m * (s - 1 / s) / 2


def run(m, p0, p1, p2, masses, sides, grid_max, max3):
    """bounds of the two quadratures when p1 is asked for"""
    sp = [species4(m, 1, x, [0., 1.], [0.5, 0.25], 1, 1.) for x in masses]
    reaction = [m.reaction_t(specie=s, side=sd) for s, sd in zip(sp, sides)]
    Ms = [m.M_t(order=[0, 1, 2, 3], K1=0., K2=0., K=1.)]
    seen = []

    def hook(f, a, b):
        seen.append((a, b))
        return f(p1) if len(seen) == 1 else 0.
    with Hook(m, hook):
        m.integration([p0], 0., grid_max, 0., grid_max, max3, reaction, Ms, 1., kind_of(m, 4, 'F_1'))
    return seen


def inside(ctx, seen, what, m1, E1, m2, E2):
    ctx.true(len(seen) == 2, what + ' is integrated over two momenta')
    if len(seen) != 2:
        return
    for (lo, hi), mass, E, n in ((seen[0], m1, E1, 'first'), (seen[1], m2, E2, 'second')):
        ctx.ge(hi, 0, '%s: upper bound of the %s momentum is a momentum' % (what, n))
        ctx.ge(hi * hi + mass * mass, E * E, '%s: allowed %s momentum is below the upper bound' % (what, n))
        ctx.true(ctx.any(lo <= 0, lo * lo + mass * mass <= E * E), '%s: allowed %s momentum is above the lower bound' % (what, n))


def pattern(n):
    return [bool(n >> i & 1) for i in range(4)]


def decay(ctx, at_rest, massless):
    """0 -> 1 2 3"""
    import numpy
    m = four(ctx)
    m1, E1, p1 = mass_shell(ctx, '1', massless[1])
    m2, E2, p2 = mass_shell(ctx, '2', massless[2])
    m3 = 0. if massless[3] else ctx.pos('m3')
    k = ctx.pos('k')
    E3 = m3 + k
    E0 = E1 + E2 + E3
    if at_rest:
        m0, p0 = E0, 0.
    else:
        # any momentum of the decaying particle (as a fraction of its energy)
        v, w = ctx.pick('speed', [(3. / 5, 4. / 5), (5. / 13, 12. / 13), (24. / 25, 7. / 25)])
        p0, m0 = E0 * v, E0 * w
    seen = run(m, p0, p1, p2, [m0, m1, m2, m3], (-1, 1, 1, 1), 1., 1.)
    inside(ctx, seen, 'decay', m1, E1, m2, E2)


for rest in (False, True):
    for n in (0, 2, 4, 8, 14):
        case('decay_%s_%d' % ('rest' if rest else 'moving', n), args=(rest, pattern(n)))(decay)


def scattering(ctx, massless):
    """0 1 -> 2 3, with the first particle moving"""
    m = four(ctx)
    m0, E0, p0 = mass_shell(ctx, '0', massless[0])
    m1, E1, p1 = mass_shell(ctx, '1', massless[1])
    m2, E2, p2 = mass_shell(ctx, '2', massless[2])
    m3 = 0. if massless[3] else ctx.pos('m3')
    grid_max = p1 + ctx.real('above', lo=0)
    ctx.assume(E0 + E1 - E2 > m3)
    seen = run(m, p0, p1, p2, [m0, m1, m2, m3], (-1, -1, 1, 1), grid_max, 1.)
    inside(ctx, seen, 'scattering', m1, E1, m2, E2)


for n in (0, 1, 3, 5, 7, 15):
    case('scattering_%d' % n, args=(pattern(n),))(scattering)


def scattering_at_rest(ctx, massless):
    """the first particle is at rest: momentum conservation limits the others"""
    m = four(ctx)
    m0 = 0. if massless[0] else ctx.pos('m0')
    m1, E1, p1 = mass_shell(ctx, '1', massless[1])
    m2, E2, p2 = mass_shell(ctx, '2', massless[2])
    E3 = m0 + E1 - E2
    c = ctx.real('cos', lo=-1, hi=1)
    p3sq = p1 * p1 + p2 * p2 - 2 * p1 * p2 * c
    m3sq = E3 * E3 - p3sq
    ctx.assume(E3 > 0)
    if massless[3]:
        ctx.assume(ctx.all(p2 - p1 <= E3, p1 - p2 <= E3, E3 <= p1 + p2))
        m3 = 0.
    else:
        import numpy
        ctx.assume(m3sq > 0)
        m3 = numpy.sqrt(m3sq)
    grid_max = p1 + ctx.real('above', lo=0)
    seen = run(m, 0., p1, p2, [m0, m1, m2, m3], (-1, -1, 1, 1), grid_max, 1.)
    inside(ctx, seen, 'scattering at rest', m1, E1, m2, E2)


for n in (9, 10, 12, 13, 14, 15):
    case('rest_scattering_%d' % n, args=(pattern(n),))(scattering_at_rest)


def shell_of(ctx, name, mass):
    if not mass:
        p = ctx.pos('p' + name, hi=1000)
        return p, p
    s = ctx.real('s' + name, lo=1, hi=1000)
    ctx.assume(s > 1)
    return mass * (s + 1 / s) / 2, mass * (s - 1 / s) / 2


def rest_scattering_masses(ctx, masses):
    """given masses, all momenta: the first particle is at rest"""
    m = four(ctx)
    m0, m1, m2, m3 = masses
    if m1:
        s = ctx.pick('speed1', [1.25, 2., 8.])
        E1, p1 = m1 * (s + 1 / s) / 2, m1 * (s - 1 / s) / 2
    else:
        E1, p1 = shell_of(ctx, '1', m1)
    E2, p2 = shell_of(ctx, '2', m2)
    E3 = m0 + E1 - E2
    p3sq = E3 * E3 - m3 * m3
    ctx.assume(ctx.all(E3 >= m3, (p1 - p2) * (p1 - p2) * 1.000001 + 1e-6 <= p3sq,
                       p3sq * 1.000001 + 1e-6 <= (p1 + p2) * (p1 + p2)))
    grid_max = p1 + ctx.real('above', lo=0)
    seen = run(m, 0., p1, p2, [m0, m1, m2, m3], (-1, -1, 1, 1), grid_max, 1.)
    inside(ctx, seen, 'scattering at rest', m1, E1, m2, E2)


MASSES = [(4., 0., 0., 1.), (4., 0., 1., 1.), (4., 0., 1., 2.), (4., 2., 1., 0.), (4., 2., 1., 2.), (1., 0., 0., 3.), (1., 0., 2., 2.), (1., 1., 1., 2.),
          (2., 1., 1., 2.), (0., 4., 1., 2.), (0., 4., 0., 2.), (1., 1., 1., 1.)]
for n, ms in enumerate(MASSES):
    case('rest_masses_%d' % n, args=(ms,))(rest_scattering_masses)


def creation(ctx, at_rest, massless):
    """0 1 2 -> 3"""
    m = four(ctx)
    if at_rest:
        m0 = E0 = ctx.pos('m0')
        p0 = 0.
    else:
        m0, E0, p0 = mass_shell(ctx, '0', massless[0])
    m1, E1, p1 = mass_shell(ctx, '1', massless[1])
    m2, E2, p2 = mass_shell(ctx, '2', massless[2])
    E3 = E0 + E1 + E2
    v, w = ctx.pick('speed', [(3. / 5, 4. / 5), (5. / 13, 12. / 13), (24. / 25, 7. / 25)])
    p3, m3 = E3 * v, E3 * w
    # cutoff of the created particle: its energy there is that of the same speed table, not below E3
    x = ctx.pick('cutoff', [(1., 0.), (40. / 9, 41. / 9), (0.75, 1.25)])
    top = p3 if x == (1., 0.) else m3 * x[0]
    ctx.assume(top >= p3)
    seen = run(m, p0, p1, p2, [m0, m1, m2, m3], (-1, -1, -1, 1), 1., top)
    inside(ctx, seen, 'creation', m1, E1, m2, E2)


for rest in (False, True):
    for n in (0, 1, 2, 4, 7):
        if not (rest and n & 1):
            case('creation_%s_%d' % ('rest' if rest else 'moving', n), args=(rest, pattern(n)))(creation)
