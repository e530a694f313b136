"""P06: the collision integrals of a list of momenta are those of the single momenta."""
from .base import Check, four, three
from .kin import species4, species3, Hook, kind_of

CHECK = Check(
    'P06', 'Each momentum is integrated independently of the others',
    functions=['four_particle/cpp/integral.cpp: integration, integrand_2nd_integration', 'three_particle/cpp/integral.cpp: integration_3'],
    bounds='lists of up to three momenta in any order, zero and repeated momenta included; every momentum, cutoff and temperature; decays, scatterings '
           'and inverse decays with the masses listed in the check',
    outside='threads (OpenMP is not enabled in the build of the check: the loop body is shown to be independent of the other momenta), accuracy of the quadrature')
case = CHECK.case

REACTIONS4 = [
    ((-1, -1, 1, 1), (0., 0., 0., 0.)),
    ((-1, -1, 1, 1), (0., 0., 2., 2.)),
    ((-1, -1, 1, 1), (4., 0., 0., 1.)),
    ((-1, 1, 1, 1), (8., 1., 1., 1.)),
    ((-1, 1, 1, 1), (8., 0., 0., 0.)),
    ((-1, -1, -1, 1), (0., 0., 0., 8.)),
    ((-1, -1, -1, 1), (1., 1., 1., 8.)),
]
REACTIONS3 = [
    ((-1, 1, 1), (4., 0., 0.)),
    ((-1, 1, 1), (4., 1., 0.)),
    ((-1, -1, 1), (0., 0., 4.)),
    ((-1, -1, 1), (1., 0., 4.)),
]


def compare(ctx, call, what, sizes):
    n = ctx.pick('momenta', sizes)
    zero = ctx.pick('zero', list(range(-1, n)))
    ps = [0. if i == zero else ctx.pos('p%d' % i) for i in range(n)]
    together = call(list(ps))
    ctx.true(len(together) == n, what + ': one value per momentum')
    for i, p in enumerate(ps):
        alone = call([p])
        ctx.eq(together[i], alone[0], what + ': the value of a momentum does not depend on the rest of the list')


def four_body(ctx, sides, masses, sizes):
    m = four(ctx)
    sp = [species4(m, 1, x, [0., 1.], [0.5, 0.25], 1, 1.) for x in masses]
    reaction = [m.reaction_t(specie=s, side=sd) for s, sd in zip(sp, sides)]
    Ms = [m.M_t(order=[0, 1, 2, 3], K1=0., K2=0., K=1.)]
    grid_max, top = ctx.pos('grid_max'), ctx.pos('top')
    lo1, lo2, hi2 = ctx.real('min1', lo=0), ctx.real('min2', lo=0), ctx.real('max2', lo=0)

    def call(ps):
        depth = [0]

        def hook(f, a, b):
            # any functional of the bounds and of the integrand will do
            depth[0] += 1
            r = 2 * a + 3 * b + (5 * f(0.5) if depth[0] == 1 else 0)
            depth[0] -= 1
            return r
        with Hook(m, hook):
            return m.integration(ps, lo1, grid_max, lo2, hi2, top, reaction, Ms, 1., kind_of(m, 4, 'F_f_vacuum_decay'))
    compare(ctx, call, 'four-particle integral', sizes)


def three_body(ctx, sides, masses, sizes):
    m = three(ctx)
    sp = [species3(m, 1, x, [0., 1.], [0.5, 0.25], 1, 1.) for x in masses]
    reaction = [m.reaction_t3(specie=s, side=sd) for s, sd in zip(sp, sides)]
    lo, hi, top = ctx.real('min1', lo=0), ctx.pos('grid_max'), ctx.pos('top')

    def call(ps):
        with Hook(m, lambda f, a, b: 2 * a + 3 * b):
            return m.integration_3(ps, lo, hi, top, reaction, 1., kind_of(m, 3, 'F_f_vacuum_decay'))
    compare(ctx, call, 'three-particle integral', sizes)


for n, (s, ms) in enumerate(REACTIONS4):
    case('four_%d' % n, args=(s, ms, [2] if n in (2, 3, 6) else [2, 3]))(four_body)
for n, (s, ms) in enumerate(REACTIONS3):
    case('three_%d' % n, args=(s, ms, [2] if n == 3 else [2, 3]))(three_body)
