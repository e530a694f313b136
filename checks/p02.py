"""P02: squared amplitude integrated over directions, and its zero-momentum limit."""
import itertools
from .base import Check, four

CHECK = Check(
    'P02', 'Collision kernel is the direction-integrated squared amplitude',
    functions=['four_particle/cpp/Ds.cpp: D, Db, D1, D2, D3, Db1, Db2'],
    bounds='all momenta >= 0, energies and masses >= 0, couplings of any sign; all 24 orders and 8 side patterns within one '
           'momentum chamber, 3 orders over all momenta; zero-momentum limit for all momenta off the degenerate surfaces',
    outside='rounding; momenta exactly on p1 = p2 + p3 in the zero-momentum limit (measure zero)')
case = CHECK.case

ORDERS = list(itertools.permutations(range(4)))
SIDES = [(-1,) + s for s in itertools.product((-1, 1), repeat=3)]


def kernel(m, p, E, ms, K1, K2, order, s):
    i, j, k, l = order
    d1 = m.D1(*p)
    a = m.D2(p[i], p[j], p[k], p[l])
    b = m.D2(p[k], p[l], p[i], p[j])
    return (K1 * (E[0] * E[1] * E[2] * E[3] * d1 + s[0] * s[1] * s[2] * s[3] * m.D3(*p)
                  + E[i] * E[j] * s[k] * s[l] * a + E[k] * E[l] * s[i] * s[j] * b)
            + K2 * ms[i] * ms[j] * (E[k] * E[l] * d1 + s[k] * s[l] * a))


def state(ctx):
    p = [ctx.real('p%d' % i, lo=0) for i in range(4)]
    E = [ctx.real('E%d' % i, lo=0) for i in range(4)]
    ms = [ctx.real('m%d' % i, lo=0) for i in range(4)]
    K1, K2 = ctx.real('K1'), ctx.real('K2')
    return p, E, ms, K1, K2


def scale(p, E, ms, K1, K2):
    e = sum(E) + sum(p) + sum(ms)
    return (abs(K1) + abs(K2)) * e ** 5


def assembled(ctx, orders, sides, chamber):
    m = four(ctx)
    p, E, ms, K1, K2 = state(ctx)
    if chamber:
        ctx.assume(ctx.all(p[0] > p[1], p[1] > p[2], p[2] > p[3], p[3] > 0, p[0] < p[1] + p[2], p[0] + p[3] > p[1] + p[2]))
    ctx.assume(K1 > 0)
    ctx.assume(K2 > 0)
    order = ctx.pick('order', orders)
    s = ctx.pick('sides', sides)
    got = m.D(p, E, ms, K1, K2, list(order), list(s))
    ctx.eq(got, kernel(m, p, E, ms, K1, K2, order, s), 'kernel is the reduced squared amplitude', scale=scale(p, E, ms, K1, K2))


for n in range(4):
    case('orders_%d' % n, budget=200, args=(ORDERS[6 * n:6 * n + 6], SIDES, True))(assembled)
case('all_momenta', budget=300, weight=3, args=([(0, 1, 2, 3), (0, 2, 1, 3), (3, 1, 2, 0)], [(-1, -1, 1, 1)], False))(assembled)


@case(budget=200)
def couplings(ctx):
    """a vanishing coupling switches its term off, whatever the other one is"""
    m = four(ctx)
    p, E, ms, K1, K2 = state(ctx)
    ctx.assume(ctx.all(p[0] > p[1], p[1] > p[2], p[2] > p[3], p[3] > 0, p[0] < p[1] + p[2], p[0] + p[3] > p[1] + p[2]))
    order, s = [0, 1, 2, 3], [-1, -1, 1, 1]
    which = ctx.pick('which', [0, 1, 2])
    k1, k2 = (K1, K2) if which == 0 else (0., K2) if which == 1 else (K1, 0.)
    ctx.eq(m.D(p, E, ms, k1, k2, order, s), kernel(m, p, E, ms, k1, k2, order, s), 'kernel with a vanishing coupling',
           scale=scale(p, E, ms, K1, K2))


@case(budget=300, weight=3)
def relabelling(ctx):
    """the kernel depends on which particles are paired, not on how they are listed"""
    m = four(ctx)
    p, E, ms, K1, K2 = state(ctx)
    ctx.assume(ctx.all(p[0] > p[1], p[1] > p[2], p[2] > p[3], p[3] > 0, p[0] < p[1] + p[2], p[0] + p[3] > p[1] + p[2]))
    perm = ctx.pick('perm', ORDERS)
    order, s = (0, 1, 2, 3), (-1, -1, 1, 1)
    ref = m.D(p, E, ms, K1, K2, list(order), list(s))
    # particle x of the original list is stored at position perm.index(x)
    q = [perm.index(x) for x in range(4)]
    got = m.D([p[x] for x in perm], [E[x] for x in perm], [ms[x] for x in perm], K1, K2,
              [q[x] for x in order], [s[x] for x in perm])
    ctx.eq(got, ref, 'kernel is invariant under relabelling of the particles', scale=scale(p, E, ms, K1, K2))


def at_rest(ctx, orders, K):
    """Db is the limit of D / (p0 E0) for p0 -> 0"""
    m = four(ctx)
    eps = ctx.small('eps')
    p = [eps] + [ctx.real('p%d' % i, lo=0) for i in (1, 2, 3)]
    ms = [ctx.real('m%d' % i, lo=0) for i in range(4)]
    E = [ctx.real('E%d' % i, lo=0) for i in range(4)]
    k = ctx.real('K')
    a, b, c = p[1:]
    ctx.assume(ms[0] > 0)
    E[0] = ms[0]
    for x in (a, b, c):
        ctx.assume(x > eps)
    for x in (a + b - c, a + c - b, b + c - a):
        ctx.assume(ctx.any(x > eps, -x > eps))
    order = ctx.pick('order', orders)
    s = ctx.pick('sides', [(-1, 1, 1, 1), (-1, -1, 1, 1), (-1, -1, -1, 1)])
    K1, K2 = (k, 0.) if K == 1 else (0., k)
    d = m.D(p, E, ms, K1, K2, list(order), list(s)) / eps / ms[0]
    d = ctx.at_zero(d, eps)
    got = m.Db([0.] + p[1:], E, ms, K1, K2, list(order), list(s))
    ctx.eq(got, d, 'kernel at rest is the limit of the kernel', tol=1e-9 if ctx.symbolic else 1e-5,
           scale=abs(k) * (sum(E) + a + b + c + sum(ms)) ** 3)


for n in range(4):
    for K in (1, 2):
        case('at_rest_%d_K%d' % (n, K), budget=250, args=(ORDERS[6 * n:6 * n + 6], K))(at_rest)
