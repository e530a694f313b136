"""P05: the three-particle collision integrals cover exactly the kinematically allowed momenta."""
from .base import Check, three
from .kin import species3, integrand3

CHECK = Check(
    'P05', 'Three-particle collision integrals cover all allowed momenta',
    functions=['three_particle/cpp/integral.cpp: integration_3, p1_bounds_1..4, integrand_full'],
    bounds='decays a -> b c: every mass with m_a > m_b + m_c, every momentum and angle; inverse decays b c -> a: every momentum, angle and cutoff, mass ratios '
           'as listed in the check when a product is massive (every mass otherwise)',
    outside='accuracy of the adaptive quadrature inside its bounds (GSL is replaced by a hook), rounding')
case = CHECK.case


def hyperbola(ctx, name):
    """(cosh, sinh) of any positive rapidity, as a rational function"""
    s = ctx.real(name, lo=1)
    ctx.assume(s > 1)
    return (s + 1 / s) / 2, (s - 1 / s) / 2


def two_body(ctx, b_massless=False, c_massless=False):
    """masses and rest-frame momentum of a -> b c"""
    q = ctx.pos('q')
    eb, mb = (1., 0.) if b_massless else hyperbola(ctx, 'sb')
    ec, mc = (1., 0.) if c_massless else hyperbola(ctx, 'sc')
    return q, q * eb, q * ec, q * (eb + ec), q * mb, q * mc


def reaction_of(m, masses, sides, T=1.):
    sp = [species3(m, 1, mass, [0., 1.], [0.5, 0.25], 1, T) for mass in masses]
    return [m.reaction_t3(specie=s, side=sd) for s, sd in zip(sp, sides)]


def bounds_of(m, p0, masses, sides, lo, hi, top):
    seen = []

    def hook(f, a, b):
        seen.append((a, b))
        return 0.
    from .kin import Hook, kind_of
    with Hook(m, hook):
        m.integration_3([p0], lo, hi, top, reaction_of(m, masses, sides), 1., kind_of(m, 3, 'Full'))
    return seen


MASSLESS = [(False, False), (True, False), (False, True), (True, True)]


def decay(ctx, massless):
    """a moving: every momentum of b that some decay angle gives is inside the range"""
    import numpy
    m = three(ctx)
    q, Eb, Ec, ma, mb, mc = two_body(ctx, *massless)
    ch, sh = hyperbola(ctx, 'boost')
    p0, E0 = ma * sh, ma * ch
    c = ctx.real('cos', lo=-0.999999, hi=0.999999)
    e = ch * Eb + sh * q * c
    seen = bounds_of(m, p0, [ma, mb, mc], (-1, 1, 1), 0., 1., 1.)
    ctx.true(len(seen) == 1, 'the decay integral is evaluated')
    lo, hi = seen[0]
    ctx.ge(hi, 0, 'decay: upper bound is a momentum')
    ctx.ge(hi * hi + mb * mb, e * e, 'decay: upper bound covers every angle')
    ctx.le(lo * lo + mb * mb, e * e, 'decay: lower bound covers every angle')
    ctx.ge(lo, 0, 'decay: lower bound is a momentum')
    ctx.le(lo, hi, 'decay: the range is not reversed')
    # nothing else: outside of the range no angle conserves energy and momentum
    ctx.eq(hi, ch * q + sh * Eb, 'decay: upper bound is reached by an angle', scale=lambda: ch * (q + Eb))
    ctx.eq(lo, abs(ch * q - sh * Eb), 'decay: lower bound is reached by an angle', scale=lambda: ch * (q + Eb))


for n, ml in enumerate(MASSLESS):
    case('decay_%d' % n, args=(ml,), budget=100)(decay)


def at_rest(ctx, massless):
    m = three(ctx)
    q, Eb, Ec, ma, mb, mc = two_body(ctx, *massless)
    got, rec = integrand3(m, 0., 0., reaction_of(m, [ma, mb, mc], (-1, 1, 1)), 'F_f_vacuum_decay')
    ctx.eq(got, -q, 'decay at rest: products have the two-body momentum', scale=lambda: ma)


for n, ml in enumerate(MASSLESS):
    case('rest_%d' % n, args=(ml,), budget=100)(at_rest)


def covered(ctx, m, pb, mb, mc, ma, top, ec, ends=None):
    """b + c -> a (a is the last of the three): c with energy ec is allowed, so it must be inside the range"""
    seen = bounds_of(m, pb, [mb, mc, ma], (-1, -1, 1), 0., 1., top)
    ctx.true(len(seen) == 1, 'creation is evaluated whenever it is possible')
    if len(seen) == 1:
        lo, hi = seen[0]
        ctx.ge(hi, 0, 'creation: upper bound is a momentum')
        ctx.ge(hi * hi + mc * mc, ec * ec, 'creation: upper bound covers every angle')
        ctx.le(lo * lo + mc * mc, ec * ec, 'creation: lower bound covers every angle')
        if ends is not None:
            least, most = ends
            ctx.eq(lo, least, 'creation: lower bound is reached by an angle', scale=lambda: ec)
            if most is not None:
                ctx.le(hi, most * 1.000001, 'creation: upper bound is reached by an angle')


def creation_massive(ctx, c_massless):
    """b has a mass; p is the momentum of a and of c in the rest frame of b"""
    m = three(ctx)
    p = ctx.pos('p') if c_massless else 1.
    a, c = ctx.pick('masses', [(4., 2.), (2., 1.25)]) if not c_massless else ctx.pick('masses', [(2., 1.), (8., 1.)])
    ea, sa, ec, sc = (a + 1 / a) / 2, (a - 1 / a) / 2, (c + 1 / c) / 2, (c - 1 / c) / 2
    mb, ma, mc = p * (ea - ec), p * sa, p * sc
    if c_massless:
        ch, sh = hyperbola(ctx, 'boost')
    else:
        b = ctx.pick('boost', [1.125, 2., 8.])
        ch, sh = (b + 1 / b) / 2, (b - 1 / b) / 2
    c = ctx.real('cos', lo=-0.999999, hi=0.999999)
    Ec = ch * p * ec + sh * p * c
    Et, top = hyperbola(ctx, 'top')
    ctx.assume(ma * Et > (mb * ch + Ec) * 1.000001)
    covered(ctx, m, mb * sh, mb, mc, ma, ma * top, Ec, (abs(ch * p - sh * p * ec), ch * p + sh * p * ec))


def creation_massless(ctx, c_massless):
    m = three(ctx)
    pb, ma = ctx.pos('pb'), ctx.pos('ma')
    if c_massless:
        mc, Ec = 0., ctx.pos('pc')
        pc = Ec
    else:
        mc = ma * ctx.pick('mc', [0.25, 0.75])
        Ec, pc = hyperbola(ctx, 'sc')
        Ec, pc = mc * Ec, mc * pc
    Et, top = hyperbola(ctx, 'top')
    x = (ma * ma - mc * mc) / (2 * pb)
    # some direction conserves momentum, and a is below its cutoff
    ctx.assume(ctx.all((Ec - pc) * 1.000001 < x, x * 1.000001 < Ec + pc, ma * Et > (pb + Ec) * 1.000001))
    covered(ctx, m, pb, 0., mc, ma, ma * top, Ec, (abs(mc * mc - x * x) / (2 * x), None))


for n in (0, 1):
    case('creation_massive_%d' % n, args=(bool(n),), budget=200)(creation_massive)
    case('creation_massless_%d' % n, args=(bool(n),), budget=200)(creation_massless)
