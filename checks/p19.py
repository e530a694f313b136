"""P19: matrix elements of crossed and merged reactions."""
import itertools
from .base import Check, repo
from .part import particle
from .p18 import SHAPES, build, recorder, expected, crossed, sides

CHECK = Check(
    'P19', 'Matrix elements obey crossing symmetry and no term is lost in merging',
    functions=['interactions/four_particle/__init__.py: FourParticleM (order, apply_order, stackable, arithmetic)', 'interactions/three_particle/__init__.py: ThreeParticleM',
               'interactions/__init__.py: CrossGeneratingInteraction.init_integrals, IntegralDeduplicator', 'library/SM.py: WeakM', 'library/NuMSM.py: SterileM'],
    bounds='reactions 2 -> 2 and 1 -> 3 of distinct, repeated and Majorana species; one to six matrix elements of any order of momenta with arbitrary coefficients; '
           'all masses and scalar products of momenta (independent variables), symmetrised over identical particles on one side',
    outside='interactions of five or more particles')
case = CHECK.case
ORDERS = [(0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2), (2, 3, 0, 1), (1, 3, 0, 2), (1, 2, 0, 3)]


def dots(ctx):
    """scalar products of momenta"""
    table = {}

    def s(a, b):
        key = tuple(sorted((a, b)))
        if key not in table:
            table[key] = ctx.real('s_' + '_'.join('%s%s%d' % k for k in key))
        return table[key]
    return s


def labels(items):
    """(side letter, species name, occurrence) of every position"""
    out, count = [], {}
    for k, item in enumerate(items):
        side, name = ('f', item[1]) if k == 0 else ('i' if item[0] == -1 else 'o', item[1])
        count[(side, name)] = count.get((side, name), -1) + 1
        out.append((side, name, count[(side, name)]))
    return out


def symmetrised(ls, value):
    """average over exchanges of identical particles on one side"""
    groups = {}
    for l in ls:
        groups.setdefault(l[:2], []).append(l)
    total, n = 0, 0
    for perm in itertools.product(*[itertools.permutations(g) for g in groups.values()]):
        swap = dict((a, b) for g, p in zip(groups.values(), perm) for a, b in zip(g, p))
        total = total + value([swap[l] for l in ls])
        n += 1
    return total / n


def amplitude(s, mass, order, K1, K2, K, ls):
    i, j, k, l = (ls[o] for o in order)
    return K1 * s(i, j) * s(k, l) + K2 * mass[i[1]] * mass[j[1]] * s(k, l) + K


def cls_of(items):
    return (items[0][1], tuple(sorted(n for side, n in items if side == -1)), tuple(sorted(n for side, n in items if side == 1)))


def compare(ctx, s0, terms, what):
    """terms: (order, K1, K2, K) of the interaction as given"""
    s = dots(ctx)
    mass = {n: p.mass for n, p in s0.species.items()}
    want = {}
    for first, left, right in expected(s0):
        ids = [first] + sorted(left, key=lambda i: (s0.names[i], i)) + sorted(right, key=lambda i: (s0.names[i], i))
        side = {i: -1 if i == first or i in left else 1 for i in ids}
        items = [(side[i], s0.names[i]) for i in ids]
        lab = labels(items)
        pos = {i: k for k, i in enumerate(ids)}
        total = 0
        for order, K1, K2, K in terms:
            flip = -1 if crossed(s0, order[0], side[order[0]])[0] != crossed(s0, order[1], side[order[1]])[0] else 1
            total = total + symmetrised(lab, lambda ls: amplitude(s, mass, [pos[o] for o in order], K1, flip * K2, K, ls))
        key = cls_of(items)
        want[key] = want.get(key, 0) + total
    for integral in s0.interaction.integrals:
        left, right = sides(integral.reaction)
        items = [(i.side, i.specie.name) for i in integral.reaction]
        lab = labels(items)
        got = 0
        for M in integral.Ms:
            got = got + symmetrised(lab, lambda ls: amplitude(s, mass, M.order, M.K1, M.K2, M.K, ls))
        ctx.eq(got, want[cls_of(items)], what, loose=True)


WHAT = 'the squared amplitude of an integral is the sum over its crossings of the crossed amplitude'


def several(ctx, shape, kind):
    """all six orders at once"""
    repo(ctx)
    from interactions.four_particle import FourParticleM
    terms = []
    few = kind == 'K2' and shape in ('aa_aa', 'a_bbb', 'aa_ab', 'aa_bb')
    for n, order in enumerate(ORDERS[::2] if few else ORDERS):
        K = ctx.pos('K%d' % n) if kind == 'K1' else ctx.real('K%d' % n)      # (pairs: any value)
        if kind == 'K2':
            ctx.assume(K != 0)
        terms.append((order, K if kind == 'K1' else 0., K if kind == 'K2' else 0., 0.))
    Recorder, made = recorder(ctx)
    flags = [ctx.flag('charge'), ctx.flag('charge2')]
    s0 = build(ctx, shape, Recorder, Ms=[FourParticleM(order=o, K1=a, K2=b) for o, a, b, c in terms], flags=(flags * 2)[:4])
    compare(ctx, s0, terms, WHAT)


for shape in ('ab_cd', 'ab_ab', 'aa_bb', 'aa_aa', 'ab_cc', 'aa_ab', 'a_bcd', 'a_bbb', 'Mb_cd', 'M_bcc'):
    for kind in ('K1', 'K2'):
        CHECK.case('six_%s_%s' % (kind, shape), args=(shape, kind), weight=4, budget=300)(several)


def pair(ctx, shape):
    """two matrix elements with arbitrary coefficients of every kind"""
    repo(ctx)
    from interactions.four_particle import FourParticleM
    terms = []
    first = ctx.pick('order0', [0, 1, 2])
    for n in range(2):
        o = ORDERS[first] if n == 0 else ctx.pick('order1', ORDERS)
        kind = ctx.pick('kind%d' % n, ['all', 'constant'])
        if kind == 'constant':
            terms.append((o, 0., 0., ctx.real('K_%d' % n)))
        else:
            terms.append((o, ctx.real('K1_%d' % n), ctx.real('K2_%d' % n), ctx.real('K_%d' % n) if n == 0 else 0.))
    Recorder, made = recorder(ctx)
    s0 = build(ctx, shape, Recorder, Ms=[FourParticleM(order=o, K1=a, K2=b, K=c) for o, a, b, c in terms], flags=[False, True] * 2)
    compare(ctx, s0, terms, WHAT)


for shape in ('ab_ab', 'aa_bb', 'a_bbb'):
    CHECK.case('pair_%s' % shape, args=(shape,), weight=6, budget=400)(pair)


@case()
def constants(ctx):
    """constant elements of three-particle interactions are added up"""
    repo(ctx)
    from interactions.three_particle import ThreeParticleM
    K, L = ctx.real('K'), ctx.real('L')
    for shape in ('a_bc', 'a_bb', 'M_bc', 'bc_a', 'a_MM'):
        Recorder, made = recorder(ctx)
        s0 = build(ctx, shape, Recorder, Ms=[ThreeParticleM(K=K), ThreeParticleM(K=L)], flags=[False] * 3, masses=False)
        heavy = s0.species[[n for n in 'aM' if n in s0.species][0]]
        heavy.mass = 10.
        Recorder, made = recorder(ctx)
        from interactions import CrossGeneratingInteraction
        it = CrossGeneratingInteraction(name='x', particles=(tuple(s0.parts[:s0.left]), tuple(s0.parts[s0.left:])),
                                        antiparticles=((False,) * s0.left, (False,) * (3 - s0.left)), Ms=(ThreeParticleM(K=K), ThreeParticleM(K=L)), integral_type=Recorder)
        for integral in it.integrals:
            n = sum(kw['particle'] is integral.particle and sorted((i.side, i.specie.name) for i in kw['reaction']) ==
                    sorted((i.side, i.specie.name) for i in integral.reaction) for kw in made)
            ctx.eq(sum(M.K for M in integral.Ms), n * (K + L), 'constant matrix elements are added up', scale=abs(K) + abs(L))


@case()
def arithmetic(ctx):
    """sums and multiples of matrix elements"""
    repo(ctx)
    from interactions.four_particle import FourParticleM
    from interactions.three_particle import ThreeParticleM
    a = {k: ctx.real('a' + k) for k in ('K1', 'K2', 'K')}
    b = {k: ctx.real('b' + k) for k in ('K1', 'K2', 'K')}
    x = ctx.real('x')
    ctx.assume(x != 0)
    for make, keys in ((FourParticleM, ('K1', 'K2', 'K')), (ThreeParticleM, ('K',))):
        for op in ('add', 'mul', 'div', 'fadd'):
            M, N = make(**{k: a[k] for k in keys}), make(**{k: b[k] for k in keys})
            if op == 'add':
                M += N
                want = lambda k: a[k] + b[k]
            elif op == 'mul':
                M *= x
                want = lambda k: a[k] * x
            elif op == 'div':
                M /= x
                want = lambda k: a[k] / x
            else:
                want = lambda k: a[k]
            for k in keys:
                ctx.eq(getattr(M, k), want(k), 'matrix elements are added and scaled term by term')
                ctx.eq(getattr(N, k), b[k], 'the right-hand side is not changed')
    for order in itertools.permutations(range(4)):
        M = FourParticleM(order=order)
        ctx.true(tuple(M.order) == tuple(sorted(order[:2])) + tuple(sorted(order[2:])), 'the order of momenta within a scalar product does not matter')
    for bad in ((0, 0, 1, 2), (0, 1, 2, 2), (1, 2, 1, 3)):
        try:
            FourParticleM(order=bad)
        except Exception:
            continue
        ctx.true(False, 'an order that repeats a momentum is refused')


@case()
def couplings(ctx):
    """weak and sterile matrix elements carry their couplings"""
    repo(ctx)
    from library.SM import WeakM
    from library.NuMSM import SterileM
    from common import CONST
    k, l, t = ctx.real('K1'), ctx.real('K2'), ctx.real('theta')
    for M, f in ((WeakM(K1=k, K2=l, order=(0, 2, 1, 3)), 1), (SterileM(theta=t, K1=k, K2=l, order=(0, 2, 1, 3)), t ** 2)):
        ctx.eq(M.K1 / CONST.G_F ** 2, 32 * f * k, 'weak matrix elements are multiples of 32 G_F^2 (and the mixing squared)')
        ctx.eq(M.K2 / CONST.G_F ** 2, 32 * f * l, 'weak matrix elements are multiples of 32 G_F^2 (and the mixing squared)')
        ctx.true(tuple(M.order) == (0, 2, 1, 3), 'the order of momenta is kept')
