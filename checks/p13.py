"""P13: momentum grids."""
from .base import Check, repo

CHECK = Check(
    'P13', 'Momentum grids cover zero to the cutoff in increasing order',
    functions=['common/__init__.py: LinearSpacedGrid, LogSpacedGrid, HeuristicGrid'],
    bounds='every cutoff momentum > 0; 2..12, 51 and 401 points; heuristic grid: every mass and lifetime in a '
           'factor 10^4 for which it has 2 points, a few values of aT, b, c',
    outside='heuristic grids with more points; rounding')
case = CHECK.case
SIZES = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 51, 401]


def common(ctx, g, n, M):
    t = g.TEMPLATE
    ctx.true(len(t) == n and g.MOMENTUM_SAMPLES == n, 'grid has the requested number of points')
    ctx.eq(g.MIN_MOMENTUM, 0, 'lower end is zero')
    ctx.eq(g.MAX_MOMENTUM, M, 'upper end is the cutoff')
    ctx.eq(g.BOUNDS[0], 0, 'lower integration bound')
    ctx.eq(g.BOUNDS[1], M, 'upper integration bound')
    ctx.eq(t[0], 0, 'first point is zero')
    ctx.eq(t[-1], M, 'last point is the cutoff')
    for i in range(n - 1):
        ctx.true(t[i] < t[i + 1], 'points increase strictly')


@case()
def linear(ctx):
    repo(ctx)
    from common import LinearSpacedGrid
    n = ctx.pick('n', SIZES)
    M = ctx.pos('M')
    g = LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=M)
    common(ctx, g, n, M)
    for i in range(n):
        ctx.eq(g.TEMPLATE[i] * (n - 1), i * M, 'linear grid is equally spaced')


@case()
def logarithmic(ctx):
    repo(ctx)
    from common import LogSpacedGrid
    n = ctx.pick('n', SIZES[1:-1])
    M = ctx.pos('M')
    g = LogSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=M)
    common(ctx, g, n, M)
    t = g.TEMPLATE
    r0 = (t[2] - t[1]) / (t[1] - t[0])
    ctx.true(r0 > 1, 'logarithmic grid is denser at small momenta')
    for i in range(2, n - 1):
        ctx.eq(t[i + 1] - t[i], (t[i] - t[i - 1]) * r0, 'spacings of the logarithmic grid grow geometrically',
               scale=lambda: M)


@case()
def defaults(ctx):
    """without arguments the grids use the configured size and cutoff"""
    repo(ctx)
    import os
    from common import LinearSpacedGrid, LogSpacedGrid, UNITS
    n = ctx.pick('n', [4, 9])
    cut = ctx.pick('cut', [20, 7])
    os.environ['MOMENTUM_SAMPLES'] = str(n)
    os.environ['MAX_MOMENTUM_MEV'] = str(cut)
    try:
        for cls in (LinearSpacedGrid, LogSpacedGrid):
            common(ctx, cls(), n, cut * UNITS.MeV)
            M = ctx.pos('M')
            common(ctx, cls(MAX_MOMENTUM=M), n, M)
            common(ctx, cls(MOMENTUM_SAMPLES=6), 6, cut * UNITS.MeV)
    finally:
        del os.environ['MOMENTUM_SAMPLES'], os.environ['MAX_MOMENTUM_MEV']


def heuristic(ctx, limit, cs=(2,), bs=(0.8,)):
    repo(ctx)
    import numpy
    from common import HeuristicGrid, UNITS
    M = ctx.real('M', lo=0.01, hi=100)
    w = ctx.real('w', lo=0.01, hi=100)
    aT = ctx.pick('aT', [1., 2.5])
    # lifetime such that the final scale factor 2 H b tau is a free number
    b = ctx.pick('b', bs)
    tau = w * w * UNITS.s / b
    c = ctx.pick('c', cs)
    if ctx.symbolic:
        from symx import core
        count = [0]
        orig = numpy.sqrt

        def sqrt(x):
            count[0] += 1
            if count[0] > 2 + 2 * limit:
                raise core.Infeasible()
            return orig(x)
        numpy.sqrt = sqrt
        try:
            g = HeuristicGrid(M, tau, aT=aT, b=b, c=c)
        finally:
            numpy.sqrt = orig
    else:
        g = HeuristicGrid(M, tau, aT=aT, b=b, c=c)
    n = len(g.TEMPLATE)
    t = g.TEMPLATE
    ctx.true(g.MOMENTUM_SAMPLES == n, 'grid counts its points')
    ctx.eq(t[0], 0, 'first point is zero')
    ctx.eq(g.MIN_MOMENTUM, 0, 'lower end is zero')
    ctx.eq(t[-1], g.MAX_MOMENTUM, 'last point is the cutoff')
    ctx.eq(g.BOUNDS[0], 0, 'lower integration bound')
    ctx.eq(g.BOUNDS[1], g.MAX_MOMENTUM, 'upper integration bound')
    # particles at rest when the universe has the final scale factor: M a, plus the thermal spread
    a = w
    ctx.eq(g.MAX_MOMENTUM, a * (M + numpy.sqrt(M * aT / a)), 'cutoff is the mass and its thermal spread at the final scale factor',
           scale=lambda: g.MAX_MOMENTUM)
    for i in range(n - 1):
        ctx.true(t[i] < t[i + 1], 'points increase strictly')


case('heuristic', args=(1,), budget=120, timeout_ms=10000)(heuristic)
case('heuristic_more', args=(1, (1, 5), (0.5,)), budget=200, timeout_ms=10000, tier='thorough')(heuristic)
