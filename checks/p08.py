"""P08: linear and cubic interpolation of tabulated functions."""
from .base import Check, repo

CHECK = Check(
    'P08', 'Tabulated functions are interpolated between neighbouring points',
    functions=['common/__init__.py: linear_interpolation, cubic_interpolation'],
    bounds='every strictly increasing grid of 2..6 points, every table of values, every argument (also beyond both ends)',
    outside='grids of more than 6 points (the interpolation reads at most four neighbours); rounding')
case = CHECK.case


def setup(ctx, n):
    repo(ctx)
    import numpy
    xs = [ctx.real('x0')]
    for i in range(1, n):
        xs.append(xs[-1] + ctx.pos('d%d' % i))
    ys = [ctx.real('y%d' % i) for i in range(n)]
    dt = object if ctx.symbolic else float
    return numpy.array(xs, dtype=dt), numpy.array(ys, dtype=dt)


def linear(ctx, n):
    from_repo = setup(ctx, n)
    from common import linear_interpolation
    xs, ys = from_repo
    f = linear_interpolation(ys, xs)
    for i in range(n):
        ctx.eq(f(xs[i]), ys[i], 'table values are reproduced', scale=lambda: abs(ys[i]) * (1 + abs(xs[i])))
    x = ctx.real('x')
    got = f(x)
    if x <= xs[0]:
        if x == xs[0]:
            ctx.eq(got, ys[0], 'table values are reproduced')
    elif x >= xs[-1]:
        ctx.eq(got, ys[-1], 'beyond the table the last value is used')
    else:
        for i in range(n - 1):
            if x < xs[i + 1]:
                break
        ctx.eq(got * (xs[i + 1] - xs[i]), ys[i] * (xs[i + 1] - x) + ys[i + 1] * (x - xs[i]),
               'linear between the neighbouring points')
        lo, hi = (ys[i], ys[i + 1]) if ys[i] <= ys[i + 1] else (ys[i + 1], ys[i])
        ctx.true(ctx.all(lo <= got, got <= hi), 'interpolated value lies between its neighbours')


def cubic(ctx, n):
    xs, ys = setup(ctx, n)
    from common import cubic_interpolation
    f = cubic_interpolation(ys, xs)
    for i in range(n):
        ctx.eq(f(xs[i]), ys[i], 'table values are reproduced (cubic)', scale=lambda: abs(ys[i]) * (1 + abs(xs[i])))
    x = ctx.real('x')
    ctx.assume(x > xs[0])
    got = f(x)
    if x >= xs[-1]:
        ctx.eq(got, ys[-1], 'beyond the table the last value is used (cubic)')
        return
    for i in range(n - 1):
        if x < xs[i + 1]:
            break
    t = (x - xs[i]) / (xs[i + 1] - xs[i])
    if i == 0 or i == n - 2:
        ctx.eq(got, ys[i] + (ys[i + 1] - ys[i]) * t, 'linear in the first and last interval (cubic)')
    else:
        # Catmull-Rom spline: cubic Hermite with central difference slopes
        s0, s1 = (ys[i + 1] - ys[i - 1]) / 2, (ys[i + 2] - ys[i]) / 2
        h = ((1 + 2 * t) * (1 - t) ** 2 * ys[i] + t * (1 - t) ** 2 * s0
             + t * t * (3 - 2 * t) * ys[i + 1] + t * t * (t - 1) * s1)
        ctx.eq(got, h, 'cubic Hermite between inner points')


def cubic_joins(ctx, n):
    """a linear table on an equidistant grid is reproduced exactly"""
    repo(ctx)
    import numpy
    from common import cubic_interpolation, linear_interpolation
    h, x0, a, b = ctx.pos('h'), ctx.real('x0'), ctx.real('a'), ctx.real('b')
    dt = object if ctx.symbolic else float
    xs = numpy.array([x0 + i * h for i in range(n)], dtype=dt)
    ys = a + b * xs
    x = ctx.real('x')
    ctx.assume(ctx.all(x >= xs[0], x <= xs[-1]))
    ctx.eq(cubic_interpolation(ys, xs)(x), a + b * x, 'cubic interpolation reproduces straight lines',
           scale=lambda: abs(a) + abs(b) * (abs(x) + n * h))
    ctx.eq(linear_interpolation(ys, xs)(x), a + b * x, 'linear interpolation reproduces straight lines',
           scale=lambda: abs(a) + abs(b) * (abs(x) + n * h))


for n in (2, 3, 4, 6):
    case('linear_%d' % n, args=(n,))(linear)
for n in (2, 3, 4, 5, 6):
    case('cubic_%d' % n, args=(n,))(cubic)
for n in (3, 5):
    case('straight_%d' % n, args=(n,))(cubic_joins)
for n in (9, 12):
    case('linear_%d' % n, args=(n,), tier='thorough')(linear)
    case('cubic_%d' % n, args=(n,), tier='thorough')(cubic)
