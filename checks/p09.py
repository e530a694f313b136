"""P09: the time-stepping schemes have the order they claim and solve their implicit relation."""
from fractions import Fraction
from .base import Check, repo

CHECK = Check(
    'P09', 'Time-stepping schemes are exact to their order',
    functions=['common/integrators: euler_correction, heun_correction, implicit_euler, adams_bashforth_correction, '
               'adams_moulton_solver'],
    bounds='orders 1..5, histories of 0..8 earlier derivatives with arbitrary values, any step size h > 0, '
           'any real coefficients of the polynomial solution; arrays of 3 momenta',
    outside='histories longer than 8 entries (only the last five are used), rounding')
case = CHECK.case


def poly_at(c, t):
    r = 0
    for k in reversed(range(len(c))):
        r = r * t + c[k]
    return r


def deriv(c):
    return [k * c[k] for k in range(1, len(c))]


@case()
def adams_bashforth(ctx):
    """a polynomial solution of degree <= number of known derivatives is advanced exactly"""
    repo(ctx)
    from common.integrators import adams_bashforth_correction
    n = ctx.pick('history', [1, 2, 3, 4, 5, 6, 8])
    order = min(n, 5)
    h = ctx.pos('h')
    c = [ctx.real('c%d' % k) for k in range(order + 1)]
    if n > order:
        # the entries before the last five are arbitrary: they must not matter
        junk = [ctx.real('old%d' % k) for k in range(n - order)]
    else:
        junk = []
    d = deriv(c)
    fs = junk + [poly_at(d, -k * h) for k in reversed(range(order))]
    got = adams_bashforth_correction(fs=fs, h=h)
    ctx.eq(got, poly_at(c, h) - c[0], 'Adams-Bashforth advances a polynomial solution exactly',
           scale=lambda: sum(abs(x) for x in c) * (1 + h) ** 6 * 2000)


@case()
def adams_bashforth_explicit_order(ctx):
    repo(ctx)
    from common.integrators import adams_bashforth_correction
    order = ctx.pick('order', [1, 2, 3, 4, 5])
    extra = ctx.pick('extra', [0, 1, 3])
    h = ctx.pos('h')
    c = [ctx.real('c%d' % k) for k in range(order + 1)]
    junk = [ctx.real('old%d' % k) for k in range(extra)]
    d = deriv(c)
    fs = junk + [poly_at(d, -k * h) for k in reversed(range(order))]
    got = adams_bashforth_correction(fs=fs, h=h, order=order)
    ctx.eq(got, poly_at(c, h) - c[0], 'the requested order is used', scale=lambda: sum(abs(x) for x in c) * (1 + h) ** 6 * 2000)


@case()
def adams_moulton(ctx):
    """y' = A + B y with the history of y' from a polynomial solution: the new value solves the
    Adams-Moulton relation y1 = y0 + quadrature of the history and of A + B y1"""
    repo(ctx)
    from common.integrators import adams_moulton_solver
    n = ctx.pick('history', [0, 1, 2, 3, 4, 5, 7])
    order = min(n + 1, 5)
    h = ctx.pos('h')
    B = ctx.real('B')
    c = [ctx.real('c%d' % k) for k in range(order + 1)]
    junk = [ctx.real('old%d' % k) for k in range(n - (order - 1))]
    d = deriv(c)
    fs = junk + [poly_at(d, -k * h) for k in reversed(range(order - 1))]
    # A is chosen so that A + B*y(h) = y'(h): then the polynomial is the exact solution
    y1 = poly_at(c, h)
    A = poly_at(d, h) - B * y1
    ctx.assume(B <= 0)
    got = adams_moulton_solver(y=c[0], fs=fs, A=A, B=B, h=h)
    ctx.eq(got, y1, 'Adams-Moulton advances a polynomial solution exactly',
           scale=lambda: sum(abs(x) for x in c) * (1 + h) ** 6 * 2000)


@case()
def adams_moulton_relation(ctx):
    """for any history: the result satisfies the implicit relation, and the explicit part is linear in the history"""
    repo(ctx)
    from common.integrators import adams_moulton_solver
    n = ctx.pick('history', [0, 1, 2, 3, 4, 6])
    h = ctx.pos('h')
    A, B, y = ctx.real('A'), ctx.real('B', hi=0), ctx.real('y')
    fs = [ctx.real('f%d' % k) for k in range(n)]
    y1 = adams_moulton_solver(y=y, fs=list(fs), A=A, B=B, h=h)
    # with B = 0 the same scheme is explicit; feeding it the slope at the new point gives the new point
    y2 = adams_moulton_solver(y=y, fs=list(fs), A=A + B * y1, B=0., h=h)
    ctx.eq(y1, y2, 'the new value satisfies the implicit relation', scale=lambda: (1 + h) * (abs(y) + abs(A) + sum(abs(f) for f in fs)) * 1e3)


@case()
def equilibrium_is_fixed(ctx):
    """if the slope vanished in the past and A + B y = 0, nothing moves"""
    repo(ctx)
    from common.integrators import adams_moulton_solver, implicit_euler
    n = ctx.pick('history', [0, 1, 2, 4, 6])
    h = ctx.pos('h')
    B, y = ctx.real('B', hi=0), ctx.real('y')
    ctx.eq(adams_moulton_solver(y=y, fs=[0.] * n, A=-B * y, B=B, h=h), y, 'a stationary state stays (Adams-Moulton)')
    ctx.eq(implicit_euler(y=y, t=0., A=-B * y, B=B, h=h), y, 'a stationary state stays (implicit Euler)')


@case()
def implicit(ctx):
    repo(ctx)
    from common.integrators import implicit_euler
    h = ctx.pos('h')
    A, B, y, t = ctx.real('A'), ctx.real('B', hi=0), ctx.real('y'), ctx.real('t')
    y1 = implicit_euler(y=y, t=t, A=A, B=B, h=h)
    ctx.eq(y1 - y, h * (A + B * y1), 'implicit Euler solves y1 = y + h (A + B y1)', scale=lambda: (abs(y) + abs(A)) * (1 + h) * 10)
    # positive sources and damping keep the solution positive for any step
    ctx.assume(ctx.all(A >= 0, y >= 0))
    ctx.ge(y1, 0, 'damped step with positive source stays positive')


@case()
def explicit(ctx):
    """Euler is exact for a constant slope, Heun for a slope linear in time and second order in y"""
    repo(ctx)
    from common.integrators import euler_correction, heun_correction
    h = ctx.pos('h')
    y, t = ctx.real('y'), ctx.real('t')
    a, b, c = ctx.real('a'), ctx.real('b'), ctx.real('c')
    f = lambda t_, y_: a + b * t_ + c * y_
    ctx.eq(euler_correction(y=y, t=t, f=f, h=h), h * (a + b * t + c * y), 'Euler step', scale=lambda: (abs(a) + abs(b * t) + abs(c * y)) * h * 10)
    k1 = a + b * t + c * y
    k2 = a + b * (t + h) + c * (y + h * k1)
    ctx.eq(heun_correction(y=y, t=t, f=f, h=h), h * (k1 + k2) / 2, 'Heun step averages the slopes at both ends',
           scale=lambda: (abs(a) + abs(b * t) + abs(c * y) + abs(b) * h) * h * (1 + abs(c) * h) * 10)


@case()
def vectors(ctx):
    """the schemes act on each momentum separately"""
    repo(ctx)
    import numpy
    from common.integrators import adams_moulton_solver, adams_bashforth_correction
    n = ctx.pick('history', [0, 1, 2, 3])
    h = ctx.pos('h')
    dt = object if ctx.symbolic else float
    arr = lambda name: numpy.array([ctx.real('%s%d' % (name, i)) for i in range(3)], dtype=dt)
    neg = numpy.array([ctx.real('B%d' % i, hi=0) for i in range(3)], dtype=dt)
    y, A = arr('y'), arr('A')
    fs = [arr('f%d_' % k) for k in range(n)]
    got = adams_moulton_solver(y=y, fs=list(fs), A=A, B=neg, h=h)
    for i in range(3):
        one = adams_moulton_solver(y=y[i], fs=[f[i] for f in fs], A=A[i], B=neg[i], h=h)
        ctx.eq(got[i], one, 'Adams-Moulton acts pointwise')
    ab = adams_bashforth_correction(fs=fs + [A], h=h)
    for i in range(3):
        ctx.eq(ab[i], adams_bashforth_correction(fs=[f[i] for f in fs] + [A[i]], h=h), 'Adams-Bashforth acts pointwise')
