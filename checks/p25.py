"""P25: settings and initial conditions."""
import os
from .base import Check, repo

CHECK = Check(
    'P25', 'Settings mean what their text says, and missing steps are refused',
    functions=['environment.py: get', 'common/__init__.py: Params.__init__, infer'],
    bounds='all texts of up to 6 printable ASCII characters for settings that are on or off; listed texts for numbers (the conversion to a number is that of Python and is not encoded); all initial temperatures and steps',
    outside='other characters, longer texts')
case = CHECK.case

OFF = ['', 'false', 'f', '0', '-1']
NUMBERS = {
    'GAUSS_LEGENDRE_ORDER': 100, 'GAUSS_LAGUERRE_ORDER': 100, 'MOMENTUM_SAMPLES': 401, 'MAX_MOMENTUM_MEV': 100, 'MAX_SCALE_FACTOR': 10,
    'FOUR_PARTICLE_GRID_RESOLUTION': 0.24999, 'REGIME_SWITCHING_FACTOR': 1e3,
}
SWITCHES = {
    'SPLIT_COLLISION_INTEGRAL': True, 'FIXED_ORDER_1D_QUADRATURE': True, 'LOGARITHMIC_TIMESTEP': True, 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION': True,
    'ADAMS_MOULTON_DISTRIBUTION_CORRECTION': False, 'NORMAL_HIERARCHY_NEUTRINOS': True, 'SIMPSONS_INTEGRATION': False, 'SIMPSONS_NONEQ_PARTICLES': True,
    'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES': True,
}


class Text(str):
    """a text of unknown printable characters"""
    __hash__ = None

    def __new__(cls, codes, ctx):
        self = str.__new__(cls, '?' * len(codes))
        self.codes, self.ctx = list(codes), ctx
        return self

    def _same(self, other):
        if not isinstance(other, str):
            return False
        codes = other.codes if isinstance(other, Text) else [ord(c) for c in other]
        if len(codes) != len(self.codes):
            return False
        return bool(self.ctx.all(*[a == b for a, b in zip(self.codes, codes)])) if codes else True

    def __eq__(self, other):
        return self._same(other)

    def __ne__(self, other):
        return not self._same(other)

    def _shift(self, lo, hi, by):
        return Text([c + by if bool(self.ctx.all(c >= lo, c <= hi)) else c for c in self.codes], self.ctx)

    def lower(self):
        return self._shift(65, 90, 32)
    casefold = lower

    def upper(self):
        return self._shift(97, 122, -32)

    def capitalize(self):
        return Text(Text(self.codes[:1], self.ctx).upper().codes + Text(self.codes[1:], self.ctx).lower().codes, self.ctx)

    def strip(self, *a):
        codes = list(self.codes)
        while codes and codes[0] == 32:
            codes.pop(0)
        while codes and codes[-1] == 32:
            codes.pop()
        return Text(codes, self.ctx)

    def __str__(self):
        return self

    def __getitem__(self, i):
        got = self.codes[i]
        return Text(got if isinstance(i, slice) else [got], self.ctx)

    def __iter__(self):
        return iter([Text([c], self.ctx) for c in self.codes])

    def startswith(self, prefix):
        return self[:len(prefix)] == prefix

    def endswith(self, suffix):
        return len(suffix) <= len(self) and self[len(self) - len(suffix):] == suffix


class Override(object):
    """the environment with one more variable"""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def __enter__(self):
        self.kept = os.environ
        env = dict(self.kept)
        env.pop(self.name, None)
        if self.value is not None:
            env[self.name] = self.value
        os.environ = env

    def __exit__(self, *a):
        os.environ = self.kept


def text(ctx, n):
    codes = []
    for i in range(n):
        c = ctx.real('c%d' % i, lo=32, hi=126)
        if ctx.symbolic:
            ctx.assume(ctx.any(*[c == k for k in range(32, 127)]))
        codes.append(c)
    return Text(codes, ctx) if ctx.symbolic else ''.join(chr(int(round(c))) for c in codes), codes


def switch(ctx, n):
    """on/off settings, for every text"""
    repo(ctx)
    import environment
    names = sorted(SWITCHES)
    name = ctx.pick('setting', ['LOGARITHMIC_TIMESTEP', 'ADAMS_MOULTON_DISTRIBUTION_CORRECTION', 'NORMAL_HIERARCHY_NEUTRINOS']) if n else ctx.pick('setting', names)
    value, codes = text(ctx, n)
    some, every = (ctx.any, ctx.all) if ctx.symbolic else (lambda *a: any(a), lambda *a: all(a))
    off = some(*[every(*([some(c == ord(w), c == ord(w.upper())) for c, w in zip(codes, word)] + [True])) for word in OFF if len(word) == n] + [False])
    with Override(name, value):
        got = environment.get(name)
    ctx.true(isinstance(got, bool), 'settings that are on or off are truth values')
    if off:
        ctx.true(not got, 'empty, false, f, 0 and -1, in any capitalisation, switch a setting off')
    else:
        ctx.true(bool(got), 'any other text switches a setting on')


for n in range(6):
    case('switch_%d' % n, args=(n,), weight=1 + n)(switch)
case('switch_6', args=(6,), tier='thorough', budget=600)(switch)


@case()
def defaults(ctx):
    """without a variable of its name a setting has its documented value"""
    repo(ctx)
    import environment
    name = ctx.pick('setting', sorted(SWITCHES) + sorted(NUMBERS))
    with Override(name, None):
        got = environment.get(name)
    want = SWITCHES.get(name, NUMBERS.get(name))
    ctx.true(type(got) is type(want), 'settings have the type of their default')
    if isinstance(want, bool):
        ctx.true(got == want, 'settings without a variable have their default')
    else:
        ctx.eq(got, want, 'settings without a variable have their default')
    with Override('UNRELATED', '1'):
        with Override(name, None):
            ctx.true(environment.get(name) == got, 'settings do not depend on other variables')


@case()
def numbers(ctx):
    """numeric settings are numbers, of the type of their default"""
    repo(ctx)
    import environment
    name = ctx.pick('setting', sorted(NUMBERS))
    whole = isinstance(NUMBERS[name], int)
    value = ctx.pick('text', ['7', '12', '300'] if whole else ['0.5', '7', '2e2', '1e-3'])
    with Override(name, value):
        got = environment.get(name)
    ctx.true(type(got) is (int if whole else float), 'settings have the type of their default')
    ctx.eq(got, float(value), 'settings have the value that was given')


def initial(ctx, log):
    """a step of the kind that is used has to be given"""
    repo(ctx)
    from common import Params
    T = ctx.pos('T')
    kw = {}
    if ctx.flag('dy'):
        kw['dy'] = ctx.pos('dy')
    if ctx.flag('dx'):
        kw['dx'] = ctx.pos('dx')
    if ctx.flag('m'):
        kw['m'] = ctx.pos('m')
    needed = 'dy' if log else 'dx'
    try:
        p = Params(T=T, **kw)
    except Exception:
        ctx.true(needed not in kw, 'parameters with a step are accepted')
        return
    ctx.true(needed in kw, 'parameters without a step are refused')
    m = kw.get('m', 1e-3)
    ctx.eq(p.m, m, 'the reference mass is 1 MeV unless given')
    ctx.eq(p.T, T, 'the temperature is the one that was given')
    ctx.eq(p.aT, m, 'initially aT is the reference mass')
    ctx.eq(p.a * T, m, 'initially aT is the reference mass')
    ctx.eq(p.h, kw[needed], 'the step is the one that was given')
    ctx.eq(p.dx, kw['dx'] if not log else m / T * m * kw['dy'], 'the step of the scale factor')
    ctx.eq(p.t, 0., 'time is zero before it is initialised')
    ctx.true(p.rho is None, 'the density is not known before it is computed')


case('initial_log', args=(True,), env={'LOGARITHMIC_TIMESTEP': 'True'})(initial)
case('initial_lin', args=(False,), env={'LOGARITHMIC_TIMESTEP': 'False'})(initial)
