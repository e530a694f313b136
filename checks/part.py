"""Particles for the Python-level checks."""
from .base import repo


class Box(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def array(ctx, values):
    import numpy
    return numpy.array(list(values), dtype=object if ctx.symbolic else float)


def grid(n, top=1.):
    from common import LinearSpacedGrid
    return LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=top)


def particle(ctx, n=3, top=1., eta=1, **kw):
    repo(ctx)
    from common import statistics
    from particles import Particle
    settings = dict(name='X', symbol='X', mass=0., dof=2, Q=0, majorana=False, statistics=statistics.FERMION if eta == 1 else statistics.BOSON,
                    grid=grid(n, top), decoupling_temperature=1.)
    settings.update(kw)
    p = Particle(**settings)
    p.params = Box(h=1., a=1., aT=1., T=1., m=1., x=1., H=1., t=1., a_ini=1.)
    p.T = p.aT = 0.5
    p.t_decoupling = 0
    return p


def kinds():
    from interactions.four_particle.cpp.integral import CollisionIntegralKind
    return CollisionIntegralKind
