"""Driving the compiled collision integrals through the quadrature hook."""
from .base import four, three

KINDS = ['Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation', 'F_decay']


def species4(m, eta, mass, grid, table, eq, T):
    return m.particle_t(eta=int(eta), m=mass, grid=m.grid_t(grid=grid, distribution=table), in_equilibrium=int(eq), T=T)


def species3(m, eta, mass, grid, table, eq, T):
    return m.particle_t3(eta=int(eta), m=mass, grid=m.grid_t3(grid=grid, distribution=table), in_equilibrium=int(eq), T=T)


def kind_of(m, n, name):
    return getattr(m.CollisionIntegralKind if n == 4 else m.CollisionIntegralKind_3, name)


class Hook(object):
    """answers the quadratures of one call; records their bounds"""

    def __init__(self, module, fn):
        self.module, self.fn = module, fn

    def __enter__(self):
        self.module._symx_set_hook(self.fn)

    def __exit__(self, *a):
        self.module._symx_set_hook(None)


def integrand4(m, p0, p1, p2, reaction, Ms, kind, bounds=(0., 10., 0., 10., 10.), stepsize=1.):
    """the integrand of the four-particle collision integral at given momenta; also the integration bounds"""
    rec = []

    def hook(f, a, b):
        depth = len(rec)
        rec.append((a, b))
        return f(p1 if depth == 0 else p2)
    with Hook(m, hook):
        r = m.integration([p0], bounds[0], bounds[1], bounds[2], bounds[3], bounds[4], reaction, Ms, stepsize,
                          kind_of(m, 4, kind))
    return r[0], rec


def integrand3(m, p0, p1, reaction, kind, bounds=(0., 10., 10.), stepsize=1.):
    rec = []

    def hook(f, a, b):
        rec.append((a, b))
        return f(p1)
    with Hook(m, hook):
        r = m.integration_3([p0], bounds[0], bounds[1], bounds[2], reaction, stepsize, kind_of(m, 3, kind))
    return r[0], rec
