"""Contracts of coordinate shapes (C18): clients create a shape and query it."""
import math
from .common import *

NAMES = [('lit', n) for n in ('ball', 'bicone', 'diamond', 'cylinder', 'cube', 'cuboid', 'sphere')]


def size(rng, w):
    return rng.choice([1.0, 2.0, 0.5, rng.uniform(0.1, 4), rng.uniform(0.1, 4), 0.0, -1.0]
                      if rng.random() < 0.2 else [1.0, 2.0, 0.5, rng.uniform(0.1, 4)])


def sym_real(eng, name):
    import z3
    return z3.Real('a_' + name)


REAL = ('sym', 'float', sym_real, size)
HOLLOW = ('sym', 'fraction', sym_real, lambda rng, w: rng.choice(
    [0.0, 0.5, 0.25, rng.uniform(0, 0.95), rng.uniform(0, 0.95), 1.0, -0.1, 1.5]))


def dims(rng, w):
    w.dim = rng.choice([1, 2, 2, 3, 3, 4, 5, 0, -1] if rng.random() < 0.2 else [1, 2, 2, 3, 4, 5])
    return w.dim


def sym_dim(eng, name):
    import z3
    return z3.Int('a_' + name)


DIM = ('sym', 'int', sym_dim, dims)


def vector(pos):
    def f(rng, w):
        n = max(0, getattr(w, 'dim', 2))
        if rng.random() < 0.05:
            n += rng.choice([1, -1])
        return [float(size(rng, w)) if pos else rng.choice([0.0, rng.uniform(-3, 3)])
                for _ in range(max(0, n))]

    def sym(eng, name):
        import z3
        from pyvc.engine import SymList
        n = z3.Int('n_' + name)
        eng.assume(n >= 0)
        G = z3.Function('a_' + name, z3.IntSort(), z3.RealSort())
        return SymList(eng, n, lambda i: G(eng.as_term(i)), esort=z3.RealSort(), owner='arg')
    return ('sym', 'floats', sym, f)


CENTER, EDGES = vector(False), vector(True)
PARAMS = [('kwargs', 'default', {}),
          ('kwargs', 'radius', {'radius': REAL}),
          ('kwargs', 'radius+hollow+center', {'radius': REAL, 'hollow': HOLLOW, 'center': CENTER}),
          ('kwargs', 'all', {'radius': REAL, 'hollow': HOLLOW, 'duration': REAL, 'edge': REAL,
                             'edges': EDGES, 'center': CENTER})]


class Shape:
    """Parameters of the shape that is specified by the arguments."""

    def __init__(self, c):
        a, L = c.a, c.L
        self.c, self.dim = c, a.dim
        self.name = 'bicone' if a.name == 'diamond' else a.name
        kw = a.kw
        self.center = kw.get('center')
        self.radius = kw.get('radius', 1.0)
        self.hollow = kw.get('hollow', 0.0)
        self.duration = kw.get('duration', 2.0 * self.radius)
        self.edge_ = kw.get('edge', 1.0)
        self.edges = kw.get('edges')

    def valid(self):
        c, L = self.c, self.c.L
        out = [self.dim >= 1, self.name in ('ball', 'bicone', 'cylinder', 'cube', 'cuboid')]
        if self.center is not None:
            out.append(c.eqn(self.center.len, self.dim))
        if self.name in ('ball', 'bicone', 'cylinder'):
            out += [self.radius > 0, 0 <= self.hollow, self.hollow < 1]
        if self.name == 'cylinder':
            out.append(self.duration > 0)
        if self.name == 'cube':
            out.append(self.edge_ > 0)
        if self.name == 'cuboid' and self.edges is not None:
            out += [c.eqn(self.edges.len, self.dim),
                    c.ints(0, self.edges.len, lambda i: self.edges.get(i) > 0)]
        return L.And(*out)

    def middle(self, i):
        return 0.0 if self.center is None else self.center.get(i)

    def half(self, i):
        """half of the extent in dimension i"""
        L = self.c.L
        if self.name == 'cube':
            return self.edge_ / 2
        if self.name == 'cuboid':
            return 0.5 if self.edges is None else self.edges.get(i) / 2
        if self.name == 'cylinder':
            return L.If(self.c.eqn(i, 0), self.duration / 2, self.radius)
        return self.radius

    def ball(self, n, d):
        """volume of the n-ball of radius 1, times radius**d without the hollow part"""
        c = self.c
        x = c.R(n) / 2
        return c.fn('pow', c.pi, x) / c.fn('gamma', x + 1) * (
            c.fn('pow', self.radius, c.R(d)) - c.L.If(
                self.hollow > 0, lambda: c.fn('pow', self.hollow * self.radius, c.R(d)),
                lambda: 0.0))

    def volume(self):
        c, d = self.c, self.dim
        if self.name == 'ball':
            return self.ball(d, d)
        if self.name == 'cylinder':
            return self.ball(d - 1, d - 1) * self.duration
        if self.name == 'bicone':
            return self.ball(d - 1, d) * 2 / c.R(d)
        if self.name == 'cube':
            return c.fn('pow', self.edge_, c.R(d))
        return 1.0 if self.edges is None else c.prod(0, d, lambda i: self.edges.get(i))


def client(name, args, expr):
    return dict(world=False, client='''
def %s(dim, name, kw%s):
    s = CoordinateShape(dim, name, **kw)
    return %s
''' % (name, args, expr))


BASE = dict(dim=DIM, name=NAMES, kw=PARAMS)


@contract('shapes.new_shape', 'C18', dict(BASE))
class _:
    opts = client('new_shape', '', '(s.Dim, s.Name, s.Center)')

    def raises(c):
        return [('ValueError', c.L.Not(Shape(c).valid()))]

    def ensures(c):
        s = Shape(c)
        d, n, m = c.items(c.result, 3)
        return [('dimension', c.eqn(d, s.dim)), ('name', c.same(n, s.name)),
                ('center', c.L.And(c.eqn(m.len, s.dim), c.ints(0, s.dim, lambda i: c.near(
                    m.get(i), s.middle(i)))))]


@contract('shapes.limits', 'C18', dict(BASE, i='int'))
class _:
    opts = client('limits', ', i', 's.Limits(i)')

    def raises(c):
        return [('ValueError', c.L.Or(c.L.Not(Shape(c).valid()), c.a.i < 0, c.a.i >= c.a.dim))]

    def ensures(c):
        s, i = Shape(c), c.a.i
        lo, hi = c.items(c.result, 2)
        return [('lower limit', c.near(lo, s.middle(i) - s.half(i))),
                ('upper limit', c.near(hi, s.middle(i) + s.half(i)))]


@contract('shapes.volume', 'C18', dict(BASE))
class _:
    opts = client('volume', '', '(s.Volume, s.Volume)')

    def requires(c):
        L, s = c.L, Shape(c)
        return [('a hollow line has no volume', L.Not(L.And(
            s.name == 'cylinder', c.eqn(s.dim, 1), s.hollow > 0)))]

    def raises(c):
        return [('ValueError', c.L.Not(Shape(c).valid()))]

    def ensures(c):
        v, w = c.items(c.result, 2)
        return [('volume', c.near(v, Shape(c).volume())), ('asked again', c.eqn(v, w))]


def some_dims(rng, w):
    n = max(1, getattr(w, 'dim', 2))
    d = list(range(n))
    rng.shuffle(d)
    return d[:rng.randint(1, n)]


def sym_dims(eng, name):
    import z3
    from pyvc.engine import SymList
    n, i = z3.Int('n_' + name), z3.Int('i_' + name)
    G = z3.Function('a_' + name, z3.IntSort(), z3.IntSort())
    eng.assume(n >= 1)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
        0 <= G(i), G(i) < z3.Int('a_dim')))))
    return SymList(eng, n, lambda i: G(eng.as_term(i)), esort=z3.IntSort(), owner='arg')


@contract('shapes.max_edge_half', 'C18', dict(BASE, dims=('sym', 'dimensions', sym_dims, some_dims)))
class _:
    opts = client('max_edge_half', ', dims', 's.MaxEdgeHalf(dims)')

    def raises(c):
        return [('ValueError', c.L.Not(Shape(c).valid()))]

    def ensures(c):
        s, d, r = Shape(c), c.a.dims, c.result
        return [('not less than any half extent', c.ints(0, d.len, lambda k: c.upto(
            s.half(d.get(k)), r))),
                ('one of the half extents', c.some_int(0, d.len, lambda k: c.near(
                    s.half(d.get(k)), r)))]
