"""Contracts of sprinkling (C17): points inside the shape, intensity accounting."""
import math
from .common import *
from .embedded import SPR, EMB, _create, make_causet, NEW, WHY, consistent, others_keep, new_events_of, orderly
from .shapes import BASE, Shape, NAMES, DIM, PARAMS

_create('SprinkledCauset', SPR)


class Stream:
    """An adversarial random stream: values at and near the ends of their ranges."""

    def __init__(self, rng):
        self.r, self.count = rng, None

    def one(self, low, high):
        u = self.r.choice([0.0, 0.0, 1 - 2**-53, 0.5, self.r.random(), self.r.random(),
                           self.r.random()])
        return low + (high - low) * u

    def uniform(self, low=0.0, high=1.0, size=None):
        import numpy as np
        low, high = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        sh = np.broadcast(low, high).shape if size is None else size
        lo, hi = np.broadcast_to(low, sh), np.broadcast_to(high, sh)
        out = np.empty(sh)
        for i in np.ndindex(*out.shape):
            out[i] = self.one(lo[i], hi[i])
        return out if out.shape else float(out)

    def standard_normal(self, size=None):
        import numpy as np
        n = 1
        for k in (size or ()):
            n *= k
        x = [self.r.choice([0.0, 1.0, self.r.gauss(0, 1), self.r.gauss(0, 1), 1e-3, -5.0])
             for _ in range(n)]
        if n and not any(x):
            x[self.r.randrange(n)] = self.r.choice([1.0, -0.5])
        return np.array(x).reshape(size) if size is not None else x[0]

    def poisson(self, lam=1.0, size=None):
        self.count = 0 if lam == 0 else self.r.choice([0, 1, 2, 3, int(lam), int(lam) + 1])
        self.lam = lam
        return self.count


def sym_stream(eng, name):
    import z3
    from pyvc.engine import ObjV, Builtin
    o = ObjV(eng, 'Generator')

    def poisson(e, a, k):
        o.attrs['__lam'] = e.to_z3num(a[0] if a else k['lam'], True)
        o.attrs['__count'] = e.fresh('poisson', z3.IntSort())
        e.assume(o.attrs['__count'] >= 0)
        return o.attrs['__count']
    o.attrs['poisson'] = Builtin('poisson', poisson)
    return o


def sym_number(sort):
    def f(eng, name):
        import z3
        return z3.Int('a_' + name) if sort == 'int' else z3.Real('a_' + name)
    return f


RNG = ('sym', 'stream', sym_stream, lambda rng, w: Stream(rng))
COUNT = ('sym', 'count', sym_number('int'), lambda rng, w: rng.choice([0, 1, 1, 2, 3, 3, 5, -1]))


def inside(s, x, eps):
    """x is in the shape s up to eps, outside its empty interior up to eps"""
    d = s.dim
    y = [x[i] - s.middle(i) for i in range(d)]
    t, sp = abs(y[0]), math.sqrt(sum(v * v for v in y[1:]))
    R, h = s.radius, s.hollow
    if s.name in ('cube', 'cuboid'):
        return all(abs(v) <= s.half(i) + eps for i, v in enumerate(y))
    if s.name == 'ball':
        r = math.sqrt(sum(v * v for v in y))
    elif s.name == 'bicone':
        r = t + sp
    else:
        if d == 1:
            return t <= s.duration / 2 + eps
        return t <= s.duration / 2 + eps and h * R - eps <= sp <= R + eps
    return h * R - eps <= r <= R + eps


@contract('sprinkledcauset.sample', 'C17', dict(BASE, count=COUNT, rng=RNG))
class _:
    opts = dict(world=False, client='''
def sample(dim, name, kw, count, rng):
    C = SprinkledCauset(dim=dim)
    return C._sprinkle_coords(count, CoordinateShape(dim, name, **kw), rng)
''')
    bounded = 'the geometry of the sampled points is evaluated at run time only'

    def requires(c):
        s = Shape(c)
        return [('a spacetime of this dimension', c.a.dim >= 1),
                ('hollow line', not (s.dim == 1 and s.name == 'cylinder' and s.hollow > 0))]

    def raises(c):
        L, s = c.L, Shape(c)
        return [('ValueError', L.Or(c.a.count < 0, L.Not(s.valid())))]

    def ensures(c):
        s, X = Shape(c), c.raw
        size = max([s.radius, s.duration / 2] + [abs(s.middle(i)) + s.half(i)
                                                 for i in range(s.dim)])
        eps = 1e-5 * (1 + size)
        return [('one row for each point', X.shape == (c.a.count, c.a.dim)),
                ('finite', all(math.isfinite(v) for r in X for v in r)),
                ('inside the shape', all(inside(s, [float(v) for v in r], eps) for r in X))]


# --------------------------------------------------- sprinkling and intensity
def box(rng, w):
    """a shape of the dimension of the causet, inside the domain of its spacetime"""
    from causets.shapes import CoordinateShape
    d = w.dim
    if w.kind in ('BH', 'Schw'):
        return CoordinateShape(2, 'cuboid', edges=[1.0, 0.4], center=[0.0, 0.8])
    if w.kind == 'periodic':
        return CoordinateShape(d, 'cube', edge=2.0, center=[2.0] * d)
    return CoordinateShape(d, rng.choice(['cube', 'ball', 'bicone', 'cylinder']), **(
        {'edge': 1.0} if False else {}))


def sym_shape(eng, name):
    import z3
    from pyvc.engine import ObjV
    return ObjV(eng, 'CoordinateShape', {'_dim': z3.Int('dim_' + name)})


SHAPE = ('sym', 'shape', sym_shape, box)


def fresh_points(eng, c):
    """the sampled points, with the arguments they were asked for"""
    import z3
    from pyvc.engine import SymMat
    I = z3.IntSort()
    F = eng.fresh_fun('sampled', I, I, z3.RealSort())
    M = SymMat(eng, eng.fresh('rows', I), eng.fresh('cols', I),
               lambda i, j: F(eng.as_term(i), eng.as_term(j)), esort=z3.RealSort())
    eng.samples.append((M, c.vals['shape'], c.vals['rng']))
    return M


@contract('SprinkledCauset._sprinkle_coords', 'C17', dict(
    self=SPR, count=COUNT, shape=SHAPE, rng=RNG))
class _:
    opts = {'world': False}
    bounded = 'the geometry of the sampled points is evaluated at run time only'
    result_kind = fresh_points

    def raises(c):
        return [('ValueError', c.vals['count'] < 0)]

    def ensures(c):
        if c.symbolic:
            M = c.result
            return [('one row for each point', c.L.And(M.rows == c.a.count, M.cols >= 0))]
        X, s = c.raw, shape_of(c)
        return [('one row for each point', X.shape == (c.a.count, c.vals['self'].Dim)),
                ('inside the shape', all(inside(s, [float(v) for v in r], 1e-4) for r in X))]


def amount_of(c, name):
    return c.vals[name] if not c.symbolic or name == 'intensity' else c.R(c.vals[name])


def grown(c, n):
    S, L, h = c.a.self.events, c.L, c.old
    e = dict(NEW, havoc_events=('self',), attrs={('self', '_intensity'): c.a.self._intensity + n})
    e.update(others_keep(c, lambda e: L.And(h.alloc(e), L.Not(S.has(e)))))
    return e


def shape_of(c):
    """the shape of the arguments, as the contracts of shapes see it"""
    shape = c.vals['shape'] if c.vals['shape'] is not None else c.vals['self']._shape

    class P(Shape):
        def __init__(self):
            p = shape._params
            self.c, self.dim, self.name = c, shape.Dim, shape.Name
            self.center = type('S', (), {'get': staticmethod(lambda i: float(shape.Center[i]))})
            self.radius = float(p.get('radius', 1.0))
            self.hollow = float(p.get('hollow', 0.0))
            self.duration = float(p.get('duration', 2.0 * self.radius))
            self.edge_ = float(p.get('edge', 1.0))
            self.edges = None if 'edges' not in p else type('S', (), {
                'get': staticmethod(lambda i: float(p['edges'][i]))})
    return P()


def sprinkled(c, n):
    """n new events, with coordinates inside the shape, added and related"""
    from .embedded import related
    R, old = c.result, c.a.self.events
    now = c.post_args['self'].events
    s, ev = shape_of(c), [e for e in c.U if R.has(e)]
    return [('exactly the requested number of new events', len(ev) == n and
             not any(c.old.alloc(e) for e in ev)),
            ('all are added', (old | R).eq(now)),
            ('inside the shape', all(len(c.new.g(e, 'coords')) == s.dim and inside(
                s, c.new.g(e, 'coords'), 1e-4) for e in ev)),
            ('consecutive labels', sorted(c.new.label(e) for e in ev) ==
             list(range(old.card() + 1, old.card() + n + 1))),
            ('related by the spacetime', related(c, now, c.new))]


def _sprinkle(name, amount, kind):
    @contract('SprinkledCauset.' + name, 'C17', dict(
        self=SPR, rng=RNG, shape=['none', SHAPE], **{amount: kind}))
    class _:
        opts = {'world': False, 'orderly': orderly}
        result_kind = 'set'

        def requires(c):
            from .embedded import order_of_points
            L, h, S = c.L, c.old, c.a.self.events
            closed = [('no relations to events outside', L.forall2(lambda a, b: L.Implies(
                h.prec(b).has(a), L.Iff(S.has(a), S.has(b)))))]
            if c.symbolic:
                return closed + [('embedded', S.all(lambda e: h.has_coords(e)))] + \
                    consistent(c, L.S(lambda x: L.Or(S.has(x), L.Not(h.alloc(x)))))
            return closed + [('verdicts form an order', order_of_points(c, S, []))]

        def raises(c):
            return [('ValueError', c.vals[amount] < 0)]

        def effect(c):
            if not c.symbolic and c.vals[amount] < 0:
                return {}
            return grown(c, amount_of(c, amount))

        def ensures(c):
            L = c.L
            n, lam = (c.vals[amount], None) if name == 'sprinkle' else drawn(c)
            mean = [] if lam is None else [('mean of the Poisson number', lam == c.vals[amount])]
            if not c.symbolic:
                return sprinkled(c, n) + mean
            X, shape, rng = c.sampled()
            wanted = c.vals['shape'] or c.vals['self'].attrs['_shape']
            S, now = c.a.self.events, c.post_args['self'].events
            return [('requested number', X.rows == n),
                    ('sampled in the shape', L.B(shape is None or shape is wanted)),
                    ('sampled from the stream', L.B(rng is None or rng is c.vals['rng'])),
                    ('all are added', (S | c.result).eq(now))] + mean + \
                new_events_of(c, X, None, L.true)


def drawn(c):
    """the number drawn by the random stream, and the mean it was asked for"""
    r = c.vals['rng']
    if not c.symbolic:
        return r.count, r.lam
    if not c.proving:
        r.attrs.update({'__count': c.eng.fresh('poisson', c.eng.as_term(0).sort()),
                        '__lam': c.vals['intensity']})
    return r.attrs.get('__count', -1), r.attrs.get('__lam', -1)


_sprinkle('sprinkle', 'count', COUNT)
_sprinkle('intensify', 'intensity', ('sym', 'float', sym_number('real'), lambda rng, w: rng.choice(
    [0.0, 1.0, 2.5, 0.25, -0.5, -1e-9, 3.0])))


def _member(rng, w):
    S = w.embedded
    ev = sorted(S._events, key=lambda e: (e.Coordinates, str(e.Label)))
    more = []
    from concrete.world import real
    for _ in range(rng.choice([0, 0, 1, 2])):
        more.append(real()(label='new', coordinates=[0.0] * w.dim))
    return {e for e in ev if rng.random() < 0.4} | set(more)


def sym_evset(eng, name):
    import z3
    from pyvc.engine import SetBox, Ev
    F = z3.Function('a_' + name, Ev, z3.BoolSort())
    x = z3.Const('e_' + name, Ev)
    eng.assume(z3.ForAll([x], z3.Implies(F(x), eng.heap['alloc'](x))))
    return SetBox(eng, lambda x: F(x), owner='arg')


MEMBERS = ('sym', 'set', sym_evset, _member)


def _member_change(name, change, law):
    @contract('SprinkledCauset.' + name, 'C17', dict(self=SPR, eventSet=MEMBERS, unlink='bool'))
    class _:
        opts = {'world': False}

        def effect(c):
            L, h = c.L, c.old
            A = c.asset(c.a.eventSet)
            S = change(c.a.self.events, A)
            keep = lambda flag: lambda e: L.And(flag(e), L.Not(L.And(c.a.unlink, touched(
                c, name, A).has(e))))
            return {'events': {'self': S}, 'has_lprec': keep(h.has_lprec),
                    'has_lsucc': keep(h.has_lsucc),
                    'attrs': {('self', '_intensity'): law(c, c.a.self._intensity, S)}}


def touched(c, name, A):
    return (c.a.self.events | A) if name == 'add' else (c.a.self.events - A)


_member_change('add', lambda s, a: s | a,
               lambda c, i, S: i + c.R(S.card()) - c.R(c.a.self.events.card()))
_member_change('discard', lambda s, a: s - a, lambda c, i, S: c.L.If(
    c.eqn(c.a.self.events.card(), 0), lambda: i,
    lambda: i * (c.R(S.card()) / c.R(c.a.self.events.card()))))


@contract('sprinkledcauset.new_sprinkle', 'C17', dict(
    card=COUNT, intensity=('sym', 'float', None, lambda rng, w: rng.choice(
        [0.0, 2.5, 1.0, -1.0, 0.0])), dim=('sym', 'dim', None, lambda rng, w: rng.choice(
            [1, 2, 3])), shape=[('lit', 'cube'), ('lit', 'bicone'), ('lit', 'ball'), 'none']))
class _:
    opts = dict(world=False, client='''
def new_sprinkle(card, intensity, dim, shape):
    C = SprinkledCauset(card=card, intensity=intensity, dim=dim, shape=shape)
    return C, C.Card, C.Intensity, C.Density, C.Shape.Volume, C.LengthScale if C.Intensity > 0 else 0.0, C.Dim
''')
    bounded = WHY
    hyps = set()

    def effect(c): return NEW

    def raises(c):
        return [('ValueError', c.L.And(c.a.card <= 0, c.a.intensity < 0))]

    def ensures(c):
        a = c.a
        C, card, inten, dens, vol, scale, dim = c.raw
        want = float(a.card) if a.card > 0 else a.intensity
        return [('number of events', card == a.card if a.card > 0 else card >= 0),
                ('intensity', inten == want), ('density', c.close(dens, want / vol)),
                ('length scale', want == 0 or c.close(scale, (vol / want) ** (1 / dim))),
                ('dimension', dim == a.dim)]
