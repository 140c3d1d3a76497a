"""Contracts of the causality functions of spacetimes.py (C15).  Each is a client that creates
the spacetime, takes its causality function and asks it for two points in both orders."""
import math
from .common import *
from pyvc import values


def grid(rng):
    return rng.choice([rng.randint(-4, 4) / 2, rng.randint(-4, 4) / 2, rng.uniform(-2, 2)])


def dim_of(lo, hi):
    def f(rng, w):
        w.dim = rng.choice(list(range(lo, hi + 1)) + [2, 3, 3])
        return w.dim

    def sym(eng, name):
        import z3
        n = z3.Int('a_dim')
        eng.assume(n >= 1)
        return n
    return ('sym', 'nat', sym, f)


def point(scale=1.0):
    def f(rng, w):
        import numpy as np
        d = getattr(w, 'dim', 2)
        x = [grid(rng) * scale for _ in range(d)]
        if rng.random() < 0.1:
            x[0] = float(rng.randint(-3, 3))
        prev = getattr(w, 'point', None)
        if prev is not None and rng.random() < 0.15:
            x = list(prev)          # the same point, or the same up to one coordinate
            if rng.random() < 0.5:
                x[rng.randrange(d)] = grid(rng) * scale
        elif prev is not None and rng.random() < 0.3 and d > 1:   # near the light cone
            r = math.sqrt(sum((a - b) ** 2 for a, b in zip(x[1:], prev[1:])))
            x[0] = prev[0] + rng.choice([1, -1]) * r * (1 + rng.choice([1, -1]) * rng.choice(
                [1e-2, 1e-4, 1e-6, 1e-8]))
        w.point = x
        return np.array(x)

    def sym(eng, name):
        import z3
        from pyvc.engine import SymList
        G = z3.Function('a_' + name, z3.IntSort(), z3.RealSort())
        return SymList(eng, z3.Int('a_dim'), lambda i: G(eng.as_term(i)), kind='array',
                       esort=z3.RealSort(), owner='arg')
    return ('sym', 'point', sym, f)


POINT = point()
TOL = 4e-12      # of the squared distance; the code allows rounding errors of 1e-12


def square(x):
    return x * x


def both(c, causal, forward, apart, exact=True):
    """verdicts for (x, y) and (y, x); causal: (related for sure, possibly related)"""
    L, r = c.L, c.items(c.result, 4)
    sure, maybe = causal
    rel = L.Or(r[0], r[1])
    return [('never both', L.Not(L.And(r[0], r[1]))),
            ('related inside the light cone', L.Implies(sure, rel)),
            ('unrelated outside of it', L.Implies(rel, maybe)),
            ('direction follows the time order', L.And(
                L.Implies(r[0], forward), L.Implies(r[1], L.Not(forward)))),
            ('swapped points', L.Implies(apart, lambda: L.And(
                L.Iff(r[2], r[1]), L.Iff(r[3], r[0]))))]


FLAT = '''
def verdicts_flat(dim, period, x, y):
    f = FlatSpacetime(dim, period).Causality()
    return tuple(f(x, y)) + tuple(f(y, x))
'''


def periods(rng, w):
    d = getattr(w, 'dim', 2)
    return tuple(rng.choice([0.0, 4.0, 5.0, rng.uniform(4, 7)]) for _ in range(d - 1))


def sym_periods(eng, name):
    import z3
    from pyvc.engine import SymList
    G = z3.Function('a_' + name, z3.IntSort(), z3.RealSort())
    return SymList(eng, z3.Int('a_dim') - 1, lambda i: G(eng.as_term(i)), kind='tuple',
                   esort=z3.RealSort(), owner='arg')


PERIODS = ('sym', 'tuple', sym_periods, periods)
PERIOD = ('sym', 'float', lambda eng, name: __import__('z3').Real('a_' + name),
          lambda rng, w: rng.choice([0.0, 4.0, 6.5, -1.0]))


@contract('spacetimes.verdicts_flat', 'C15', dict(
    dim=dim_of(1, 5), period=[('lit', 0.0), PERIOD, PERIODS], x=POINT, y=POINT))
class _:
    opts = {'world': False, 'client': FLAT}

    def requires(c):
        L, a = c.L, c.a
        out = [('dimension', a.dim >= 1)]
        P = period(c)
        if P is not None:
            out.append(('no further apart than a period', c.ints(1, a.dim, lambda i: L.Implies(
                P(i) > 0, lambda: c.abs(a.y.get(i) - a.x.get(i)) <= P(i)))))
        return out

    def ensures(c):
        L, a = c.L, c.a
        P = period(c)

        def wrapped(i):
            if P is None:
                return a.y.get(i) - a.x.get(i)
            r = c.abs(a.y.get(i) - a.x.get(i))
            return L.If(L.And(P(i) > 0, 2 * r > P(i)), lambda: P(i) - r, lambda: r)
        d2 = c.sum(1, a.dim, lambda i: square(wrapped(i)))
        dt = a.y.get(0) - a.x.get(0)
        t2 = square(dt)
        return both(c, (t2 >= d2, t2 >= d2 - TOL * (1 + d2)), dt >= 0, L.Not(c.eqn(dt, 0)))


def period(c):
    p = c.a.period
    if hasattr(p, 'get'):
        return lambda i: p.get(i - 1)
    if isinstance(p, float) and c.symbolic:
        return None
    return lambda i: p


# ------------------------------------------------------- (Anti-)de Sitter
DS = '''
def verdicts_dS(dim, radius, x, y):
    f = deSitterSpacetime(dim, radius).Causality()
    return tuple(f(x, y)) + tuple(f(y, x))
'''
ADS = DS.replace('deSitter', 'AntideSitter').replace('_dS', '_AdS')
RADIUS = ('sym', 'float', lambda eng, name: __import__('z3').Real('a_' + name),
          lambda rng, w: rng.choice([1.0, 2.0, 0.5, 3.0, -1.0, 0.0, rng.uniform(0.3, 4)]))


def clear(c, d):
    """the sign of d is not a matter of rounding (always so over the reals)"""
    return True if c.symbolic else abs(d) > 1e-9


def embedded(c, anti):
    """squared embedding distance (space minus time) and embedding time difference"""
    a = c.a
    q = a.radius
    d2 = c.sum(1, a.dim, lambda i: square(a.y.get(i) - a.x.get(i)))
    r2 = [c.sum(1, a.dim, lambda i: square(p.get(i))) for p in (a.x, a.y)]
    s, k = ('sin', 'cos') if anti else ('sinh', 'cosh')
    amp = [c.fn('sqrt', q * q + r if anti else q * q - r) for r in r2]
    T = [m * c.fn(s, p.get(0) / q) for m, p in zip(amp, (a.x, a.y))]
    X = [m * c.fn(k, p.get(0) / q) for m, p in zip(amp, (a.x, a.y))]
    dt = T[1] - T[0]
    if anti:
        return d2 - square(dt) - square(X[1] - X[0]), dt
    return d2 + square(X[1] - X[0]) - square(dt), dt


def scale(c):
    return 1 + c.sum(1, c.a.dim, lambda i: square(c.a.x.get(i)) + square(c.a.y.get(i)))


def ds_ensures(anti):
    def ensures(c):
        L, a = c.L, c.a
        r = c.items(c.result, 4)
        if anti:
            inside = True
        else:
            q2 = a.radius * a.radius
            n = [c.sum(1, a.dim, lambda i: square(p.get(i))) for p in (a.x, a.y)]
            inside = L.And(n[0] < q2, n[1] < q2)
        out = [('no relations beyond the horizon', L.Or(inside, L.And(*[L.Not(v) for v in r])))]
        if not c.symbolic and not inside:
            return out

        def body():
            s2, dt = embedded(c, anti)
            if not c.symbolic:
                # the embedding magnifies rounding errors
                big = 1e-9 * (1 + math.exp(2 * abs(a.x.get(0) / a.radius)) + math.exp(
                    2 * abs(a.y.get(0) / a.radius)))
                if abs(dt) < 1e-9 and abs(a.x.get(0) - a.y.get(0)) > 0:
                    return [('skip', True)]
                return both(c, (s2 <= -big, s2 <= big), dt >= 0, abs(dt) > 1e-9)
            return both(c, (s2 <= 0, s2 <= TOL), dt >= 0, L.Not(c.eqn(dt, 0)))
        if not c.symbolic:
            return out + body()
        return out + [(n, L.Implies(inside, f)) for n, f in body()]
    return ensures


def _ds(name, anti, text):
    @contract('spacetimes.' + name, 'C15', dict(dim=dim_of(1, 4), radius=RADIUS, x=POINT, y=POINT))
    class _:
        opts = {'world': False, 'client': text}

        def requires(c):
            if c.symbolic:
                return []
            # far enough from the horizon for the rounding of sums
            if anti or c.a.radius <= 0:
                return []
            q2 = c.a.radius ** 2
            return [('not on the horizon', all(abs(sum(square(v) for v in p.items[1:]) - q2) > 1e-9
                                               for p in (c.a.x, c.a.y)))]

        def raises(c):
            return [('ValueError', c.L.Or(c.a.dim < 2, c.a.radius <= 0))]
        ensures = ds_ensures(anti)


_ds('verdicts_dS', False, DS)
_ds('verdicts_AdS', True, ADS)

# ------------------------------------------------------- black holes
BH = '''
def verdicts_BH(dim, r_S, metric, x, y):
    f = BlackHoleSpacetime(dim, r_S, metric).Causality()
    return tuple(f(x, y)) + tuple(f(y, x))
'''


def bh_point(rng, w):
    import numpy as np
    p = point().__getitem__(3)
    w.dim = 2
    x = p(rng, w)
    if rng.random() < 0.3:
        x[1] = math.copysign(rng.uniform(0.05, 1.5), x[1])
    prev = getattr(w, 'bh', None)
    if prev is not None and rng.random() < 0.6:
        x[1] = math.copysign(x[1], prev[1])
    w.bh = x
    w.point = list(x)
    return x


def sym_bh(eng, name):
    import z3
    from pyvc.engine import SymList
    G = z3.Function('a_' + name, z3.IntSort(), z3.RealSort())
    return SymList(eng, z3.IntVal(2), lambda i: G(eng.as_term(i)), kind='array',
                   esort=z3.RealSort(), owner='arg')


BHPOINT = ('sym', 'point', sym_bh, bh_point)


def rays(c):
    """(earliest time at which the ingoing light ray, earliest/latest time at which the outgoing
    light ray) that start at radius p at time 0 arrive at radius q"""
    rs = c.a.r_S
    k = 2 if c.a.metric == 'Eddington-Finkelstein' else 1
    ln = lambda r: c.fn('log', c.abs((r - rs) / (0.0 - rs)))
    out = lambda p, q: q - p + k * rs * (ln(q) - ln(p))
    if k == 2:
        return lambda p, q: p - q, out
    return (lambda p, q: -out(p, q)), out


@contract('spacetimes.verdicts_BH', 'C15', dict(
    dim=[('lit', 2), ('lit', 1), ('lit', 3)], r_S=RADIUS,
    metric=[('lit', 'Eddington-Finkelstein'), ('lit', 'Schwarzschild'), ('lit', 'Kerr')],
    x=BHPOINT, y=BHPOINT))
class _:
    opts = {'world': False, 'client': BH}

    def requires(c):
        L, a = c.L, c.a
        return [('off the horizon', L.And(*[L.Not(c.eqn(c.abs(p.get(1)), a.r_S)) for p in
                                            (a.x, a.y)]))]

    def raises(c):
        a = c.a
        return [('ValueError', c.L.Or(a.dim != 2, a.r_S <= 0, a.metric == 'Kerr'))]

    def ensures(c):
        L, a = c.L, c.a
        r = c.items(c.result, 4)
        t_in, t_out = rays(c)
        tx, ty, p, q, rs = a.x.get(0), a.y.get(0), c.abs(a.x.get(1)), c.abs(a.y.get(1)), a.r_S
        dt = ty - tx
        S = a.metric == 'Schwarzschild'
        out = [('never both', L.Not(L.And(r[0], r[1]))),
               ('opposite sides are unrelated', L.Implies(a.x.get(1) * a.y.get(1) < 0, L.And(
                   *[L.Not(v) for v in r])))]
        # which point is the earlier one
        if S:
            inner = L.Or(p < rs, q < rs)
            first = L.If(inner, p >= q, dt >= 0)
            apart = L.If(inner, L.Not(c.eqn(p, q)), L.Not(c.eqn(dt, 0)))
        else:
            first = dt >= 0
            apart = L.Not(c.eqn(dt, 0))

        def later(p, q, d):
            """the point at radius q, d later, is in the future cone of the one at radius p"""
            inside = p < rs
            inward = q <= p
            return L.If(inward, lambda: L.And(near(d - t_in(p, q)), L.Implies(inside, lambda: near(
                t_out(p, q) - d))), lambda: L.And(L.Not(inside), near(d - t_out(p, q))))
        if not c.symbolic:
            vals = [dt - t_in(p, q), dt - t_out(p, q), dt + t_in(q, p), dt + t_out(q, p)]
            if any(0 < abs(v) < 1e-9 for v in vals):
                return out
            near = lambda v: v >= 0
        else:
            near = lambda v: v >= 0
        same = L.Not(a.x.get(1) * a.y.get(1) < 0)
        return out + [
            ('earlier event', L.And(L.Implies(r[0], first), L.Implies(r[1], L.Not(first)))),
            ('between the light rays', L.Implies(same, lambda: L.If(
                first, lambda: L.Iff(r[0], later(p, q, dt)),
                lambda: L.Iff(r[1], later(q, p, -dt))))),
            ('swapped points', L.Implies(apart, lambda: L.And(
                L.Iff(r[2], r[1]), L.Iff(r[3], r[0]))))]
