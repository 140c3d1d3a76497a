"""Contracts of calculations.py (C19)."""
from fractions import Fraction
from .common import *
from pyvc import values


def H(c, exact=False):
    """The n-th harmonic number: H(0) = 0, H(k) = H(k-1) + 1/k."""
    def py(n):
        return sum((Fraction(1, k) for k in range(1, n + 1)), Fraction(0)) if exact else \
            float(sum(1.0 / k for k in range(1, n + 1)))
    return c.ghost('H', ['int', 'real'], py, lambda g, k: [
        c.L.Implies(k == 0, g(k) == 0), c.L.Implies(k >= 1, g(k) == g(k - 1) + 1.0 / c.R(k)),
        c.L.Implies(k >= 0, g(k + 1) == g(k) + 1.0 / c.R(k + 1))])


def expansion(c, n):
    x = c.R(n)
    return c.fn('log', x) + c.euler_gamma + 1 / (2 * x) - 1 / (12 * x * x) + \
        1 / (120 * x * x * x * x)


def h_inv(c, st):
    """accumulators of harmonic sums"""
    L, g = c.L, H(c)
    out = []
    if st.k is None:
        return out
    lo, hi, k = c.eng.as_term(st.lo), c.eng.as_term(st.hi), c.eng.as_term(st.k)
    n = [v for v in (c.a.__dict__.get('n'),) if v is not None]
    for x in st.nums:
        out.append(('sum so far', x.cur == g(k)))
        out.append(('sum of k-1 terms', x.cur == g(k - 1)))
        for m in n:
            out.append(('sum from the end', x.cur + g(m - k) == g(m)))
    for a in st.arrays + st.numlists:
        out.append(('entries', c.ints(0, k, lambda i: c.close(a.get(i), g(i)))))
    return out


@contract('calculations.HarmonicNumber', 'C19', dict(n='nat', approximate='int'))
class _:
    opts = {'world': False, 'sum_by_loop': True, 'invariants_first': 'sequences'}
    loop_invariants = h_inv

    def raises(c):
        a = c.a
        return [('ValueError', c.L.And(a.n == 0, a.n >= a.approximate))]

    def ensures(c):
        L, a = c.L, c.a
        return [('sum below the threshold', L.Implies(a.n < a.approximate,
                                                      lambda: c.close(c.result, H(c)(a.n)))),
                ('expansion from it on', L.Implies(L.And(a.n >= a.approximate, a.n > 0), lambda: c.close(
                    c.result, expansion(c, a.n))))]


@contract('calculations.HarmonicNumbers', 'C19', dict(n=values.BIGNAT, approximate='int'))
class _:
    opts = {'world': False, 'sum_by_loop': True, 'invariants_first': 'sequences'}
    loop_invariants = h_inv

    def requires(c):
        return [('positive threshold', c.a.approximate >= 1), ('memory', c.a.n < 3 * 10 ** 9)]

    def ensures(c):
        L, a, r = c.L, c.a, c.result
        return [('length', c.eqn(r.len, a.n + 1)),
                ('sums', c.ints(0, a.n + 1, lambda k: L.Implies(
                    k < a.approximate, lambda: c.close(r.get(k), H(c)(k))))),
                ('expansions', c.ints(0, a.n + 1, lambda k: L.Implies(
                    k >= a.approximate, lambda: c.close(r.get(k), expansion(c, k)))))]


@contract('calculations.HarmonicNumberFraction', 'C19', dict(n='nat'))
class _:
    opts = {'world': False, 'sum_by_loop': True, 'invariants_first': 'sequences'}
    loop_invariants = h_inv

    def ensures(c): return [('exact', c.eqn(c.result, H(c, True)(c.a.n)))]


@contract('calculations.HarmonicNumberFractions', 'C19', dict(n='nat'))
class _:
    opts = {'world': False, 'sum_by_loop': True, 'invariants_first': 'sequences'}
    loop_invariants = h_inv

    def ensures(c):
        r = c.result
        return [('length', c.eqn(r.len, c.a.n + 1)),
                ('exact', c.ints(0, c.a.n + 1, lambda k: c.eqn(r.get(k), H(c, True)(k))))]


@contract('calculations.NewtonsMethod', 'C19', dict(
        f=values.REALFUN, fprime=values.REALFUN, x0='real', y='real',
        xmin=['real', ('lit', float('-inf'))], xmax=['real', ('lit', float('inf'))],
        default='real', precission='real', maxIterations='nat'))
class _:
    opts = {'world': False}

    def requires(c):
        a, L = c.a, c.L
        return [('precision is positive', a.precission > 0)] + (
            [('bounds', a.xmin <= a.xmax)] if not values.inf(a.xmin) and not values.inf(a.xmax) else [])

    def ensures(c):
        L, a, r = c.L, c.a, c.result
        lo = L.true if values.inf(a.xmin) else r >= L.If(a.xmin <= a.xmax - a.precission,
                                                         a.xmin, a.xmax - a.precission) \
            if not values.inf(a.xmax) else r >= a.xmin
        hi = L.true if values.inf(a.xmax) else r <= L.If(a.xmax >= a.xmin + a.precission,
                                                         a.xmax, a.xmin + a.precission) \
            if not values.inf(a.xmin) else r <= a.xmax

        def near(x):
            """r is the Newton step from x, moved to the bounds"""
            d = c.call(a.fprime, x)
            if not c.symbolic and d == 0:
                return False
            s = x - (c.call(a.f, x) - a.y) / d
            t = s
            if not values.inf(a.xmax):
                t = L.If(s > a.xmax, a.xmax - a.precission, t)
            if not values.inf(a.xmin):
                t = L.If(s < a.xmin, a.xmin + a.precission, t)
            return L.And(d != 0, t == r, x - r < a.precission, r - x < a.precission)
        return [('default or a converged point in the bounds', L.Or(
            r == a.default, L.And(lo, hi, c.some_real(near, a.f)))),
            ('iterations', c.calls(a.fprime, a.maxIterations))]
