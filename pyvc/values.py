"""Argument kinds with a symbolic and a run-time generator."""
import math


def inf(v):
    return isinstance(v, float) and math.isinf(v)


class ExtV:
    """A number that is infinite (+) when `inf` holds and `val` otherwise."""

    def __init__(self, inf, val):
        self.inf, self.val = inf, val


def ext_of(eng, v):
    if isinstance(v, ExtV):
        return v
    if inf(v):
        if v < 0:
            from .engine import Unsupported
            raise Unsupported('negative infinity')
        return ExtV(True, eng.real_val(0.0))
    return ExtV(False, eng.to_z3num(v, True))


def ext_if(eng, c, a, b):
    L = eng.L
    a, b = ext_of(eng, a), ext_of(eng, b)
    v = b.val if a.inf is True else a.val if b.inf is True else L.If(c, a.val, b.val)
    return ExtV(L.If(c, L.B(a.inf), L.B(b.inf)), v)


def ext_less(eng, a, b, strict):
    """a < b or a <= b"""
    L = eng.L
    a, b = ext_of(eng, a), ext_of(eng, b)
    r = a.val < b.val if strict else a.val <= b.val
    return L.And(L.Not(a.inf), L.Or(b.inf, r)) if strict else L.Or(b.inf, L.And(L.Not(a.inf), r))


def ext_equal(eng, a, b):
    L = eng.L
    a, b = ext_of(eng, a), ext_of(eng, b)
    return L.Or(L.And(a.inf, b.inf), L.And(L.Not(a.inf), L.Not(b.inf), a.val == b.val))


def _sym_fun(eng, name):
    import z3
    from .engine import Builtin
    F = z3.Function('f_' + name, z3.RealSort(), z3.RealSort())
    b = Builtin(name, lambda e, a, k: F(e.to_z3num(a[0], True)))
    b.F = F
    return b


class RealFun:
    """A polynomial; remembers where it was evaluated."""

    def __init__(self, rng):
        self.co = [rng.choice([0.0, rng.uniform(-3, 3), float(rng.randint(-3, 3))])
                   for _ in range(rng.randint(1, 4))]
        self.at = []

    def __call__(self, x):
        self.at.append(x)
        return self.val(x)

    def val(self, x):
        r = 0.0
        for c in self.co:
            r = r * x + c
        return r

    def __repr__(self):
        return 'polynomial%r' % (self.co,)


REALFUN = ('sym', 'function', _sym_fun, lambda rng, w: RealFun(rng))


def _sym_nat(eng, name):
    import z3
    n = z3.Int('a_' + name)
    eng.assume(n >= 0)
    return n


BIGNAT = ('sym', 'nat', _sym_nat, lambda rng, w: rng.choice(
    [rng.randint(0, 12), rng.randint(0, 12), rng.randint(90, 130), 56000 + rng.randint(0, 10000)
     if rng.random() < 0.1 else rng.randint(0, 300), 65536 if rng.random() < 0.1 else 5]))
