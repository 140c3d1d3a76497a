"""Dual-mode specification logic.

The same contract text is evaluated (a) symbolically, building z3 terms, and
(b) concretely, on real CausetEvent objects under CPython, where quantifiers
range over the finite universe of events.  SymL needs z3, ConL does not.
"""


class SetC:
    """A set of events given by its membership predicate."""
    __slots__ = ('L', 'mem')

    def __init__(self, L, mem):
        self.L = L
        self.mem = mem

    def has(self, x):
        return self.mem(x)

    def __and__(self, o):
        return SetC(self.L, lambda x: self.L.And(self.mem(x), o.mem(x)))

    def __or__(self, o):
        return SetC(self.L, lambda x: self.L.Or(self.mem(x), o.mem(x)))

    def __sub__(self, o):
        return SetC(self.L, lambda x: self.L.And(self.mem(x), self.L.Not(o.mem(x))))

    def __xor__(self, o):
        return SetC(self.L, lambda x: self.L.Not(self.L.Iff(self.mem(x), o.mem(x))))

    def filter(self, p):
        return SetC(self.L, lambda x: self.L.And(self.mem(x), p(x)))

    def eq(self, o):
        return self.L.forall(lambda x: self.L.Iff(self.mem(x), o.mem(x)))

    def sub(self, o):
        return self.L.forall(lambda x: self.L.Implies(self.mem(x), o.mem(x)))

    def nonempty(self):
        return self.L.exists(lambda x: self.mem(x))

    def empty(self):
        return self.L.Not(self.nonempty())

    def card(self):
        return self.L.card(self.mem)

    def all(self, p):
        return self.L.forall(lambda x: self.L.Implies(self.mem(x), p(x)))

    def any(self, p):
        return self.L.exists(lambda x: self.L.And(self.mem(x), p(x)))


class BaseL:
    def single(self, e):
        return SetC(self, lambda x: self.Eq(x, e))

    def emptyset(self):
        return SetC(self, lambda x: self.false)

    def S(self, mem):
        return SetC(self, mem)

    def iff_all(self, A, B):
        return A.eq(B)


class ConL(BaseL):
    """Concrete interpretation over a finite universe of real events."""
    concrete = True
    true = True
    false = False

    def __init__(self, universe):
        self.universe = list(universe)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        if not a:
            return True
        return b() if callable(b) else b

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        r = a if c else b
        return r() if callable(r) and getattr(r, '__name__', '') == '<lambda>' else r

    def Eq(self, a, b):
        return a is b if hasattr(a, '_prec') or hasattr(b, '_prec') else a == b

    def forall(self, f):
        return all(f(x) for x in self.universe)

    def exists(self, f):
        return any(f(x) for x in self.universe)

    def forall2(self, f):
        return all(f(x, y) for x in self.universe for y in self.universe)

    def forall3(self, f):
        U = self.universe
        return all(f(x, y, z) for x in U for y in U for z in U)

    def card(self, mem):
        return sum(1 for x in self.universe if mem(x))

    def sum(self, mem, f):
        return sum(f(x) for x in self.universe if mem(x))


def make_SymL():
    import z3

    class SymL(BaseL):
        concrete = False
        true = z3.BoolVal(True)
        false = z3.BoolVal(False)
        Ev = z3.DeclareSort('Ev')

        def __init__(self, engine=None):
            self.engine = engine
            self.n = 0

        def fresh_ev(self, base='q'):
            self.n += 1
            return z3.Const('%s!%d' % (base, self.n), self.Ev)

        def And(self, *xs):
            out = []
            for x in xs:
                if x is True or (z3.is_expr(x) and z3.is_true(x)):
                    continue
                if x is False or (z3.is_expr(x) and z3.is_false(x)):
                    return self.false
                out.append(x)
            if not out:
                return self.true
            if len(out) == 1:
                return out[0]
            return z3.And(*out)

        def Or(self, *xs):
            out = []
            for x in xs:
                if x is False or (z3.is_expr(x) and z3.is_false(x)):
                    continue
                if x is True or (z3.is_expr(x) and z3.is_true(x)):
                    return self.true
                out.append(x)
            if not out:
                return self.false
            if len(out) == 1:
                return out[0]
            return z3.Or(*out)

        def Not(self, x):
            if x is True or (z3.is_expr(x) and z3.is_true(x)):
                return self.false
            if x is False or (z3.is_expr(x) and z3.is_false(x)):
                return self.true
            if z3.is_expr(x) and z3.is_not(x):
                return x.arg(0)
            return z3.Not(x)

        def Implies(self, a, b):
            if callable(b) and not z3.is_expr(b):
                b = b()
            return self.Or(self.Not(a), b)

        def Iff(self, a, b):
            a, b = self.B(a), self.B(b)
            if z3.is_true(a):
                return b
            if z3.is_true(b):
                return a
            if z3.is_false(a):
                return self.Not(b)
            if z3.is_false(b):
                return self.Not(a)
            return a == b

        def B(self, a):
            if isinstance(a, bool):
                return self.true if a else self.false
            return a

        def If(self, c, a, b):
            a, b = [v() if callable(v) and getattr(v, '__name__', '') == '<lambda>' else v
                    for v in (a, b)]
            if c is True or (z3.is_expr(c) and z3.is_true(c)):
                return a
            if c is False or (z3.is_expr(c) and z3.is_false(c)):
                return b
            if isinstance(a, bool):
                a = self.B(a)
            if isinstance(b, bool):
                b = self.B(b)
            if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
                return a
            if z3.is_expr(a) and z3.is_bool(a):
                if z3.is_true(a):
                    return self.Or(c, b)
                if z3.is_false(a):
                    return self.And(self.Not(c), b)
                if z3.is_true(b):
                    return self.Or(self.Not(c), a)
                if z3.is_false(b):
                    return self.And(c, a)
            return z3.If(c, a, b)

        def Eq(self, a, b):
            if z3.is_expr(a) and z3.is_expr(b):
                if a.eq(b):
                    return self.true
                return a == b
            if z3.is_expr(a) or z3.is_expr(b):
                return self.B(a == b)
            return self.B(a == b)

        def _quant(self, f, n, Q):
            xs = [self.fresh_ev() for _ in range(n)]
            eng = self.engine
            mark = len(eng.trace) if eng is not None else 0
            fm = len(eng.freshlog) if eng is not None else 0
            b = self.B(f(*xs))
            if eng is not None and len(eng.trace) > mark:
                b = eng.lift_terms(xs, b, mark, fm)
            if z3.is_true(b) or z3.is_false(b):
                return b
            return Q(xs, b)

        def forall(self, f):
            return self._quant(f, 1, z3.ForAll)

        def exists(self, f):
            return self._quant(f, 1, z3.Exists)

        def forall2(self, f):
            return self._quant(f, 2, z3.ForAll)

        def forall3(self, f):
            return self._quant(f, 3, z3.ForAll)

        def card(self, mem):
            return self.engine.card_term(mem)

        def sum(self, mem, f):
            import pyvc.loops as loops
            eng = self.engine
            x = self.fresh_ev('s')
            mark, fm = len(eng.trace), len(eng.freshlog)
            t = f(x)
            if len(eng.trace) > mark:
                t = eng.lift_terms([x], t, mark, fm)
            return eng.sum_term(mem, lambda y: z3.substitute(t, (x, y)), self.Ev, z3.is_real(t))

    return SymL
