"""Contracts of embedded causets (C16): creation from coordinates, relations, labels, scale."""
from .common import *
from .generators import PERM, permutation, sym_format

WHY = 'creates an unbounded number of events; evaluated at run time only'
NEW = {'newevents': True, 'links': 'any'}


# ------------------------------------------------------------- arguments
def spacetime(rng, w):
    from causets import spacetimes as st
    kind = rng.choice(['flat', 'flat', 'flat', 'periodic', 'dS', 'AdS', 'BH', 'Schw'])
    if kind in ('flat', 'periodic'):
        d = rng.choice([1, 2, 2, 3, 4]) if kind == 'flat' else rng.choice([2, 3])
        w.kind, w.dim = kind, d
        return st.FlatSpacetime(d) if kind == 'flat' else st.FlatSpacetime(d, 4.0)
    w.kind = kind
    w.dim = 2 if kind in ('BH', 'Schw') else rng.choice([2, 3])
    if kind == 'dS':
        return st.deSitterSpacetime(w.dim, 1.0)
    if kind == 'AdS':
        return st.AntideSitterSpacetime(w.dim, 0.5)
    return st.BlackHoleSpacetime(2, 0.5, 'Schwarzschild' if kind == 'Schw' else
                                 'Eddington-Finkelstein')


def coordinates(rng, w):
    if w.kind in ('flat',):
        return [rng.randint(-3, 3) / 2 for _ in range(w.dim)]
    if w.kind == 'periodic':
        return [rng.randint(-4, 4) / 2] + [rng.randint(0, 7) / 2 for _ in range(w.dim - 1)]
    if w.kind in ('dS', 'AdS'):
        return [rng.uniform(-1.2, 1.2)] + [rng.uniform(-0.6, 0.6) for _ in range(w.dim - 1)]
    return [rng.uniform(-1.5, 1.5), rng.choice([1, 1, 1, -1]) * rng.uniform(0.05, 1.5)]


def make_causet(rng, w, cls='EmbeddedCauset'):
    import numpy as np
    from causets import embeddedcauset, sprinkledcauset
    from concrete.world import real, closure
    C = {'EmbeddedCauset': embeddedcauset.EmbeddedCauset,
         'SprinkledCauset': sprinkledcauset.SprinkledCauset}[cls]
    S = C(spacetime=spacetime(rng, w))
    n = rng.randint(6, 24) if rng.random() < 0.1 else rng.randint(0, 5)
    E = real()
    ev = [E(label=rng.choice([i + 1, None, 'x']), coordinates=coordinates(rng, w))
          for i in range(n)]
    mode = rng.choice(['none', 'causal', 'any'])
    rel = [[False] * n for _ in range(n)]
    f = S._spacetime.Causality()
    w.f = f
    if mode == 'any':
        rel = closure(n, [(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < .5])
    elif mode == 'causal':
        rel = [[i != j and f(np.array(ev[i].Coordinates), np.array(ev[j].Coordinates))[0]
                for j in range(n)] for i in range(n)]
    if any(rel[i][j] and rel[j][k] and not rel[i][k] for i in range(n) for j in range(n)
           for k in range(n)):
        rel = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if rel[i][j]:
                ev[i]._succ.add(ev[j])
                ev[j]._prec.add(ev[i])
    S._events = set(ev)
    if rng.random() < 0.5:
        S.link()
    if cls == 'SprinkledCauset':
        S._intensity = rng.choice([0.0, float(n), 7.5, 0.25])
    w.embedded = S
    return S


def sym_causet(cls):
    def f(eng, name):
        import z3
        from pyvc.engine import ObjV, SetBox, Ev, Builtin
        F = z3.Function('a_' + name, Ev, z3.BoolSort())
        x = z3.Const('e_' + name, Ev)
        eng.assume(z3.ForAll([x], z3.Implies(F(x), eng.heap['alloc'](x))))
        st = ObjV(eng, 'Spacetime')
        st.attrs['Causality'] = Builtin('Causality', lambda e, a, k: Builtin(
            'causality', verdict_call))
        eng.keep = getattr(eng, 'keep', []) + [st]
        d = z3.Int('dim_' + name)
        sh = ObjV(eng, 'CoordinateShape', {'_dim': d, '_volume': z3.Real('volume_' + name)})
        eng.assume(d >= 1)
        eng.assume(z3.Real('volume_' + name) > 0)
        o = ObjV(eng, cls, {'_events': SetBox(eng, lambda x: F(x), owner='attr'),
                            '_spacetime': st, '_shape': sh})
        if cls == 'SprinkledCauset':
            o.attrs['_intensity'] = z3.Real('intensity_' + name)
            eng.assume(z3.Real('intensity_' + name) >= 0)
        return o
    return f


def verdict_funs():
    import z3
    from pyvc.engine import Ev
    return (z3.Function('before', Ev, Ev, z3.BoolSort()),
            z3.Function('after', Ev, Ev, z3.BoolSort()))


def verdict_call(eng, args, kw):
    """the causality function: two booleans that depend on the two points only"""
    import z3
    from pyvc.engine import Unsupported
    at = []
    for a in args:
        k = z3.Const('coord_ix', z3.IntSort())
        t = a.get(k)
        if not (z3.is_app(t) and t.num_args() == 2 and t.decl().name() == 'h_cget' and
                t.arg(1).eq(k)):
            raise Unsupported('causality of coordinates of unknown origin %s' % t)
        at.append(t.arg(0))
    A, B = verdict_funs()
    return (A(*at), B(*at))


EMB = ('sym', 'embedded', sym_causet('EmbeddedCauset'), make_causet)
SPR = ('sym', 'sprinkled', sym_causet('SprinkledCauset'),
       lambda rng, w: make_causet(rng, w, 'SprinkledCauset'))


def verdict(c, a, b):
    """what the spacetime says about the coordinates of a and b"""
    if c.symbolic:
        A, B = verdict_funs()
        return A(a, b), B(a, b)
    import numpy as np
    h = c.old if c.old.alloc(a) and c.old.alloc(b) else c.new
    memo = c.__dict__.setdefault('verdicts', {})
    if (id(a), id(b)) not in memo:
        if len(h.g(a, 'coords')) == 0 or len(h.g(a, 'coords')) != len(h.g(b, 'coords')):
            return False, False
        f = c.vals['self']._spacetime.Causality()
        r = f(np.array(h.g(a, 'coords')), np.array(h.g(b, 'coords')))
        memo[(id(a), id(b))] = (bool(r[0]), bool(r[1]))
    return memo[(id(a), id(b))]


def before(c, a, b):
    return c.L.And(c.L.Not(c.L.Eq(a, b)), verdict(c, a, b)[0])


def consistent(c, S):
    """the verdicts on the events of S are those of an order (C15)"""
    L = c.L
    return [('verdicts swap', L.forall2(lambda a, b: L.Implies(
        L.And(S.has(a), S.has(b), L.Not(L.Eq(a, b))),
        lambda: L.Iff(verdict(c, a, b)[0], verdict(c, b, a)[1])))),
        ('never both', L.forall2(lambda a, b: L.Implies(
            L.And(S.has(a), S.has(b), L.Not(L.Eq(a, b))),
            lambda: L.Not(L.And(verdict(c, a, b)[0], verdict(c, a, b)[1]))))),
        ('transitive', L.forall(lambda x: L.forall2(lambda a, b: L.Implies(
            L.And(S.has(a), S.has(b), S.has(x)),
            lambda: L.Implies(L.And(before(c, a, x), before(c, x, b)), before(c, a, b))))))]


@contract('EmbeddedCauset.relate', 'C16 C03', dict(self=EMB, link='bool'))
class _:
    opts = {'world': False, 'invariants_first': 'sequences',
            'loop_frame': False}

    def requires(c):
        L, h, S = c.L, c.old, c.a.self.events
        return consistent(c, S) + [
            ('no relations to events outside', L.forall2(lambda a, b: L.Implies(
                h.prec(b).has(a), L.Iff(S.has(a), S.has(b))))),
            ('embedded', S.all(lambda e: h.has_coords(e)))]

    def effect(c):
        L, h, S = c.L, c.old, c.a.self.events
        rel = lambda a, b: L.And(S.has(a), before(c, a, b))
        out = {'prec': lambda e, x: L.If(S.has(e), lambda: rel(x, e), lambda: h.prec(e).has(x)),
               'succ': lambda e, x: L.If(S.has(e), lambda: L.And(S.has(x), before(c, e, x)),
                                         lambda: h.succ(e).has(x)),
               'links': 'any'}
        return out

    def loop_invariants(c, st):
        """pairs up to the current one (by their places in the list) are related"""
        L, S, h = c.L, c.a.self.events, st.heap
        if st.k is None or not c.eng.enums:
            return []
        g, ix, n, m = c.eng.enums[-1]
        if st.outer:
            i, j = st.outer[-1]['k'], st.k
        else:
            i, j = st.k, None
        past = lambda e, x: L.And(S.has(e), S.has(x), L.Or(
            L.Or(ix(e) < i, ix(x) < i),
            False if j is None else L.Or(L.And(ix(x) == i, i < ix(e), ix(e) < j),
                                         L.And(ix(e) == i, i < ix(x), ix(x) < j))),
            before(c, x, e))
        out = [('pairs', L.forall2(lambda e, x: L.If(
            S.has(e), L.Iff(h.prec(e).has(x), past(e, x)),
            L.Iff(h.prec(e).has(x), c.old.prec(e).has(x))))),
            ('pairs of futures', L.forall2(lambda e, x: L.If(
                S.has(e), L.Iff(h.succ(e).has(x), past(x, e)),
                L.Iff(h.succ(e).has(x), c.old.succ(e).has(x)))))]
        return out

    def ensures(c):
        L, n, S = c.L, c.new, c.a.self.events
        return [('linked or unlinked', S.all(lambda e: L.And(
            L.Iff(n.has_lprec(e), c.a.link), L.Iff(n.has_lsucc(e), c.a.link))))]


def rows(rng, w):
    return [coordinates(rng, w) for _ in range(rng.choice([0, 1, 2, 3, 4, 4, 9]))]


def sym_rows(eng, name):
    """a list of lists of numbers"""
    import z3
    from pyvc.engine import SymList
    I, R = z3.IntSort(), z3.RealSort()
    n, ln, at = z3.Const('n_' + name, I), z3.Function('len_' + name, I, I), \
        z3.Function('at_' + name, I, I, R)
    i = z3.Const('i_' + name, I)
    eng.assume(n >= 0)
    eng.assume(z3.ForAll([i], ln(i) >= 0))
    T = eng.as_term
    r = SymList(eng, n, lambda i: SymList(eng, ln(T(i)), lambda j: at(T(i), T(j)), esort=R),
                owner='arg')
    r.info['rows'] = (ln, at)
    return r


ROWS = ('sym', 'rows', sym_rows, rows)
FORMATS = ['none', ('sym', 'format', sym_format, lambda r, w: 'e{:d}')]


def created(c, S, n0, pts, fmt):
    """S: exactly one new event for each point, with its coordinates and consecutive labels"""
    ev = [e for e in c.U if S.has(e)]
    want = sorted(((n0 + i if fmt is None else fmt.format(n0 + i)), [float(x) for x in p])
                  for i, p in enumerate(pts))
    got = sorted(((c.new.label(e), c.new.g(e, 'coords')) for e in ev), key=lambda t: str(t[0]))
    return [('one new event for each row', len(ev) == len(pts) and
             not any(c.old.alloc(e) for e in ev)),
            ('labels and coordinates', len(got) == len(want) and all(
                a[0] == b[0] and type(a[0]) is type(b[0]) and [float(x) for x in a[1]] == b[1]
                for a, b in zip(got, sorted(want, key=lambda t: str(t[0])))))]


def related(c, S, h):
    """S is ordered by the verdicts; coinciding points (related both ways) in either direction"""
    L = c.L
    ev = [e for e in c.U if S.has(e)]

    def ok(a, b):
        va, vb = verdict(c, a, b), verdict(c, b, a)
        lt = h.g(b, 'prec')
        if va[0] and vb[0]:
            return (a in lt) != (b in h.g(a, 'prec'))
        return (a in lt) == va[0]
    return all(ok(a, b) and (a in h.g(b, 'prec')) == (b in h.g(a, 'succ'))
               for a in ev for b in ev if a is not b) and \
        all(h.g(a, 'prec') <= set(ev) and a not in h.g(a, 'prec') for a in ev)


def consistent_after(c, S):
    """the verdicts on coordinates after the call are those of an order"""
    ev = [e for e in c.U if S.has(e)]
    b = lambda x, y: verdict(c, x, y)[0]
    return all(b(x, y) == verdict(c, y, x)[1] or (b(x, y) and b(y, x))
               for x in ev for y in ev if x is not y)


def others_keep(c, keep):
    """effect: only the relations of other events stay"""
    L, h, e = c.L, c.old, {}
    for f in ('prec', 'succ'):
        e[f] = (lambda new, old: lambda e, x: L.If(keep(e), lambda: old(e).has(x),
                                                   lambda: new(e, x)))(
            any_field(c, f), getattr(h, f))
    return e


def new_events_of(c, pts, fmt, relate):
    """the result consists of one new event for each point"""
    L, h, S, R = c.L, c.new, c.a.self.events, c.result
    now = c.post_args['self'].events
    n = rows_of(pts)[0]
    m, e = c.event_sequence()
    return [('one new event for each row', c.eqn(m, n))] + \
        events_at(c, m, e, h, c.old, S.card(), pts, fmt) + [
        ('no others', L.forall(lambda x: L.Iff(R.has(x), c.some_int(
            0, m, lambda i: L.Eq(e(i), x))))),
        ('number', L.And(c.eqn(R.card(), n), c.eqn(now.card(), S.card() + n))),
        ('related by the spacetime', L.Implies(relate, now.all(
            lambda x: L.forall(lambda y: L.And(
                L.Iff(h.prec(x).has(y), L.And(now.has(y), before(c, y, x))),
                L.Iff(h.succ(x).has(y), L.And(now.has(y), before(c, x, y)))))))),
        ('linked', L.Implies(relate, now.all(lambda x: L.And(
            h.has_lprec(x), h.has_lsucc(x))))),
        ('not related', L.Implies(L.Not(relate), R.all(lambda x: L.forall(
            lambda y: L.And(L.Not(h.prec(x).has(y)), L.Not(h.succ(x).has(y)))))))]


def orderly(c):
    """at run time: the verdicts on the events after the call are those of an order"""
    ev = list(c.vals['self']._events)
    b = {(i, j): verdict(c, x, y)[0] for i, x in enumerate(ev) for j, y in enumerate(ev) if i != j}
    return not any(b[i, j] and (b[j, i] or any(
        k not in (i, j) and b[j, k] and not b[i, k] for k in range(len(ev)))) for i, j in b)


def _create(cls, kind):
    @contract(cls + '.create', 'C16 C17' if cls[0] == 'S' else 'C16', dict(
        self=kind, **{'coordinates' if cls[0] == 'E' else 'coords': ROWS}, labelFormat=FORMATS,
        relate='bool'))
    class _:
        opts = {'world': False, 'creating': True, 'invariants_first': 'sequences',
                'relations_change': True}
        result_kind = 'set'

        def requires(c):
            L, h, S = c.L, c.old, c.a.self.events
            closed = [('no relations to events outside', L.forall2(lambda a, b: L.Implies(
                h.prec(b).has(a), L.Iff(S.has(a), S.has(b)))))]
            if c.symbolic:
                # the verdicts on the events that do not exist yet are those on the new points
                return closed + [('embedded', S.all(lambda e: h.has_coords(e)))] + \
                    consistent(c, L.S(lambda x: L.Or(S.has(x), L.Not(h.alloc(x)))))
            return closed + [('verdicts form an order', order_of_points(c, S, points(c)))]

        def effect(c):
            S = c.a.self.events
            h, L = c.old, c.L
            e = dict(NEW, havoc_events=('self',))
            e.update(others_keep(c, lambda e: L.And(h.alloc(e), L.Not(L.And(
                c.a.relate, S.has(e))))))
            if cls[0] == 'S':
                n = rows_of(points(c))[0] if c.symbolic else len(points(c))
                e['attrs'] = {('self', '_intensity'): c.a.self._intensity + (
                    c.R(n) if c.symbolic else n)}
            return e

        def loop_invariants(c, st):
            L, h, h0 = c.L, st.heap, st.heap0
            if st.k is None or not st.lists:
                return []
            N, k, pts = st.lists[0], st.k, points(c)
            at = lambda f: c.ints(0, k, f)
            new = lambda x: L.And(h.alloc(x), L.Not(h0.alloc(x)))
            return [('length', N.len == k)] + \
                events_at(c, k, N.at, h, h0, c.a.self.events.card(), pts,
                          c.a.labelFormat) + [
                ('unrelated', c.number_and_event(k, lambda i, x: L.And(
                    L.Not(h.prec(N.at(i)).has(x)), L.Not(h.succ(N.at(i)).has(x))))),
                ('others stay', L.forall2(lambda e, x: L.Implies(h0.alloc(e), L.And(
                    L.Iff(h.prec(e).has(x), h0.prec(e).has(x)),
                    L.Iff(h.succ(e).has(x), h0.succ(e).has(x))))))]

        def ensures(c):
            L, h, pts, S, R = c.L, c.new, points(c), c.a.self.events, c.result
            now = c.post_args['self'].events
            out = [('all are added', (S | R).eq(now))]
            if not c.symbolic:
                out += created(c, R, S.card() + 1, pts, c.a.labelFormat)
                if c.a.relate:
                    return out + [('related by the spacetime', related(c, now, c.new)),
                                  ('linked', all(c.new.has_lprec(e) for e in c.U if now.has(e)))]
                return out + [('not related', all(
                    not c.new.g(e, 'prec') and not c.new.g(e, 'succ') for e in c.U if R.has(e)))]
            return out + new_events_of(c, pts, c.a.labelFormat, c.a.relate)


def points(c):
    v = c.a if c.symbolic else c.vals
    for k in ('coordinates', 'coords'):
        if k in c.vals:
            return getattr(v, k) if c.symbolic else v[k]


def any_field(c, f):
    if c.symbolic:
        return c.any_field(f)
    n = getattr(W().Snap(c.L, c.U), f)
    return lambda e, x: n(e).has(x)


def rows_of(pts):
    """number of points, dimension of a point, coordinate of a point"""
    if pts.kind == 'mat':
        return pts.rows, lambda i: pts.cols, pts.get2
    return (pts.len,) + tuple(pts.obj.info['rows'])


def events_at(c, m, e, h, h0, card, pts, fmt):
    """new events e(0), .., e(m - 1), with the coordinates of the points and consecutive labels"""
    L = c.L
    _, ln, at = rows_of(pts)
    every = lambda f: c.ints(0, m, f)
    return [('new', every(lambda i: L.And(L.Not(h0.alloc(e(i))), h.alloc(e(i))))),
            ('different', c.pairs(m, lambda i, j: L.Implies(L.Eq(e(i), e(j)), i == j))),
            ('labels', every(lambda i: L.Eq(h.label(e(i)), c.formatted(fmt, card + 1 + i)))),
            ('embedded', every(lambda i: L.And(h.has_coords(e(i)), h.clen(e(i)) == ln(i)))),
            ('coordinates', c.pairs_of(m, lambda i, j: L.Implies(
                L.And(0 <= j, j < ln(i)), h.cget(e(i), j) == at(i, j))))]


def W():
    from concrete import world
    return world


def order_of_points(c, S, pts):
    import numpy as np
    f = c.vals['self']._spacetime.Causality()
    P = [np.array(c.old.g(e, 'coords')) for e in c.U if S.has(e)] + [np.array(p) for p in pts]
    n = len(P)
    v = [[f(P[i], P[j]) for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j and v[i][j][0] != v[j][i][1] and not (P[i] == P[j]).all():
                return False
            for k in range(n):
                if len({i, j, k}) == 3 and v[i][j][0] and v[j][k][0] and not v[i][k][0]:
                    return False
    return True


_create('EmbeddedCauset', EMB)


@contract('EmbeddedCauset.relabel', 'C16', dict(self=EMB, dim=(
    'sym', 'dim', lambda eng, n: eng.fresh(n, __import__('z3').IntSort()),
    lambda rng, w: rng.randrange(w.dim)), descending='bool'))
class _:
    """the events get the labels 1, 2, ... in the order of their coordinates"""
    opts = {'world': False, 'ordered_lists': True, 'invariants_first': 'sequences'}

    def requires(c):
        L, h, d = c.L, c.old, c.a.dim
        return [('coordinate', c.a.self.events.all(lambda e: L.And(
            h.has_coords(e), 0 <= d, d < h.clen(e))))]

    def effect(c):
        S, h, L = c.a.self.events, c.old, c.L
        new = c.any_label() if c.symbolic else W().Snap(L, c.U).label
        return {'label': lambda e: L.If(S.has(e), lambda: new(e), lambda: h.label(e))}

    def loop_invariants(c, st):
        """so far the first k events in the order found have their labels"""
        L, S, P, old = c.L, c.a.self.events, c.eng.enums, c.old
        order = [x for x in c.local_lists(st) if c.inverse(x) is not None]
        if st.k is None or len(order) != 2:
            return []
        ev, ix = sorted(order, key=lambda x: x.obj.kind == 'array')
        at = lambda e: c.inverse(ix)(c.inverse(ev)(e))
        return [('labels so far', L.forall(lambda e: L.Eq(st.heap.label(e), L.If(
            L.And(S.has(e), at(e) < st.k), c.lab(at(e) + 1), old.label(e)))))]

    def ensures(c):
        L, S, n, d = c.L, c.a.self.events, c.new, c.a.dim
        num = lambda e: c.int_label(n.label(e))
        less = lambda a, b: L.If(c.a.descending, n.cget(a, d) >= n.cget(b, d),
                                 n.cget(a, d) <= n.cget(b, d))
        return [('numbers', S.all(lambda e: L.If(
                    c.is_int(n.label(e)), lambda: L.And(1 <= num(e), num(e) <= S.card()),
                    lambda: L.false))),
                ('different', L.forall2(lambda a, b: L.Implies(
                    L.And(S.has(a), S.has(b), L.Eq(n.label(a), n.label(b))), L.Eq(a, b)))),
                ('order of the coordinate', L.forall2(lambda a, b: L.Implies(
                    L.And(S.has(a), S.has(b)), lambda: L.Implies(num(a) <= num(b), less(a, b)))))]


def cell_centre(c, P, radius):
    """coordinates of the event number v + 1, which has the place pos(v + 1)"""
    n = P.len if c.symbolic else len(P)
    pos = c.inverse(P) if c.symbolic else lambda v: P.index(v)
    R = c.R if c.symbolic else float
    size = lambda: radius / R(n)
    time = lambda v: (R(v) + 0.5) * size() + (R(pos(v + 1)) + 0.5) * size() - radius
    space = lambda v: (R(v) + 0.5) * size() - (R(pos(v + 1)) + 0.5) * size()
    return time, space


RADIUS = ('sym', 'float', lambda eng, n: __import__('z3').Real(n), lambda rng, w: rng.choice(
    [1.0, 2.0, 0.5, 3.0, rng.uniform(0.1, 9)]))


@contract('EmbeddedCauset._Permutation_Coords', 'C16', dict(P=PERM, radius=RADIUS))
class _:
    opts = {'world': False, 'invariants_first': 'sequences'}

    def requires(c): return permutation(c)

    def loop_invariants(c, st):
        if st.k is None:
            return []
        P = c.a.P
        time, space = cell_centre(c, P, c.a.radius)
        out = []
        for a in st.arrays:
            out += [('times', c.ints(0, st.k, lambda i: c.close(
                        a.get(P.get(i) - 1, 0), time(P.get(i) - 1)))),
                    ('places', c.ints(0, st.k, lambda i: c.close(
                        a.get(P.get(i) - 1, 1), space(P.get(i) - 1))))]
        return out

    def ensures(c):
        L = c.L
        if c.symbolic:
            P, X = c.a.P, c.result
            time, space = cell_centre(c, P, c.a.radius)
            return [('shape', L.And(c.eqn(X.rows, P.len), c.eqn(X.cols, 2))),
                    ('times', c.ints(0, P.len, lambda v: c.close(X.get2(v, 0), time(v)))),
                    ('places', c.ints(0, P.len, lambda v: c.close(X.get2(v, 1), space(v))))]
        P, X = list(c.vals['P']), c.raw
        time, space = cell_centre(c, P, c.a.radius)
        return [('shape', X.shape == (len(P), 2)),
                ('times', all(c.close(X[v, 0], time(v)) for v in range(len(P)))),
                ('places', all(c.close(X[v, 1], space(v)) for v in range(len(P))))]


def _cells(c):
    """Two events with the numbers u + 1, v + 1 at the places i, j of a permutation: one is in the
    past light cone of the other exactly if its number and its place are smaller."""
    L, R = c.L, c.R
    u, v, i, j, n, r = c.a.u, c.a.v, c.a.i, c.a.j, c.a.n, c.a.radius
    size, dt, dx = c.number_of('size'), c.number_of('dt'), c.number_of('dx')
    given = L.And(n > 0, r > 0, size * R(n) == r, u != v, i != j,
                  dt == R(v - u) * size + R(j - i) * size, dx == R(v - u) * size - R(j - i) * size)
    p, q = c.number_of('p'), c.number_of('q')
    given = L.And(given, p == R(v - u) * size, q == R(j - i) * size)
    cone = L.And(dt >= dx, dt >= -dx)
    return [('cell size', L.Implies(L.And(n > 0, r > 0, size * R(n) == r), size > 0)),
            ('signs', L.Implies(L.And(size > 0, given), L.And(
                L.Iff(p > 0, u < v), L.Iff(q > 0, i < j), p != 0, q != 0))),
            ('cone', L.Implies(L.And(dt == p + q, dx == p - q, p != 0, q != 0), L.Iff(
                cone, L.And(p > 0, q > 0))))]


Lemma('a permutation is an order of points', 'C16 C06', dict(
    u='int', v='int', i='int', j='int', n='int', radius='real'), _cells)


@contract('embeddedcauset.both_permutations', 'C16 C06', dict(
    P=PERM, fmt=FORMATS, radius=RADIUS))
class _:
    opts = dict(world=False, client='''
def both_permutations(P, fmt, radius):
    return EmbeddedCauset.FromPermutation(P, fmt, radius), Causet.FromPermutation(P, fmt)
''')
    bounded = WHY

    def effect(c): return NEW

    def ensures(c):
        P, fmt, r = c.vals['P'], c.a.fmt, c.a.radius
        n = len(P)
        E, A = c.raw
        def order(S):
            return {e.Label: {x.Label for x in c.new.g(e, 'prec')} for e in S._events}
        pos = {e.Label: c.new.g(e, 'coords') for e in E._events}
        name = (lambda i: i) if fmt is None else fmt.format
        close = lambda a, b: abs(a - b) <= 1e-9 * (1 + r)
        cell = r / n if n else 0
        return [('labels', set(pos) == {name(i) for i in range(1, n + 1)} and E.Card == n),
                ('coordinates', all(
                    close(pos[name(p)][0], (p - .5 + i + .5) * cell - r) and
                    close(pos[name(p)][1], (p - i - 1) * cell) for i, p in enumerate(P))),
                ('the same order', order(E) == order(A)),
                ('in the diamond', E.Shape.Name == 'bicone' and E.Dim == 2 and
                 close(E.Shape.Parameter('radius'), r) or abs(
                     E.Shape.Parameter('radius') - r) < 1e-6 * r)]


@contract('EmbeddedCauset.Density', 'C16', dict(self=EMB))
class _:
    opts = {'world': False}
    result_kind = 'real'

    def ensures(c):
        s = c.a.self
        return [('cardinality per volume', c.close(
            c.result * volume(c), c.R(s.events.card())))]


def volume(c):
    if c.symbolic:
        import z3
        return z3.Real('volume_self')
    return c.vals['self']._shape.Volume


def dimension(c):
    if c.symbolic:
        import z3
        return z3.Int('dim_self')
    return c.vals['self']._shape.Dim


@contract('EmbeddedCauset.LengthScale', 'C16', dict(self=EMB))
class _:
    opts = {'world': False}
    result_kind = 'real'

    def ensures(c):
        L, n = c.L, c.a.self.events.card()
        return [('inverse root of the density', L.If(c.eqn(n, 0), lambda: c.eqn(
            c.result, 0), lambda: c.close(c.result, c.fn(
                'pow', c.R(n) / volume(c), -1.0 / c.R(dimension(c))))))]
