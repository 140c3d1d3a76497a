"""Contracts of the generators of causet.py (C06), of reading causal matrices (C07) and of
saving and reading a causet (C08)."""
import itertools
import os
import tempfile
from .common import *

NEW = {'newevents': True, 'links': 'any'}
WHY = 'creates an unbounded number of events in a loop; evaluated at run time only'


def order_of(c, R):
    """{label: set of labels in the past} of the returned causet, or None if labels repeat"""
    m = list(R.members)
    if len({e.Label for e in m}) != len(m):
        return None
    return {e.Label: {x.Label for x in c.new.g(e, 'prec')} for e in m}


def covers(past):
    return {b: {a for a in past[b] if not any(a in past[x] for x in past[b])} for b in past}


def fresh(c, R):
    """the events of the returned causet are new and related among themselves only"""
    m = R.members
    return all(not c.old.alloc(e) and c.new.g(e, 'prec') <= m and c.new.g(e, 'succ') <= m
               for e in m)


def perm(rng, w):
    p = list(range(1, rng.choice([0, 1, 2, 3, 3, 4, 5, 5, 6, 7]) + 1))
    rng.shuffle(p)
    return p


def sym_perm(eng, name):
    """a list of integers with the position of each value"""
    import z3
    from pyvc.engine import SymList
    I = z3.IntSort()
    n = z3.Const('n_' + name, I)
    eng.assume(n >= 0)
    G, F = z3.Function('a_' + name, I, I), z3.Function('pos_' + name, I, I)
    r = SymList(eng, n, lambda i: G(eng.as_term(i)), esort=I, owner='arg')
    r.info['inv'] = lambda v: F(eng.as_term(v))
    return r


def sym_format(eng, name):
    from pyvc.engine import FmtStr
    return FmtStr(name)


PERM = ('sym', 'permutation', sym_perm, perm)
FORMATS = ['none', ('lit', ''), ('sym', 'format', sym_format,
                                 lambda r, w: r.choice(['e{:d}', '{}', 'event {:03d}']))]


def labels_ok(c, R, n, fmt, name=lambda i: i + 1):
    m = R.members
    if fmt == '':
        return len(m) == n and all(e.Label is None for e in m)
    want = {name(i) if fmt is None else fmt.format(name(i)) for i in range(n)}
    return len(m) == n and {e.Label for e in m} == want


def isomorphic(c, R, n, less):
    """the returned causet (without labels) has the order less on 0..n-1"""
    m = list(R.members)
    if len(m) != n:
        return False
    for p in itertools.permutations(range(n)):
        if all((m[i] in c.new.g(m[j], 'prec')) == less(p[i], p[j])
               for i in range(n) for j in range(n)):
            return True
    return False


def permutation_order(c, R, n, fmt, less):
    past = order_of(c, R)
    if fmt == '':
        return isomorphic(c, R, n, less) if n <= 6 else True
    name = (lambda i: i + 1) if fmt is None else (lambda i: fmt.format(i + 1))
    return past is not None and all(past.get(name(j)) == {name(i) for i in range(n) if less(i, j)}
                                    for j in range(n))


def sequence_of(c, R, n, fmt, less):
    """The returned causet consists of n new events e(0), .., e(n-1), related as less says among
    themselves and to no other event, with the labels of 1, .., n."""
    if not c.symbolic:
        return [('labels', labels_ok(c, R, n, fmt)), ('events are new', fresh(c, R)),
                ('order', permutation_order(c, R, n, fmt, less))]
    L, h, E = c.L, c.new, R.events
    m, e = c.event_sequence()
    return [('number', c.eqn(m, n))] + sequence_so_far(c, m, e, h, c.old, fmt, less) + [
        ('all', L.forall(lambda x: L.Iff(E.has(x), c.some_int(0, m, lambda i: L.Eq(e(i), x)))))]


def sequence_so_far(c, m, e, h, h0, fmt, less):
    L = c.L
    at = lambda f: c.ints(0, m, f)
    return [('new', at(lambda i: L.And(L.Not(h0.alloc(e(i))), h.alloc(e(i))))),
            ('different', c.pairs(m, lambda i, j: L.Implies(L.Eq(e(i), e(j)), i == j))),
            ('labels', at(lambda i: L.Eq(h.label(e(i)), c.formatted(fmt, i + 1)))),
            ('order', c.pairs(m, lambda i, j: L.Iff(h.prec(e(j)).has(e(i)), less(i, j)))),
            ('related among themselves', c.number_and_event(m, lambda i, x: L.Implies(
                L.Or(h.prec(e(i)).has(x), h.succ(e(i)).has(x)),
                c.some_int(0, m, lambda j: L.Eq(e(j), x)))))]


def before_in(c, P):
    """less of the causet of a permutation: smaller number at an earlier place"""
    if not c.symbolic:
        return lambda i, j: i < j and P.index(i + 1) < P.index(j + 1)
    pos = c.inverse(P)
    return lambda i, j: c.L.And(i < j, pos(i + 1) < pos(j + 1))


def permutation(c):
    """P has each of the numbers 1, .., len(P) exactly once"""
    if not c.symbolic:
        return []
    P, L = c.a.P, c.L
    pos = c.inverse(P)
    if pos is None:
        return [('permutation', L.false)]
    return [('all numbers', c.ints(1, P.len + 1, lambda v: L.And(
                0 <= pos(v), pos(v) < P.len, P.get(pos(v)) == v))),
            ('once', c.ints(0, P.len, lambda a: L.And(
                1 <= P.get(a), P.get(a) <= P.len, pos(P.get(a)) == a)))]


@contract('Causet.FromPermutation', 'C06', dict(P=PERM, labelFormat=FORMATS))
class _:
    opts = {'world': False, 'invariants_first': 'sequences'}
    result_kind = 'causet'

    def requires(c): return permutation(c)

    def effect(c): return NEW

    def loop_invariants(c, st):
        if st.k is None or not st.arrays:
            return []
        out = []
        for a in st.arrays:
            out += sequence_so_far(c, st.k, a.get, st.heap, st.heap0, c.a.labelFormat, before_in(c, c.a.P))
        return out

    def ensures(c):
        P, R = (c.a.P if c.symbolic else list(c.vals['P'])), c.result
        return sequence_of(c, R, P.len if c.symbolic else len(P), c.a.labelFormat,
                           before_in(c, P))


def _line(name, less):
    @contract('Causet.' + name, 'C06', dict(n='nat', labelFormat=FORMATS))
    class _:
        opts = {'world': False}
        result_kind = 'causet'

        def effect(c): return NEW
        def ensures(c): return sequence_of(c, c.result, c.a.n, c.a.labelFormat, less(c))


_line('NewChain', lambda c: lambda i, j: i < j)
_line('NewAntichain', lambda c: lambda i, j: c.L.false if c.symbolic else False)


def fence(c, R, length, height, closed):
    if length < 1 or height < 0:
        return [('empty', len(R.members) == 0)]
    n = length * (height + 1)
    past = order_of(c, R)
    out = [('labels', labels_ok(c, R, n, None)), ('events are new', fresh(c, R))]
    if past is None or set(past) != set(range(1, n + 1)):
        return out
    want = {}
    for lab in range(1, n + 1):
        h, i = divmod(lab - 1, length)
        low = (h - 1) * length + 1
        if h == 0:
            want[lab] = set()
        elif length == 1 or i > 0 or closed:
            want[lab] = {low + i, low + (i - 1) % length}
        else:
            want[lab] = {low}
    return out + [('covering relation', covers(past) == want)]


def sym_int(eng, name):
    import z3
    return z3.Int(name)


def layers_order(c, n, closed):
    """(h, i) before (g, j) in the fence with n events in each layer"""
    L = c.L
    near = lambda h, i, g, j: L.If(i <= j, j - i, j - i + n) <= g - h
    ahead = lambda h, i, g, j: L.And(0 <= j - i, j - i <= g - h)
    closed = L.B(closed)
    return lambda h, i, g, j: L.And(h < g, L.Or(L.And(closed, near(h, i, g, j)),
                                                L.And(L.Not(closed), ahead(h, i, g, j))))


def layers_so_far(c, at, level, place, n, k, less, S, h, h0):
    """The events at(0, 0), .., at(k - 1, n - 1) have been created, and no others."""
    L = c.L
    cells = lambda f: c.cells(k, n, f)
    name = lambda g, i: g * n + i + 1
    return [('new', cells(lambda g, i: L.And(L.Not(h0.alloc(at(g, i))), h.alloc(at(g, i))))),
            ('labels', cells(lambda g, i: L.Eq(h.label(at(g, i)), c.int_value(name(g, i))))),
            ('place', cells(lambda g, i: L.And(level(at(g, i)) == g, place(at(g, i)) == i))),
            ('members', cells(lambda g, i: S.has(at(g, i)))),
            ('all', S.all(lambda x: L.And(
                0 <= level(x), level(x) < k, 0 <= place(x), place(x) < n,
                L.Eq(at(level(x), place(x)), x)))),
            ('order', c.cell_pairs(k, n, lambda g, i, m, j: L.Iff(
                h.prec(at(m, j)).has(at(g, i)), less(g, i, m, j)))),
            ('related among themselves', L.forall2(lambda e, x: L.Implies(
                L.And(S.has(e), L.Or(h.prec(e).has(x), h.succ(e).has(x))), S.has(x))))]


@contract('Causet.NewFence', 'C06', dict(
    length=('sym', 'int', sym_int, lambda r, w: r.randint(-1, 6)),
    height=[('sym', 'int', sym_int, lambda r, w: r.randint(-1, 4)), 'omit'], closed=['bool', 'omit']))
class _:
    opts = {'world': False, 'creating': True, 'list_vars': True, 'invariants_first': 'sequences',
            'relations_change': True, 'quick_ms': 50,
            'witness': {'at': ('int', 'int', 'event'), 'level': ('event', 'int'), 'place': ('event', 'int')}}
    result_kind = 'causet'

    def effect(c): return NEW

    def loop_invariants(c, st):
        L, n, h, h0 = c.L, c.a.length, st.heap, st.heap0
        if st.k is None:
            return []
        if not st.outer and st.sets and st.lists:
            k, S, loop = st.k, st.sets[0].cur, st.lists[0]
            last = k - 1
            num = lambda x: c.int_label(h.label(x))
            at = c.tracked(st, 'at', ('int', 'int', 'event'), lambda g, i: loop.at(i), lambda f:
                         lambda g, i: L.If(g == last, loop.at(i), f(g, i)))
            level = c.tracked(st, 'level', ('event', 'int'), lambda x: 0, lambda f:
                            lambda x: L.If(num(x) > last * n, last, f(x)))
            place = c.tracked(st, 'place', ('event', 'int'), lambda x: num(x) - 1, lambda f:
                            lambda x: L.If(num(x) > last * n, num(x) - last * n - 1, f(x)))
            less = layers_order(c, n, c.a.closed)
            out = layers_so_far(c, at, level, place, n, k, less, S, h, c.old)
            return out + [
                ('last layer', L.And(loop.len == n, c.ints(0, n, lambda i: L.Eq(loop.at(i), at(last, i))))),
                ('small labels', S.all(lambda x: L.And(c.is_int(h.label(x)), num(x) <= last * n + n))),
                ('every new event', L.forall(lambda x: L.Implies(
                    L.And(h.alloc(x), L.Not(c.old.alloc(x))), S.has(x)))),
                ('others stay', L.forall2(lambda e, x: L.Implies(c.old.alloc(e), L.And(
                    L.Iff(h.prec(e).has(x), c.old.prec(e).has(x)),
                    L.Iff(h.succ(e).has(x), c.old.succ(e).has(x))))))]
        if not st.lists:
            return []
        N, k = st.lists[0], st.k - st.lo
        first = 0 if not st.outer else st.outer[0]['k'] * n
        s = st.lo if st.outer else 0         # the list begins at this place of the layer
        at = lambda f: c.ints(0, k, f)
        pos = lambda x: c.int_label(h.label(x)) - first - s - 1
        out = [('length', N.len == k),
               ('new', at(lambda i: L.And(L.Not(h0.alloc(N.at(i))), h.alloc(N.at(i))))),
               ('labels', at(lambda i: L.Eq(h.label(N.at(i)), c.int_value(first + i + s + 1)))),
               ('every new event', L.forall(lambda x: L.Implies(
                   L.And(h.alloc(x), L.Not(h0.alloc(x))), L.And(
                       c.is_int(h.label(x)), 0 <= pos(x), pos(x) < k, L.Eq(N.at(pos(x)), x))))),
               ('past stays', L.forall2(lambda e, x: L.Implies(h0.alloc(e), L.And(
                   L.Iff(h.prec(e).has(x), h0.prec(e).has(x)),
                   L.Implies(h.succ(e).has(x), L.Or(h0.succ(e).has(x), L.Not(h0.alloc(x))))))))]
        if not st.outer:
            out.append(('unrelated', c.number_and_event(k, lambda i, x: L.And(
                L.Not(h.prec(N.at(i)).has(x)), L.Not(h.succ(N.at(i)).has(x))))))
        elif 'at' in c.witness():
            below, j = c.witness()['at'], st.outer[0]['k'] - 1
            prev = lambda i: L.If(i + s == 0, n - 1, i + s - 1)
            upto = lambda g, i, x: L.Or(L.Eq(x, below(j, i)), h0.prec(below(j, i)).has(x))
            out.append(('past', c.number_and_event(k, lambda i, x: L.And(
                L.Not(h.succ(N.at(i)).has(x)), L.Iff(h.prec(N.at(i)).has(x), L.Or(
                    upto(j, i + s, x), upto(j, prev(i), x)))))))
        return out

    def ensures(c):
        if not c.symbolic:
            return fence(c, c.result, c.a.length, c.a.height, c.a.closed)
        return fence_contract(c, c.a.length, c.a.height, c.a.closed)


def fence_contract(c, n, height, closed):
    L, R = c.L, c.result.events
    none = L.Or(n < 1, height < 0)
    if c.proving and 'at' not in c.witness():
        m, e = c.event_sequence()
        w = dict(at=lambda g, i: e(g), level=lambda x: c.int_label(c.new.label(x)) - 1,
                 place=lambda x: 0)
    else:
        w = c.witness()
    return [('empty', L.Implies(none, R.all(lambda x: L.false)))] + [
        (name, L.Implies(L.Not(none), f)) for name, f in layers_so_far(
            c, w['at'], w['level'], w['place'], n, height + 1, layers_order(c, n, closed),
            R, c.new, c.old)]


@contract('Causet.NewCrown', 'C06', dict(length=[('sym', 'int', sym_int, lambda r, w: r.randint(-1, 8)),
                                                 'omit']))
class _:
    opts = {'world': False}
    result_kind = 'causet'

    def effect(c): return NEW

    def ensures(c):
        if not c.symbolic:
            return fence(c, c.result, c.a.length, 1, True)
        return fence_contract(c, c.a.length, 1, c.L.true)


@contract('Causet.NewSimplex', 'C06', dict(
    d=('sym', 'nat', None, lambda r, w: r.choice([0, 1, 1, 2, 2, 3, 4])),
    includeCentralFace=['bool', 'omit']))
class _:
    opts = {'world': False}
    bounded = WHY
    result_kind = 'causet'

    def effect(c): return NEW

    def ensures(c):
        R, d = c.result, c.a.d
        v = range(1, d + 2)
        faces = [f for k in range(1, d + 2) for f in itertools.combinations(v, k)
                 if k <= d or c.a.includeCentralFace or d == 0]
        name = lambda f: '-'.join(map(str, f))
        want = {name(f): {name(g) for g in faces if set(g) < set(f)} for f in faces}
        return [('events are new', fresh(c, R)), ('ordered by inclusion', order_of(c, R) == want)]


# ------------------------------------------------------------------ C07
def matrix(rng, w):
    import numpy as np
    m = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    n = rng.choice([m, m, m, m - 1, m + 1, 0]) if rng.random() < 0.9 else rng.randint(0, m)
    n = max(0, n)
    p = rng.choice([0.0, 0.1, 0.2, 0.4])
    mode = rng.choice(['lower', 'lower', 'mixed', 'free'])
    q = list(range(max(n, m)))
    rng.shuffle(q)
    C = [[1 if rng.random() < (p or 0.5) and (mode == 'free' or (
        q[j] < q[i] if mode == 'mixed' else j < i)) else 0 for j in range(m)] for i in range(n)]
    C = np.array(C, dtype=rng.choice([bool, int, float])).reshape((n, m))
    return C


def sym_matrix(sort):
    def make(eng, name):
        import z3
        from pyvc.engine import SymMat
        I = z3.IntSort()
        rows, cols = z3.Ints('rows_%s cols_%s' % (name, name))
        eng.assume(z3.And(rows >= 0, cols >= 0))
        F = z3.Function('a_' + name, I, I, sort())
        return SymMat(eng, rows, cols, lambda i, j: F(eng.as_term(i), eng.as_term(j)), esort=sort())
    return make


def _bool():
    import z3
    return z3.BoolSort()


def _int():
    import z3
    return z3.IntSort()


MATRIX = [('sym', 'logical matrix', sym_matrix(_bool), matrix),
          ('sym', 'matrix of integers', sym_matrix(_int), matrix)]


def closure_of(C):
    n, m = C.shape
    r = [[bool(C[i, j]) if i < n else False for j in range(m)] for i in range(m)]
    for k in range(m):
        for i in range(m):
            if r[i][k]:
                for j in range(m):
                    r[i][j] = r[i][j] or r[k][j]
    return r


def turned(C):
    """rows, columns, entry (i, j) of the transposed matrix"""
    return C.cols, C.rows, lambda i, j: C.get2(j, i)


def upright(C):
    return C.rows, C.cols, C.get2


def related_later(c, st):
    """pasts and futures are set one event at a time"""
    return () if 'events' not in c.locals_of(st) else (
        'order:converse', 'order:link-past', 'order:link-future')


def from_matrix(name, past):
    view = (lambda c: c.vals['C']) if past else (lambda c: c.vals['C'].T)
    entries = upright if past else turned

    @contract('Causet.' + name, 'C07', dict(C=MATRIX))
    class _:
        opts = {'world': False, 'creating': True, 'relations_change': True,
                'invariants_first': 'sequences', 'not_invariant': related_later}
        result_kind = 'causet'

        def raises(c):
            if not c.symbolic:
                C = view(c)
                return [('ValueError', C.shape[0] > C.shape[1] or any(
                    r[i] for i, r in enumerate(closure_of(C))))]
            rows, cols, get = entries(c.a.C)
            T = c.closure(rows, cols, get)
            return [('ValueError', c.L.Or(rows > cols, c.some_int(0, cols, lambda i: T(i, i))))]

        def effect(c): return NEW

        def loop_invariants(c, st):
            local = c.locals_of(st)
            if st.k is None or st.outer or 'P' not in local:
                return []
            L, k, h, h0 = c.L, st.k, st.heap, st.heap0
            rows, m, get = entries(c.a.C)
            T, P, R0 = c.closure(rows, m, get), local['P'].get, c.restricted(rows, m, get)
            c.least(T, R0, P, m)
            if st.arrays and not st.lists and 'events' not in local:
                # the matrix lies between the given relation and its closure; the first k
                # events have been passed through
                return [('given', c.pairs(m, lambda i, j: L.Implies(R0(i, j), P(i, j)))),
                        ('implied', c.pairs(m, lambda i, j: L.Implies(P(i, j), T(i, j)))),
                        ('passed', c.number_pairs(k, m, lambda n, i, j: L.Implies(
                            L.And(P(i, n), P(n, j)), P(i, j))))]
            if 'events' not in local:         # the events are created
                if not st.lists:
                    return []
                N, pos = st.lists[0], lambda x: c.int_label(h.label(x)) - 1
                at = lambda f: c.ints(0, N.len, f)
                return [('length', N.len == k - st.lo),
                        ('new', at(lambda i: L.And(L.Not(h0.alloc(N.at(i))), h.alloc(N.at(i))))),
                        ('labels', at(lambda i: L.Eq(h.label(N.at(i)), c.int_value(i + 1)))),
                        ('unrelated', c.number_and_event(N.len, lambda i, x: L.And(
                            L.Not(h.prec(N.at(i)).has(x)), L.Not(h.succ(N.at(i)).has(x))))),
                        ('not linked', at(lambda i: L.Not(h.has_lprec(N.at(i))))),
                        ('others stay', L.forall2(lambda e, x: L.Implies(h0.alloc(e), L.And(
                            L.Iff(h.prec(e).has(x), h0.prec(e).has(x)),
                            L.Iff(h.succ(e).has(x), h0.succ(e).has(x))))))]
            e = local['events'].get
            pos = lambda x: c.int_label(h.label(x)) - 1
            among = lambda x: L.And(c.is_int(h.label(x)), 0 <= pos(x), pos(x) < m,
                                    L.Eq(e(pos(x)), x))
            return [('past', c.number_and_event(k, lambda i, x: L.Iff(
                        h.prec(e(i)).has(x), L.And(among(x), P(i, pos(x)))))),
                    ('future', c.number_and_event(k, lambda i, x: L.Iff(
                        h.succ(e(i)).has(x), L.And(among(x), P(pos(x), i))))),
                    ('no loop', c.ints(0, k, lambda i: L.Not(P(i, i)))),
                    ('not linked', c.ints(0, m, lambda i: L.Not(h.has_lprec(e(i))))),
                    ('others stay', L.forall2(lambda z, x: L.Implies(
                        L.Not(L.And(among(z), pos(z) < k)), L.And(
                            L.Iff(h.prec(z).has(x), h0.prec(z).has(x)),
                            L.Iff(h.succ(z).has(x), h0.succ(z).has(x))))))]

        def ensures(c):
            R = c.result
            if c.symbolic:
                rows, m, get = entries(c.a.C)
                T = c.closure(rows, m, get)
                return sequence_of(c, R, m, None, lambda i, j: T(j, i))
            C = view(c)
            r, m = closure_of(C), C.shape[1]
            past = order_of(c, R)
            return [('labels', labels_ok(c, R, m, None)), ('events are new', fresh(c, R)),
                    ('transitive closure', past == {i + 1: {j + 1 for j in range(m) if r[i][j]}
                                                    for i in range(m)})]


from_matrix('FromPastMatrix', True)
from_matrix('FromFutureMatrix', False)


# ------------------------------------------------------------------ files
def sym_file(eng, name):
    """a file with some matrix of integers"""
    import z3
    from pyvc.engine import FileV
    return FileV(eng, {}, lambda d: sym_matrix(_int)(eng, '%s_%d' % (name, ord(d))))


def in_scratch(run):
    """Run a call in a scratch directory that is removed afterwards."""
    def call(fn, vals, c):
        import warnings
        with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return run(fn, vals, c, os.path.join(d, 'causet.csv'))
    return call


def read_matrix(name, delimiter=','):
    with open(name) as f:
        return [[int(x) for x in line.split(delimiter)] for line in f.read().splitlines() if line]


def read_file(fn, vals, c, name):
    d = vals.get('delimiter', ',')
    with open(name, 'w') as f:
        for row in vals['filename']:
            f.write(d.join(str(int(x)) for x in row) + '\n')
    kw = {k: vals[k] for k in ('isPastMatrix', 'delimiter') if k in vals}
    return fn(name, **kw)


def save_file(fn, vals, c, name):
    try:
        return fn(vals['self'], name)
    finally:
        c.saved = read_matrix(name) if os.path.exists(name) else None


FILE = ('sym', 'file', sym_file, lambda rng, w: matrix(rng, w).astype(int))


def file_entries(c):
    L, M = c.L, c.in_file('filename', c.a.delimiter)
    past = L.B(c.a.isPastMatrix)
    none = L.Or(M.rows == 0, M.cols == 0)
    size = lambda a, b: L.If(none, 0, L.If(past, a, b))
    return size(M.rows, M.cols), size(M.cols, M.rows), \
        lambda i, j: L.If(past, M.get2(i, j), M.get2(j, i))


def file_view(c):
    C = c.vals['filename']
    if C.size == 0:
        return C.reshape((0, 0))
    return C if c.vals.get('isPastMatrix', True) else C.T


@contract('Causet.FromTextFile', 'C07 C08', dict(
    filename=FILE, isPastMatrix=['bool', 'omit'], delimiter=['omit', ('lit', ';')],
    kwargs=('kwargs', 'none', {})))
class _:
    opts = {'world': False, 'creating': True, 'call': in_scratch(read_file)}
    result_kind = 'causet'

    def raises(c):
        if not c.symbolic:
            C = file_view(c)
            return [('ValueError', C.shape[0] > C.shape[1] or any(
                r[i] for i, r in enumerate(closure_of(C))))]
        rows, cols, get = file_entries(c)
        T = c.closure(rows, cols, get)
        return [('ValueError', c.L.Or(rows > cols, c.some_int(0, cols, lambda i: T(i, i))))]

    def effect(c): return NEW

    def ensures(c):
        R = c.result
        if c.symbolic:
            rows, m, get = file_entries(c)
            T = c.closure(rows, m, get)
            return sequence_of(c, R, m, None, lambda i, j: T(j, i))
        C = file_view(c)
        r, m = closure_of(C), C.shape[1]
        past = order_of(c, R)
        return [('labels', labels_ok(c, R, m, None)), ('events are new', fresh(c, R)),
                ('transitive closure', past == {i + 1: {j + 1 for j in range(m) if r[i][j]}
                                                for i in range(m)})]


def new_content(eng):
    import z3
    from pyvc.engine import SymMat
    I = z3.IntSort()
    rows, cols = eng.fresh('rows', I), eng.fresh('cols', I)
    F = eng.fresh_fun('saved', I, I, I)
    return {',': SymMat(eng, rows, cols, lambda i, j: F(eng.as_term(i), eng.as_term(j)), esort=I)}


@contract('Causet.saveAsCSV', 'C08', dict(self=CS, filename=('sym', 'file', sym_file, lambda r, w: None)))
class _:
    opts = {'call': in_scratch(save_file), 'big_n': 0}

    def effect(c): return {'files': {'filename': new_content}}

    def ensures(c):
        L = c.L
        if not c.symbolic:
            from .sorting import some_listing
            m, M = list(c.a.self.members), c.saved

            class view:
                rows = len(m)
                get2 = lambda i, j: M[i][j]
            ok = M is not None and len(M) == len(m) and all(
                len(r) == len(m) and set(r) <= {0, 1} for r in M)
            return [('square matrix of 0 and 1', ok), ('past matrix of a listing', ok and (
                len(m) > 6 or some_listing(c, m, lambda c, a, b: lt(c, b, a), view)))]
        M = c.in_file('filename')
        n, e = c.listing()
        return listed(c, n, e, c.a.self.events) + [
            ('square', L.And(M.rows == n, M.cols == n)),
            ('entries', c.pairs(n, lambda i, j: M.get2(i, j) == L.If(lt(c, e(j), e(i)), 1, 0)))]


def listed(c, n, e, S):
    """e(0), .., e(n - 1) are the events of S, each once"""
    L = c.L
    return [('every event listed', S.all(lambda x: c.some_int(0, n, lambda i: L.Eq(e(i), x)))),
            ('only events listed', c.ints(0, n, lambda i: S.has(e(i)))),
            ('no event listed twice', c.pairs(n, lambda i, j: L.Implies(
                L.Eq(e(i), e(j)), i == j)))]


ROUNDTRIP = '''
def save_and_read(causet, filename):
    causet.saveAsCSV(filename)
    return Causet.FromTextFile(filename)
'''


def part_of_world(rng, w):
    """a causet that is causally closed, or any set of events"""
    from causets.causet import Causet
    o = Causet.__new__(Causet)
    o._events = set(w.events) if rng.random() < 0.6 else {
        e for e in w.events if rng.random() < 0.6}
    return o


@contract('causet.save_and_read', 'C08 C07', dict(
    causet=CS, filename=('sym', 'file', sym_file, lambda r, w: None)))
class _:
    opts = {'client': ROUNDTRIP, 'call': in_scratch(lambda fn, vals, c, name: fn(vals['causet'], name)),
            'max_n': 6, 'big_n': 0, 'creating': True}
    result_kind = 'causet'

    def effect(c): return {**NEW, 'files': {'filename': new_content}}

    def ensures(c):
        """the events read are new and ordered like those saved"""
        R = c.result
        if not c.symbolic:
            m = list(c.a.causet.members)
            less = lambda i, j: m[i] in c.old.g(m[j], 'prec')
            return [('labels', labels_ok(c, R, len(m), None)),
                    ('isomorphic', isomorphic(c, R, len(m), less))]
        n, e = c.listing()
        return listed(c, n, e, c.a.causet.events) + sequence_of(
            c, R, n, None, lambda i, j: lt(c, e(i), e(j), c.old))
