"""Contracts of sorting and of the causal matrices (C08)."""
from .common import *
from .generators import isomorphic, part_of_world


def each_once(c, R, S):
    """the list R holds every event of S exactly once"""
    L = c.L
    return [('only events of the set', c.ints(0, R.len, lambda i: S.has(R.get(i)))),
            ('all events of the set', S.all(lambda x: c.occurs(R, x))),
            ('no event twice', c.pairs(R.len, lambda i, j: L.Implies(
                L.Eq(R.get(i), R.get(j)), i == j)))]


class Listing:
    obj = None

    def __init__(self, get, n):
        self.get, self.len = get, n


def whole(c, a):
    return c.a.self.events if a is None else c.asset(a)


def comparable(labels):
    return all(isinstance(x, (int, float)) for x in labels) or \
        all(isinstance(x, str) for x in labels)


def label_order(c, R):
    """labels of the labelled events are non-decreasing (non-increasing if reversed)"""
    lab = [c.old.label(e) for e in R.items]
    lab = [x for x in lab if x is not None]
    if not comparable(lab):
        return True
    if c.a.reverse:
        lab.reverse()
    return all(a <= b for a, b in zip(lab, lab[1:]))


@contract('Causet.sortedByLabels', 'C08', dict(self=CS, eventSet=['none', SET], reverse='bool'))
class _:
    opts = {'ordered_lists': True}
    result_kind = 'evlist'

    def ensures(c):
        out = each_once(c, c.result, whole(c, c.a.eventSet))
        if not c.symbolic:
            return out + [('label order', label_order(c, c.result))]
        L, R, h = c.L, c.result, c.old
        lab, none, le = lambda i: h.label(R.get(i)), c.lab(None), c.label_le
        return out + [('label order', c.pairs(R.len, lambda i, j: L.Implies(
            L.And(L.If(c.a.reverse, j < i, i < j), L.Not(L.Eq(lab(j), none))),
            L.Or(L.Eq(lab(i), none), le(lab(i), lab(j)))))),
            ('events without label first', c.pairs(R.len, lambda i, j: L.Implies(
                L.And(L.Eq(lab(i), none), L.Not(L.Eq(lab(j), none))),
                L.If(c.a.reverse, j < i, i < j))))]


@contract('Causet.sortedByCausality', 'C08', dict(self=CS, eventSet=['none', SET], reverse='bool'))
class _:
    opts = {'invariants_first': 'sequences'}
    result_kind = 'evlist'

    def loop_invariants(c, st):
        """the first i events are a linear extension; the event at i is not before any of the
        first j events"""
        if st.k is None or not st.arrays:
            return []
        L, S, out = c.L, whole(c, c.a.eventSet), []
        i, j = (st.outer[-1]['k'], st.k) if st.outer else (st.k, None)
        for a in st.arrays:
            R = Listing(a.get, c.eng.as_term(a.obj.length))
            out += each_once(c, R, S)
            out.append(('extension so far', c.pairs(i, lambda p, q: L.Implies(
                lt(c, R.get(p), R.get(q)), p < q))))
            if j is not None:
                out.append(('not before', c.ints(0, j, lambda p: L.Not(
                    lt(c, R.get(i), R.get(p))))))
        return out

    def ensures(c):
        L, R = c.L, c.result
        return each_once(c, R, whole(c, c.a.eventSet)) + [
            ('linear extension', c.pairs(R.len, lambda i, j: L.Implies(
                lt(c, R.get(i), R.get(j)), L.If(c.a.reverse, j < i, i < j))))]


def matrix(name, rel, arg, lazy):
    """rel(c, a, b): the entry (i, j) of events a, b; the default listing is sorted by causality"""
    @contract('Causet.' + name, 'C08', {'self': CS, arg: ['evlist', 'none'],
                                        'dtype': [('lit', bool), ('lit', int), 'omit']})
    class _:
        opts = {'big_n': 0}

        def result_kind(eng, c):
            return fresh_matrix(eng, c.a.dtype)

        def effect(c): return LAZY if lazy else {}

        def ensures(c):
            L, M, ev = c.L, c.result, getattr(c.a, arg)
            out = [('kind of entries', c.is_matrix_of(M, c.a.dtype))]
            if ev is None and not c.symbolic:
                m = [e for e in c.a.self.members]
                n = len(m)
                lower = all(not M.get2(i, j) or i > j if 'Past' in name else not M.get2(i, j) or
                            i < j for i in range(n) for j in range(n)) if M.rows == n else False
                return out + [('square', (M.rows, M.cols) == (n, n)), ('triangular', lower),
                              ('some listing', M.rows == n and some_listing(c, m, rel, M))]
            if ev is None:
                n, e = c.listing()
                S = c.a.self.events
                out += [('every event listed', S.all(lambda x: c.some_int(
                            0, n, lambda i: L.Eq(e(i), x)))),
                        ('only events listed', c.ints(0, n, lambda i: S.has(e(i)))),
                        ('no event listed twice', c.pairs(n, lambda i, j: L.Implies(
                            L.Eq(e(i), e(j)), i == j))),
                        ('in causal order', c.pairs(n, lambda i, j: L.Implies(
                            lt(c, e(i), e(j)), i < j)))]
            else:
                n, e = ev.len, ev.get
            return out + [('square', L.And(M.rows == n, M.cols == n)),
                          ('entries', c.pairs(n, lambda i, j: c.states(
                              M.get2(i, j), rel(c, e(i), e(j)))))]


def fresh_matrix(eng, dtype):
    import z3
    from pyvc.engine import SymMat
    from pyvc.arrays import dtype_sort
    I, s = z3.IntSort(), dtype_sort(dtype)
    rows, cols = eng.fresh('rows', I), eng.fresh('cols', I)
    F = eng.fresh_fun('res', I, I, s)
    return SymMat(eng, rows, cols, lambda i, j: F(eng.as_term(i), eng.as_term(j)), esort=s)


def some_listing(c, m, rel, M):
    import itertools
    n = len(m)
    T = [[bool(rel(c, a, b)) for b in m] for a in m]
    G = [[bool(M.get2(i, j)) for j in range(n)] for i in range(n)]
    return any(all(T[p[i]][p[j]] == G[i][j] for i in range(n) for j in range(n))
               for p in itertools.permutations(range(n)))


matrix('PastMatrix', lambda c, a, b: lt(c, b, a), 'labeledEvents', False)
matrix('FutureMatrix', lambda c, a, b: lt(c, a, b), 'labeledEvents', False)
matrix('LinkPastMatrix', lambda c, a, b: cover(c, b, a), 'labelling', True)
matrix('LinkFutureMatrix', lambda c, a, b: cover(c, a, b), 'labelling', True)
