"""Contracts of layers, ranks, the central antichain (C11, C12), paths (C13), smallest intervals
and distances along antichains (C14)."""
from .common import *
from .causets import interval, whole


# ------------------------------------------------- C11 central antichain
@contract('Causet.CentralAntichain', 'C11', dict(self=CS, e=['none', EV]))
class _:
    result_kind = 'set'
    opts = {'ordered_lists': True, 'invariants_first': 'sequences'}

    def loop_invariants(c, st):
        """every event considered so far is in the set or related to a member"""
        L, S = c.L, c.a.self.events
        if st.k is None or not c.eng.uniques or not c.eng.enums:
            return []
        place = c.eng.uniques[-1][2]
        at = c.eng.enums[-1][1]
        rel = lambda x, y: L.Or(lt(c, x, y), lt(c, y, x))
        out = []
        for v in st.sets:
            R = v.cur
            ok = lambda x: L.Or(R.has(x), R.any(lambda y: rel(x, y)))
            out += [('inside', R.sub(S)),
                    ('antichain', L.forall2(lambda x, y: L.Implies(
                        L.And(R.has(x), R.has(y)), L.Not(lt(c, x, y)))))]
            if st.outer:
                k = st.outer[-1]['k']
                out.append(('considered', S.all(lambda x: L.Or(
                    ok(x), place(at(x)) > k, L.And(place(at(x)) == k, at(x) >= st.k)))))
            else:
                out.append(('considered', S.all(lambda x: L.Or(ok(x), place(at(x)) >= st.k))))
        return out

    def ensures(c):
        L, R, S = c.L, c.result, c.a.self.events
        rel = lambda x, y: L.Or(lt(c, x, y), lt(c, y, x))
        return [('events of the causet', R.sub(S)),
                ('antichain', L.forall2(lambda x, y: L.Implies(
                    L.And(R.has(x), R.has(y)), L.Not(lt(c, x, y))))),
                ('maximal', S.all(lambda x: L.Or(R.has(x), R.any(lambda y: rel(x, y)))))]


# ------------------------------------------------- C12 layers and ranks
def layer(c, S, e, future, n):
    """the layer number of e over (or below) S is n >= 0"""
    L = c.L
    T = (c.h.prec(e) if future else c.h.succ(e)) & S
    card = lambda x: (interval(c, x, e, True) if future else interval(c, e, x, True)).card()
    return L.And(L.Implies(L.Not(T.nonempty()), n == 0),
                 T.all(lambda x: card(x) - 1 <= n),
                 L.Implies(T.nonempty(), T.any(lambda x: card(x) - 1 == n)))


def rank(c, S, e, future, n):
    L = c.L
    T = (c.h.prec(e) if future else c.h.succ(e)) & S
    r = lambda x: distance(c, x, e) if future else distance(c, e, x)
    # for the time-reversed version the ranks of the future events are counted
    return L.And(L.Implies(L.Not(T.nonempty()), n == 0),
                 T.all(lambda x: r(x) <= n), L.Implies(T.nonempty(), T.any(lambda x: r(x) == n)))


def distance(c, a, b):
    """number of links on a shortest link path from a to b (a <= b)"""
    return c.link_distance(a, b)


def numbers(name, num, lazy):
    @contract('Causet.' + name, 'C12', dict(eventList='evlist', reverse='bool'))
    class _:
        result_kind = 'intlist'

        def effect(c): return LAZY if lazy else {}

        def ensures(c):
            L, R, ev = c.L, c.result, c.a.eventList
            S = c.asset(ev)
            return [('one number per event', R.len == ev.len),
                    ('numbers', c.ints(0, ev.len, lambda i: L.If(
                        c.a.reverse, lambda: num(c, S, ev.get(i), False, -R.get(i)),
                        lambda: num(c, S, ev.get(i), True, R.get(i)))))]


numbers('LayerNumbers', layer, False)
numbers('RankNumbers', rank, True)


def ranges(name, number, lazy):
    @contract('Causet.' + name, 'C12', dict(eventSet=SET, first='int', last=['int', 'omit']))
    class _:
        opts = {'quick_ms': 80, 'candidate_ms': 1500}
        result_kind = 'set'

        def effect(c): return LAZY if lazy else {}

        def ensures(c):
            L, R, S = c.L, c.result, c.a.eventSet
            first, last = c.a.first, c.a.first if c.a.last is None else c.a.last
            past = L.S(lambda x: L.Or(S.has(x), S.any(lambda y: lt(c, x, y))))
            future = L.S(lambda x: L.Or(S.has(x), S.any(lambda y: lt(c, y, x))))

            # the largest number over T, 0 if T is empty, lies within lo..hi
            def within(x, fut, lo, hi):
                T = (c.h.prec(x) if fut else c.h.succ(x)) & S
                num = lambda y: number(c, y, x) if fut else number(c, x, y)
                return L.If(T.nonempty(), lambda: L.And(
                    T.any(lambda y: num(y) >= lo), T.all(lambda y: num(y) <= hi)),
                    lambda: L.And(lo <= 0, 0 <= hi))
            inpast = lambda x: L.And(past.has(x), first <= 0, within(
                x, False, L.If(last < 0, lambda: -last, lambda: 0), -first))
            infuture = lambda x: L.And(future.has(x), last > 0, within(
                x, True, L.If(first < 0, lambda: 0, lambda: first), last))
            return [('past events of the range', L.forall(lambda x: L.Implies(inpast(x), R.has(x)))),
                    ('future events of the range', L.forall(lambda x: L.Implies(
                        infuture(x), R.has(x)))),
                    ('no others', R.all(lambda x: L.Or(inpast(x), infuture(x))))]


ranges('Layers', lambda c, a, b: interval(c, a, b, True).card() - 1, False)
ranges('Ranks', distance, True)


def rank_value(eng, c):
    import z3
    from pyvc.values import ExtV
    a, b = c.a.self, c.a.other
    return ExtV(eng.L.Not(le(c, a, b)), z3.ToReal(distance(c, a, b)))


@contract('CausetEvent.Rank', 'C12', dict(self=EV, other=EV))
class _:
    result_kind = rank_value
    opts = {'invariants_first': 'all', 'candidate_ms': 2000, 'quick_ms': 80}

    def effect(c): return LAZY

    def loop_invariants(c, st):
        """the least value over the pairs of linked events considered so far"""
        L, a, b = c.L, c.a.self, c.a.other
        if st.done is None:
            return []
        A, B = cover_future(c, a), cover_past(c, b)
        out = []
        for inf, r in st.exts:
            val = lambda x, y: c.R(distance(c, x, y)) + 2
            ok = lambda x, y: L.Implies(le(c, x, y), L.And(L.Not(inf), r <= val(x, y)))
            out.append(('attained', L.Or(inf, A.any(lambda x: B.any(
                lambda y: L.And(le(c, x, y), r == val(x, y)))))))
            first = st.ranges_over(A)
            pairs = [(st.done, B) if first else (A, st.done)]
            for o in st.outer:
                if o.get('elem') is not None:
                    pairs = [(o['done'], B), (L.single(o['elem']), st.done)] if first else \
                        [(A, o['done']), (st.done, L.single(o['elem']))]
            for X, Y in pairs:
                out.append(('least', L.forall2(lambda x, y: L.Implies(
                    L.And(X.has(x), Y.has(y)), ok(x, y)))))
        return out

    def ensures(c):
        L, a, b = c.L, c.a.self, c.a.other
        v = c.result
        inf = c.infinite(v)
        if not c.at_call:       # facts for the proof, not for the callers
            c.link_distance_recursion()
            x = c.shortest_step(a, b, True)
            c.shortest_step(x, b, False)
        return [('infinite if not in the future', L.Or(inf, le(c, a, b))),
                ('link distance', L.Implies(le(c, a, b), lambda: L.And(
                    L.Not(inf), c.eqn(c.number(v), c.R(distance(c, a, b))))))]


# ------------------------------------------------- C13 paths
def lengths(rng, w):
    return rng.choice(['any', 'min', 'max', 'timegeo', rng.randint(0, 6),
                       [rng.randint(0, 4), rng.randint(1, 7)], [rng.randint(1, 6)], 'any'])


@contract('Causet.Paths', 'C13', dict(a=EV, b=EV, length=[
    'omit', ('sym', 'length', None, lengths)]))
class _:
    bounded = 'recursive generator'
    opts = {'max_n': 9}

    def requires(c):
        n = c.vals['length']
        return [('a range is not empty', not isinstance(n, list) or n[0] <= n[-1])]

    def effect(c): return LAZY

    def ensures(c):
        a, b, n = c.a.a, c.a.b, c.vals['length']
        got = [tuple(p) for p in c.raw]
        want = []

        def walk(p):
            if p[-1] is b:
                want.append(tuple(p))
                return
            for x in c.U:
                if cover(c, p[-1], x) and le(c, x, b):
                    walk(p + [x])
        if le(c, a, b):
            walk([a])
        if isinstance(n, int):
            want = [p for p in want if len(p) == n]
        elif isinstance(n, list):
            want = [p for p in want if n[0] <= len(p) <= n[-1]]
        elif n == 'min':
            want = [p for p in want if len(p) == min(map(len, want))]
        elif n in ('max', 'timegeo'):
            want = [p for p in want if len(p) == max(map(len, want))]
        return [('each path once', len(set(got)) == len(got)),
                ('exactly the paths', set(got) == set(want))]


# ------------------------------------------------- C14
def least(c, S, f, r):
    """r is the least value of f on the non-empty set S"""
    return c.L.And(S.all(lambda x: r <= f(x)), S.any(lambda x: r == f(x)))


@contract('Causet.SmallestIntervalCard', 'C14', dict(self=CS, a=EV, b=EV,
                                                     searching=['none', SET],
                                                     intersecting=['none', SET]))
class _:
    result_kind = 'int'

    def ensures(c):
        L, r, I = c.L, c.result, c.a.intersecting
        cut = (lambda S: S) if I is None else (lambda S: S & I)
        # related events
        lo = L.If(lt(c, c.a.b, c.a.a), c.a.b, c.a.a)
        hi = L.If(lt(c, c.a.b, c.a.a), c.a.a, c.a.b)
        rel = le(c, lo, hi)
        S = c.a.self.events if c.a.searching is None else c.a.searching
        none = c.a.searching is None
        both = L.Or(none, L.And(S.has(lo), S.has(hi)))
        P = c.h.prec(lo) & c.h.prec(hi) & S
        F = c.h.succ(lo) & c.h.succ(hi) & S
        # spacelike, or neither of the events is searched
        spacelike = L.Not(L.And(rel, L.Or(none, S.has(lo), S.has(hi))))
        return [('interval of related events', L.Implies(L.And(rel, both), lambda: r == cut(
            interval(c, lo, hi, True)).card())),
            ('only the earlier event is searched', L.Implies(
                L.And(rel, L.Not(both), S.has(lo)), lambda: r == cut(c.h.succ(lo)).card())),
            ('only the later event is searched', L.Implies(
                L.And(rel, L.Not(both), L.Not(S.has(lo)), S.has(hi)),
                lambda: r == cut(c.h.prec(hi)).card())),
            ('nothing in common', L.Implies(L.And(spacelike, L.Not(P.nonempty()), L.Not(
                F.nonempty())), lambda: r == 0)),
            ('common future only', L.Implies(
                L.And(spacelike, L.Not(P.nonempty()), F.nonempty()),
                lambda: least(c, F, lambda f: cut(c.h.prec(f)).card(), r))),
            ('common past only', L.Implies(
                L.And(spacelike, P.nonempty(), L.Not(F.nonempty())),
                lambda: least(c, P, lambda p: cut(c.h.succ(p)).card(), r))),
            ('least interval', L.Implies(
                L.And(spacelike, P.nonempty(), F.nonempty()), lambda: L.And(
                    P.all(lambda p: F.all(lambda f: r <= cut(interval(c, p, f, True)).card())),
                    P.any(lambda p: F.any(lambda f: r == cut(interval(c, p, f, True)).card())))))]


SYMM = '''
def both_orders(causet, a, b, searching, intersecting):
    return (causet.SmallestIntervalCard(a, b, searching, intersecting),
            causet.SmallestIntervalCard(b, a, searching, intersecting))
'''


@contract('causet.both_orders', 'C14', dict(causet=CS, a=EV, b=EV, searching=['none', SET],
                                            intersecting=['none', SET]))
class _:
    opts = {'client': SYMM}

    def ensures(c):
        r, s = c.items(c.result, 2)
        a, b, L = c.a.a, c.a.b, c.L
        S = c.a.searching
        out = [('unrelated', L.Or(le(c, a, b), lt(c, b, a), c.eqn(r, s))),
               ('identical', L.Implies(L.Eq(a, b), lambda: c.eqn(r, s)))]
        for who, rel in (('first is earlier', lt(c, a, b)), ('first is later', lt(c, b, a))):
            for x in (True, False):
                for y in (True, False):
                    if S is not None:
                        out.append(('%s, %s/%s searched' % (who, x, y), L.Implies(L.And(
                            rel, S.has(a) if x else L.Not(S.has(a)),
                            S.has(b) if y else L.Not(S.has(b))), lambda: c.eqn(r, s))))
            if S is None:
                out.append((who, L.Implies(rel, lambda: c.eqn(r, s))))
        return [('order of the events does not matter: ' + n, f) for n, f in out]


def antichain(rng, w):
    """events of the world, pairwise unrelated"""
    out = []
    ev = list(w.events)
    rng.shuffle(ev)
    for e in ev:
        if all(e not in x._prec and x not in e._prec for x in out):
            out.append(e)
    if rng.random() < 0.3 and out:
        out.pop()
    return out


ANTICHAIN = ('sym', 'antichain', None, antichain)


@contract('Causet.DistanceMatrix', 'C14', dict(
    self=CS, antichain=ANTICHAIN, counting=['omit', ('lit', 'ziczac'), ('lit', 'intersection'),
                                            ('lit', 'links'), ('lit', '')],
    recursive=['bool', 'omit']))
class _:
    opts = {'max_n': 8}
    bounded = 'fixpoint over slices'

    def raises(c):
        return [('ValueError', c.a.counting not in ('ziczac', 'intersection'))]

    def effect(c): return LAZY

    def ensures(c):
        n, M = c.a.antichain.len, c.result
        ok = (M.rows, M.cols) == (n, n)
        return [('square', ok),
                ('symmetric', not ok or all(M.get2(i, j) == M.get2(j, i) for i in range(n)
                                            for j in range(n))),
                ('zero diagonal', not ok or all(M.get2(i, i) == 0 for i in range(n)))]


@contract('Causet.Antipaths', 'C14', dict(self=CS, a=EV, b=EV, along=ANTICHAIN))
class _:
    opts = {'max_n': 8}
    bounded = 'recursive generator'

    def effect(c): return LAZY

    def ensures(c):
        a, b, A = c.a.a, c.a.b, c.vals['along']
        return [('starts and ends', all(p[0] is a and p[-1] is b for p in c.raw)),
                ('stays within', all(any(x is y for y in A) for p in c.raw for x in p)),
                ('each once', len({tuple(map(id, p)) for p in c.raw}) == len(c.raw))]
