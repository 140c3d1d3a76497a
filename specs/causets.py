"""Contracts of causet.py: membership and set algebra, cones, intervals, infinities,
chain/antichain/path tests, linking of whole causets, merging."""
from .common import *

OMIT = 'omit'


def evs(c, n='self'):
    return c.old_events(n)


# ------------------------------------------------- C05 membership, algebra
@contract('Causet.__contains__', 'C05', dict(self=CS, other=EV))
class _:
    def result(c): return c.a.self.events.has(c.a.other)


@contract('Causet.Card', 'C05', dict(self=CS))
class _:
    def result(c): return c.a.self.events.card()


@contract('Causet.len', 'C05', dict(other=CS))
class _:
    def result(c): return c.a.other.events.card()


COLL = [SET, 'evlist', CS]


def _algebra(name, f, kinds=COLL):
    @contract('Causet.' + name, 'C05', dict(self=CS, other=kinds))
    class _:
        def result(c): return f(c.a.self.events, c.asset(c.a.other))


for _n in ('__sub__', 'difference'):
    _algebra(_n, lambda s, o: s - o)
for _n in ('__rsub__',):
    _algebra(_n, lambda s, o: o - s)
for _n in ('__or__', '__ror__', 'union'):
    _algebra(_n, lambda s, o: s | o)
for _n in ('__and__', '__rand__', 'intersection'):
    _algebra(_n, lambda s, o: s & o)
for _n in ('__xor__', '__rxor__', 'symmetric_difference'):
    _algebra(_n, lambda s, o: s ^ o)


@contract('Causet.add', 'C05 C03', dict(self=CS, eventSet=COLL, unlink='bool'))
class _:
    def effect(c):
        L, h = c.L, c.old
        S = c.a.self.events | c.asset(c.a.eventSet)
        keep = lambda flag: lambda e: L.And(flag(e), L.Not(L.And(c.a.unlink, S.has(e))))
        return {'events': {'self': S},
                'has_lprec': keep(h.has_lprec), 'has_lsucc': keep(h.has_lsucc)}


@contract('Causet.discard', 'C05 C03', dict(self=CS, eventSet=COLL, unlink='bool'))
class _:
    def effect(c):
        L, h = c.L, c.old
        S = c.a.self.events - c.asset(c.a.eventSet)
        keep = lambda flag: lambda e: L.And(flag(e), L.Not(L.And(c.a.unlink, S.has(e))))
        return {'events': {'self': S},
                'has_lprec': keep(h.has_lprec), 'has_lsucc': keep(h.has_lsucc)}


@contract('Causet.find', 'C05', dict(self=CS, label='label'))
class _:
    def raises(c):
        return [('ValueError', c.L.Not(c.a.self.events.any(
            lambda e: c.L.Eq(c.h.label(e), c.lab(c.a.label)))))]

    def ensures(c):
        return [('member', c.a.self.events.has(c.result)),
                ('label', c.L.Eq(c.h.label(c.result), c.lab(c.a.label)))]
    result_kind = "event"


def found(c, *labels):
    L = c.L
    return c.a.C.events & L.S(lambda e: L.Or(*[L.Eq(c.h.label(e), c.lab(x)) for x in labels]))


for _n in (1, 2):
    @contract('causet.find_all_%d' % _n, 'C05', dict(C=CS, **{x: 'label' for x in 'pq'[:_n]}))
    class _:
        opts = {'client': 'def find_all_%d(C, %s):\n    return C.findAll(%s)\n' % (
            _n, ', '.join('pq'[:_n]), ', '.join('pq'[:_n]))}

        def result(c, n=_n):
            return found(c, *[getattr(c.a, x) for x in 'pq'[:n]])

    @contract('causet.find_any_%d' % _n, 'C05', dict(C=CS, **{x: 'label' for x in 'pq'[:_n]}))
    class _:
        opts = {'client': 'def find_any_%d(C, %s):\n    return {e for e in C.findAny(%s)}\n' % (
            _n, ', '.join('pq'[:_n]), ', '.join('pq'[:_n]))}

        def result(c, n=_n):
            return found(c, *[getattr(c.a, x) for x in 'pq'[:n]])


@contract('causet.iterate', 'C05', dict(C=CS))
class _:
    opts = {'client': """
def iterate(C):
    return {e for e in C}
"""}

    def result(c):
        return c.a.C.events


# ------------------------------------------------------------ C03 linking
@contract('Causet.link', 'C03', dict(self=CS))
class _:
    def effect(c): return {'links': 'any'}

    def effect_any(c):
        L, h, S = c.L, c.old, c.a.self.events
        return {'has_lprec': lambda e: L.Or(h.has_lprec(e), S.has(e)),
                'has_lsucc': lambda e: L.Or(h.has_lsucc(e), S.has(e)),
                'lprec': lambda e, x: L.If(S.has(e), lambda: h.cover(x, e),
                                           lambda: h.lprec(e).has(x)),
                'lsucc': lambda e, x: L.If(S.has(e), lambda: h.cover(e, x),
                                           lambda: h.lsucc(e).has(x))}

    def ensures(c):
        n = c.new
        return [('linked', c.a.self.events.all(
            lambda e: c.L.And(n.has_lprec(e), n.has_lsucc(e))))]


@contract('Causet.unlink', 'C03', dict(self=CS))
class _:
    def effect_any(c): return unlinked(c)

    def effect(c): return unlinked(c)


def unlinked(c):
    L, h, S = c.L, c.old, c.a.self.events
    return {'has_lprec': lambda e: L.And(h.has_lprec(e), L.Not(S.has(e))),
            'has_lsucc': lambda e: L.And(h.has_lsucc(e), L.Not(S.has(e)))}


@contract('Causet.LinkCount', 'C03', dict(self=CS, eventSet=['none', SET]))
class _:
    def effect(c): return LAZY

    def result(c):
        L = c.L
        if c.a.eventSet is None:
            return L.sum(c.a.self.events.mem, lambda e: cover_past(c, e).card())
        return L.sum(c.a.eventSet.mem, lambda e: (cover_past(c, e) & c.a.eventSet).card())


@contract('CausetEvent.LinkCountOf', 'C03', dict(eventSet=SET))
class _:
    def effect(c): return LAZY

    def result(c):
        return c.L.sum(c.a.eventSet.mem, lambda e: (cover_past(c, e) & c.a.eventSet).card())


# ------------------------------------------------------- C06 merging
@contract('Causet.merge', 'C06 C01 C03', dict(pastSet=SET, futureSet=SET, disjoint='bool'))
class _:
    def requires(c):
        L, h, P, F = c.L, c.old, c.a.pastSet, c.a.futureSet
        return [('past is past-closed and future is future-closed', L.forall2(lambda a, b: L.Implies(
            lt(c, a, b, h), L.And(L.Implies(P.has(b), P.has(a)), L.Implies(F.has(a), F.has(b)))))),
            ('no event on both sides', L.forall(lambda a: L.Not(L.And(P.has(a), F.has(a)))))]

    def effect(c):
        L, h, P, F = c.L, c.old, c.a.pastSet, c.a.futureSet
        d = c.a.disjoint
        return {'prec': lambda e, x: L.Or(h.prec(e).has(x), L.And(L.Not(d), F.has(e), P.has(x))),
                'succ': lambda e, x: L.Or(h.succ(e).has(x), L.And(L.Not(d), P.has(e), F.has(x))),
                'links': 'any'}
    result_kind = "causet"

    def ensures(c):
        L, P, F, n = c.L, c.a.pastSet, c.a.futureSet, c.new
        ev = c.result.events
        return [('contains both', (P | F).sub(ev))] + closure(c, ev, P | F, n)


def closed(c, S, h):
    return S.all(lambda a: c.L.forall(lambda x: c.L.Implies(
        c.L.Or(h.prec(a).has(x), h.succ(a).has(x)), S.has(x))))


def closure(c, ev, S, h):
    """ev is the smallest superset of S closed under past and future"""
    return [('superset', S.sub(ev)), ('closed', closed(c, ev, h)),
            ('smallest', c.least_closed(ev, S, h))]


# ------------------------------------------------------- C10 chains
@contract('Causet.isChain', 'C10', dict(self=CS, events=['none', SET, 'evlist', CS]))
class _:
    def result(c):
        L = c.L
        S = c.a.self.events if c.a.events is None else c.asset(c.a.events)
        return chain(c, S)


def chain(c, S):
    L = c.L
    return L.forall2(lambda x, y: L.Implies(L.And(S.has(x), S.has(y)), L.Or(
        le(c, x, y), lt(c, y, x))))


@contract('Causet.isAntichain', 'C10', dict(self=CS, events=['none', SET, 'evlist', CS]))
class _:
    def result(c):
        L = c.L
        S = c.a.self.events if c.a.events is None else c.asset(c.a.events)
        return L.forall2(lambda x, y: L.Implies(L.And(S.has(x), S.has(y)), L.Not(lt(c, x, y))))


@contract('Causet.isPath', 'C10', dict(self=CS, events=['none', SET, 'evlist', CS]))
class _:
    def effect(c): return LAZY

    def result(c):
        L = c.L
        S = c.a.self.events if c.a.events is None else c.asset(c.a.events)
        return L.And(S.nonempty(), chain(c, S), S.all(lambda e: L.Or(
            L.Not(S.any(lambda x: lt(c, x, e))), S.any(lambda x: cover(c, x, e)))))


# ------------------------------------------------- C09 cones and intervals
@contract('Causet.PastInf', 'C09', dict(self=CS))
class _:
    def result(c): return c.a.self.events.filter(lambda e: c.h.prec(e).empty())


@contract('Causet.FutureInf', 'C09', dict(self=CS))
class _:
    def result(c): return c.a.self.events.filter(lambda e: c.h.succ(e).empty())


@contract('Causet.PastInfCard', 'C09', dict(self=CS))
class _:
    def result(c): return c.a.self.events.filter(lambda e: c.h.prec(e).empty()).card()


@contract('Causet.FutureInfCard', 'C09', dict(self=CS))
class _:
    def result(c): return c.a.self.events.filter(lambda e: c.h.succ(e).empty()).card()


def minimal(c, S):
    return S.filter(lambda e: c.L.Not(S.any(lambda x: lt(c, x, e))))


def maximal(c, S):
    return S.filter(lambda e: c.L.Not(S.any(lambda x: lt(c, e, x))))


@contract('Causet.PastInfOf', 'C09 C11', dict(eventSet=SET))
class _:
    def result(c): return minimal(c, c.a.eventSet)


@contract('Causet.FutureInfOf', 'C09 C11', dict(eventSet=SET))
class _:
    def result(c): return maximal(c, c.a.eventSet)


@contract('Causet.PastInfCardOf', 'C09', dict(eventSet=SET))
class _:
    def result(c): return minimal(c, c.a.eventSet).card()


@contract('Causet.FutureInfCardOf', 'C09', dict(eventSet=SET))
class _:
    def result(c): return maximal(c, c.a.eventSet).card()


def cone_query(c, strict):
    """union / intersection of strict(e), with the members iff includePresent"""
    L, S = c.L, c.a.eventSet
    pres, inter = c.a.includePresent, c.a.intersect
    member = lambda e, x: L.Or(strict(e, x), L.And(pres, L.Eq(e, x)))
    return L.S(lambda x: L.If(inter,
                              L.And(S.nonempty(), S.all(lambda e: member(e, x))),
                              S.any(lambda e: member(e, x))))


@contract('Causet.PastOf', 'C09', dict(eventSet=SET, includePresent='bool', intersect='bool'))
class _:
    def result(c): return cone_query(c, lambda e, x: lt(c, x, e))


@contract('Causet.FutureOf', 'C09', dict(eventSet=SET, includePresent='bool', intersect='bool'))
class _:
    def result(c): return cone_query(c, lambda e, x: lt(c, e, x))


@contract('Causet.ConeOf', 'C09 C05', dict(eventSet=SET, includePresent='bool', intersect='bool'))
class _:
    def result(c): return cone_query(c, lambda e, x: c.L.Or(lt(c, x, e), lt(c, e, x)))


@contract('Causet.SpacelikeTo', 'C09', dict(self=CS, eventSet=SET))
class _:
    def result(c):
        return c.a.self.events.filter(lambda x: c.a.eventSet.all(lambda e: c.L.And(
            c.L.Not(le(c, e, x)), c.L.Not(lt(c, x, e)))))


def between(c, a, b):
    return c.L.S(lambda x: c.L.And(lt(c, a, x), lt(c, x, b)))


def interval(c, a, b, boundary):
    L = c.L
    return L.S(lambda x: L.Or(L.And(lt(c, a, x), lt(c, x, b)), L.And(
        le(c, a, b), L.Or(boundary, L.Eq(a, b)), L.Or(L.Eq(x, a), L.Eq(x, b)))))


@contract('Causet.Interval', 'C09', dict(a=EV, b=EV, includeBoundary='bool'))
class _:
    def result(c): return interval(c, c.a.a, c.a.b, c.a.includeBoundary)


@contract('Causet.IntervalCard', 'C09 C12 C14', dict(a=EV, b=EV, includeBoundary='bool'))
class _:
    def result(c): return interval(c, c.a.a, c.a.b, c.a.includeBoundary).card()


def perimetral(c, a, b):
    return c.L.S(lambda x: c.L.And(cover(c, a, x), cover(c, x, b)))


@contract('Causet.PerimetralEvents', 'C09', dict(a=EV, b=EV))
class _:
    def effect(c): return LAZY
    def result(c): return perimetral(c, c.a.a, c.a.b)


@contract('Causet.PerimetralEventCount', 'C09', dict(a=EV, b=EV))
class _:
    def effect(c): return LAZY
    def result(c): return perimetral(c, c.a.a, c.a.b).card()


@contract('Causet.InternalEvents', 'C09', dict(a=EV, b=EV))
class _:
    def effect(c): return LAZY
    def result(c): return between(c, c.a.a, c.a.b) - perimetral(c, c.a.a, c.a.b)


@contract('Causet.InternalEventCount', 'C09', dict(a=EV, b=EV))
class _:
    def effect(c): return LAZY
    def result(c): return (between(c, c.a.a, c.a.b) - perimetral(c, c.a.a, c.a.b)).card()


# ------------------------------------------------- C05 closure at creation
@contract('Causet.__init__', 'C05', dict(self='newcauset', eventSet=[SET, 'omit']))
class _:
    def effect(c): return {'havoc_events': ['self']}

    def ensures(c):
        L, S = c.L, c.asset(c.a.eventSet)
        ev = c.post_args['self'].events
        return closure(c, ev, S, c.old) + [
            ('a closed set is kept', L.Implies(c.named(closed(c, S, c.old)), lambda: ev.sub(S)))]

    def loop_invariants(c, st):
        L, S = c.L, c.asset(c.a.eventSet)
        out, if_closed = [], c.named(closed(c, S, c.old))
        for v in st.sets:
            out += [('superset', S.sub(v.cur)), ('least', c.least_closed(v.cur, S, c.old)),
                    ('kept', L.Implies(if_closed, lambda: v.cur.sub(S)))]
        return out


# ------------------------------------------------- C11 decompositions
def whole(c, a):
    return c.a.self.events if a is None else c.asset(a)


@contract('Causet.disjoint', 'C11', dict(self=CS, eventSet=['none', SET]))
class _:
    result_kind = 'setlist'

    def ensures(c):
        L, S, R = c.L, whole(c, c.a.eventSet), c.result
        return pieces(c, S, R)

    def loop_invariants(c, st):
        L, S = c.L, whole(c, c.a.eventSet)
        out = []
        for v in st.sets:
            out += [('inside', v.cur.sub(S)), ('nonempty', v.cur.nonempty()),
                    ('connected %s' % v.key[-1], c.connected_any(S, v.cur)),
                    ('closed', related_closed(c, S, v.cur))]
            for u in st.scope:
                if v.key[-1] == u.key:
                    continue
                out += [('subset', v.cur.sub(u.cur))]
                for m in st.ints:
                    for n in st.ints:
                        if m is not n:
                            out.append(('fixpoint', L.Implies(m.cur <= n.cur, related_closed(
                                c, u.cur, v.cur))))
            for l in st.lists:
                rest = S - c.union_of(l)
                out += [('rest', v.cur.eq(rest)), ('inside rest', v.cur.sub(rest)),
                        ('closed in rest', related_closed(c, rest, v.cur))]
                for m in st.ints:
                    for n in st.ints:
                        if m is not n:
                            out.append(('fixpoint', L.Implies(m.cur <= n.cur, related_closed(
                                c, rest, v.cur))))
        for l in st.lists:
            out += [(n, f) for n, f in pieces(c, S, l) if n != 'covers']
            out += [('inside', c.each(l, lambda i, x: S.has(x))),
                    ('piece closed', c.each(l, lambda i, x: S.all(
                        lambda y: L.Implies(related(c, x, y), l.has(i, y)))))]
        return out


def related(c, x, y):
    return c.L.Or(lt(c, x, y), lt(c, y, x))


def related_closed(c, S, P):
    """every event of S that is related to an event of P is in P"""
    return c.L.forall2(lambda x, y: c.L.Implies(
        c.L.And(P.has(x), S.has(y), related(c, x, y)), P.has(y)))


def pieces(c, S, R):
    L = c.L
    return [('covers', S.eq(c.union_of(R))),
            ('pieces nonempty', c.each_set(R, lambda i: c.L.exists(lambda x: R.has(i, x)))),
            ('pieces disjoint', c.each2(R, lambda i, j, x: L.Not(R.has(j, x)))),
            ('pieces unrelated', c.each2(R, lambda i, j, x: L.forall(
                lambda y: L.Implies(R.has(j, y), L.Not(related(c, x, y)))))),
            ('pieces connected', c.each_set(R, lambda i: c.connected_any(
                S, L.S(lambda x: R.has(i, x)))))]


@contract('Causet.isDisjoint', 'C11', dict(self=CS, eventSet=['none', SET]))
class _:
    result_kind = 'bool'

    def ensures(c):
        L, S = c.L, whole(c, c.a.eventSet)
        return [('connected if not disjoint', L.Or(c.result, c.connected_any(S, S))),
                ('split if disjoint', L.Implies(c.result, c.split_witness(S)))]


@contract('Causet.layered', 'C11', dict(self=CS, eventSet=['none', SET], reverse='bool'))
class _:
    result_kind = 'setlist'

    def ensures(c):
        return layering(c, whole(c, c.a.eventSet), c.result)

    def loop_invariants(c, st):
        L, S = c.L, whole(c, c.a.eventSet)
        before = lambda x, y: L.If(c.a.reverse, lt(c, y, x), lt(c, x, y))
        out = []
        for l in st.lists:
            out += [(n, f) for n, f in layering(c, S, l) if n not in ('covers', 'first layer')]
            out += [('inside', c.each(l, lambda i, x: S.has(x))),
                    ('first is minimal', c.each(l, lambda i, x: L.Or(
                        c.ne(i, 0), L.forall(lambda y: L.Not(L.And(S.has(y), before(y, x)))))))]
            for v in st.sets:
                c.finite(v.cur)
                out += [('rest', v.cur.eq(S - c.union_of(l))),
                        ('rest above', v.cur.all(lambda x: L.Or(c.eqn(l.len, 0), L.exists(
                            lambda y: L.And(before(y, x), L.Or(
                                c.in_last(l, y), v.cur.has(y))))))),
                        ('rest minimal below', v.cur.all(lambda x: L.Or(
                            c.eqn(l.len, 0), v.cur.any(lambda y: before(y, x)),
                            L.exists(lambda y: L.And(before(y, x), c.in_last(l, y)))))),
                        ('nothing above in last', v.cur.all(lambda x: c.each(
                            l, lambda i, y: L.Not(before(x, y))))),
                        ('rest not minimal', L.Or(c.eqn(l.len, 0), v.cur.all(lambda x: S.any(
                            lambda y: before(y, x))))),
                        ('start', L.Or(L.Not(c.eqn(l.len, 0)), v.cur.eq(S)))]
        return out


def layering(c, S, R):
    """partition into antichains; first = minimal (maximal) events; each event of a later
    layer is preceded (succeeded) by one of the layer just before"""
    L = c.L
    before = lambda x, y: L.If(c.a.reverse, lt(c, y, x), lt(c, x, y))
    return [('covers', S.eq(c.union_of(R))),
            ('layers nonempty', c.each_set(R, lambda i: L.exists(lambda x: R.has(i, x)))),
            ('layers disjoint', c.each2(R, lambda i, j, x: L.Not(R.has(j, x)))),
            ('layers antichains', c.each(R, lambda i, x: L.forall(
                lambda y: L.Implies(R.has(i, y), L.Not(lt(c, x, y)))))),
            ('first layer', c.each(R, lambda i, x: L.Or(c.ne(i, 0), L.Not(S.any(
                lambda y: before(y, x)))))),
            ('first layer complete', S.all(lambda x: L.Or(
                S.any(lambda y: before(y, x)), c.in_nth(R, 0, x)))),
            ('layer below', c.each(R, lambda i, x: L.Or(c.eqn(i, 0), L.exists(
                lambda y: L.And(before(y, x), R.has(c.pred(i), y))))))]
