"""Contracts of causetevent.py: relations, comparisons, cones, links."""
from .common import *


# ------------------------------------------------------ C02 comparisons
@contract('CausetEvent.__lt__', 'C02', dict(self=EV, other=EV))
class _:
    def result(c): return lt(c, c.a.self, c.a.other)


@contract('CausetEvent.__le__', 'C02', dict(self=EV, other=EV))
class _:
    def result(c): return le(c, c.a.self, c.a.other)


@contract('CausetEvent.__gt__', 'C02', dict(self=EV, other=EV))
class _:
    def result(c): return lt(c, c.a.other, c.a.self)


@contract('CausetEvent.__ge__', 'C02', dict(self=EV, other=EV))
class _:
    def result(c): return le(c, c.a.other, c.a.self)


@contract('CausetEvent.isCausalTo', 'C02', dict(self=EV, other=EV))
class _:
    def result(c):
        return c.L.Or(le(c, c.a.self, c.a.other), lt(c, c.a.other, c.a.self))


@contract('CausetEvent.isSpacelikeTo', 'C02', dict(self=EV, other=EV))
class _:
    def result(c):
        L = c.L
        return L.And(L.Not(L.Eq(c.a.self, c.a.other)), L.Not(lt(c, c.a.self, c.a.other)),
                     L.Not(lt(c, c.a.other, c.a.self)))


Lemma('trichotomy', 'C02', dict(a=EV, b=EV), lambda c: [
    ('at least one', c.L.Or(lt(c, c.a.a, c.a.b), c.L.Eq(c.a.a, c.a.b), lt(c, c.a.b, c.a.a),
                            c.L.Not(c.L.Or(le(c, c.a.a, c.a.b), lt(c, c.a.b, c.a.a))))),
    ('not before and equal', c.L.Not(c.L.And(lt(c, c.a.a, c.a.b), c.L.Eq(c.a.a, c.a.b)))),
    ('not before and after', c.L.Not(c.L.And(lt(c, c.a.a, c.a.b), lt(c, c.a.b, c.a.a)))),
])


@contract('CausetEvent.Past', 'C02', dict(self=EV))
class _:
    def result(c): return LiveSet('prec', c.a.self)


@contract('CausetEvent.Future', 'C02', dict(self=EV))
class _:
    def result(c): return LiveSet('succ', c.a.self)


@contract('CausetEvent.Cone', 'C02', dict(self=EV))
class _:
    opts = {'any_state': True}
    def result(c): return cone(c, c.a.self)


@contract('CausetEvent.PresentOrPast', 'C02', dict(self=EV))
class _:
    opts = {'any_state': True}
    def result(c): return c.h.prec(c.a.self) | c.L.single(c.a.self)


@contract('CausetEvent.PresentOrFuture', 'C02', dict(self=EV))
class _:
    opts = {'any_state': True}
    def result(c): return c.h.succ(c.a.self) | c.L.single(c.a.self)


@contract('CausetEvent.Spacelike', 'C02', dict(self=EV, eventSet=SET))
class _:
    def result(c): return c.a.eventSet - cone(c, c.a.self)


@contract('CausetEvent.PastCard', 'C02', dict(self=EV))
class _:
    def result(c): return c.h.prec(c.a.self).card()


@contract('CausetEvent.FutureCard', 'C02', dict(self=EV))
class _:
    def result(c): return c.h.succ(c.a.self).card()


@contract('CausetEvent.ConeCard', 'C02', dict(self=EV))
class _:
    def result(c): return cone(c, c.a.self).card()


@contract('CausetEvent.SpacelikeCard', 'C02', dict(self=EV, eventSet=SET))
class _:
    def result(c): return (c.a.eventSet - cone(c, c.a.self)).card()


# ------------------------------------------------------------ C03 links
@contract('CausetEvent.hasBeenLinked', 'C03', dict(self=EV))
class _:
    opts = {'any_state': True}
    def result(c): return c.L.And(c.h.has_lprec(c.a.self), c.h.has_lsucc(c.a.self))


@contract('CausetEvent.isLink', 'C03', dict(a=EV, b=EV))
class _:
    opts = {'any_state': True}
    def result(c): return cover(c, c.a.a, c.a.b)


@contract('CausetEvent.link', 'C03 C01 C04', dict(self=EV))
class _:
    def effect(c): return LAZY

    def ensures(c):
        return [('linked', c.L.And(c.new.has_lprec(c.a.self), c.new.has_lsucc(c.a.self)))]


@contract('CausetEvent.unlink', 'C03 C01 C04', dict(self=EV))
class _:
    def effect_any(c): return event_unlinked(c)

    def effect(c): return event_unlinked(c)


def event_unlinked(c):
    L, s, h = c.L, c.a.self, c.old
    return {'has_lprec': lambda e: L.And(h.has_lprec(e), L.Not(L.Eq(e, s))),
            'has_lsucc': lambda e: L.And(h.has_lsucc(e), L.Not(L.Eq(e, s)))}


@contract('CausetEvent.isPastLink', 'C03', dict(self=EV, other=EV))
class _:
    def effect(c): return LAZY
    def result(c): return cover(c, c.a.other, c.a.self)


@contract('CausetEvent.isFutureLink', 'C03', dict(self=EV, other=EV))
class _:
    def effect(c): return LAZY
    def result(c): return cover(c, c.a.self, c.a.other)


@contract('CausetEvent.isLinkedTo', 'C03', dict(self=EV, other=EV))
class _:
    def effect(c): return LAZY

    def result(c):
        return c.L.Or(cover(c, c.a.self, c.a.other), cover(c, c.a.other, c.a.self))


@contract('CausetEvent.LinkPast', 'C03', dict(self=EV))
class _:
    def effect(c): return LAZY
    def result(c): return LiveSet('lprec', c.a.self)

    def ensures(c):
        s = c.a.self
        return [('linked', c.new.has_lprec(s)), ('cover', c.new.lprec(s).eq(cover_past(c, s)))]


@contract('CausetEvent.LinkFuture', 'C03', dict(self=EV))
class _:
    def effect(c): return LAZY
    def result(c): return LiveSet('lsucc', c.a.self)

    def ensures(c):
        s = c.a.self
        return [('linked', c.new.has_lsucc(s)), ('cover', c.new.lsucc(s).eq(cover_future(c, s)))]


@contract('CausetEvent.LinkCone', 'C03', dict(self=EV))
class _:
    def effect(c): return LAZY
    def result(c): return cover_past(c, c.a.self) | cover_future(c, c.a.self)


@contract('CausetEvent.LinkPastCard', 'C03', dict(self=EV))
class _:
    def effect(c): return LAZY
    def result(c): return cover_past(c, c.a.self).card()


@contract('CausetEvent.LinkFutureCard', 'C03', dict(self=EV))
class _:
    def effect(c): return LAZY
    def result(c): return cover_future(c, c.a.self).card()


@contract('CausetEvent.LinkConeCard', 'C03', dict(self=EV))
class _:
    def effect(c): return LAZY
    def result(c): return (cover_past(c, c.a.self) | cover_future(c, c.a.self)).card()


# -------------------------------------------------------- C04 disjoining
@contract('CausetEvent.disjoin', 'C04 C03', dict(self=EV))
class _:
    def effect(c):
        L, s, h = c.L, c.a.self, c.old
        return {
            'prec': lambda e, x: L.And(h.prec(e).has(x), L.Not(L.Eq(e, s)), L.Not(L.Eq(x, s))),
            'succ': lambda e, x: L.And(h.succ(e).has(x), L.Not(L.Eq(e, s)), L.Not(L.Eq(x, s))),
            'links': 'any'}


# ----------------------------------------------------------- C01 creation
def past_future(c):
    """the given past and future, completed by the pasts of the past and the futures of the future"""
    kw, h, L = c.a.kwargs, c.old, c.L
    P0 = c.asset(kw['past']) if 'past' in kw else L.emptyset()
    F0 = c.asset(kw['future']) if 'future' in kw else L.emptyset()
    P = L.S(lambda x: L.exists(lambda p: L.And(P0.has(p), L.Or(L.Eq(x, p), h.prec(p).has(x)))))
    F = L.S(lambda x: L.exists(lambda f: L.And(F0.has(f), L.Or(L.Eq(x, f), h.succ(f).has(x)))))
    return P0, F0, P, F


KW = [('kwargs', 'none', {}), ('kwargs', 'past', {'past': SET}), ('kwargs', 'future', {'future': SET}),
      ('kwargs', 'past+future', {'past': SET, 'future': SET}),
      ('kwargs', 'past+label', {'past': SET, 'label': 'label'}),
      ('kwargs', 'coordinates', {'coordinates': 'reals', 'label': 'label'}),
      ('kwargs', 'position', {'position': 'reals'})]


@contract('CausetEvent.__init__', 'C01 C03 C20', dict(self='newevent', kwargs=KW))
class _:
    def requires(c):
        L = c.L
        P0, F0, P, F = past_future(c)
        s = c.a.self
        return [('past exists', P0.all(lambda x: L.And(c.old.alloc(x), L.Not(L.Eq(x, s))))),
                ('future exists', F0.all(lambda x: L.And(c.old.alloc(x), L.Not(L.Eq(x, s))))),
                ('past before future', L.forall2(lambda p, f: L.Implies(
                    L.And(P0.has(p), F0.has(f)),
                    L.And(L.Not(L.Eq(p, f)), L.Not(lt(c, f, p, c.old))))))]

    def effect(c):
        L, s, h = c.L, c.a.self, c.old
        kw = c.a.kwargs
        P0, F0, P, F = past_future(c)
        eff = {
            'prec': lambda e, x: L.If(L.Eq(e, s), P.has(x), L.Or(
                h.prec(e).has(x), L.And(F.has(e), L.Or(L.Eq(x, s), P.has(x))))),
            'succ': lambda e, x: L.If(L.Eq(e, s), F.has(x), L.Or(
                h.succ(e).has(x), L.And(P.has(e), L.Or(L.Eq(x, s), F.has(x))))),
            'label': lambda e: L.If(L.Eq(e, s), c.lab(kw.get('label')), h.label(e)),
            'links': 'any'}
        if 'coordinates' in kw:
            eff.update(c.seq_effect('coords', s, kw['coordinates']))
        if 'position' in kw:
            eff.update(c.seq_effect('pos', s, kw['position']))
        return eff

    def ensures(c):
        L, s, h, n = c.L, c.a.self, c.old, c.new
        if 'past' in c.a.kwargs or 'future' in c.a.kwargs:
            return []
        return [('isolated: no link state touched', L.forall(lambda e: L.Implies(
            L.Or(h.alloc(e), L.Eq(e, s)),
            L.And(L.Iff(n.has_lprec(e), h.has_lprec(e)), L.Iff(n.has_lsucc(e), h.has_lsucc(e)),
                  n.lprec(e).eq(h.lprec(e)), n.lsucc(e).eq(h.lsucc(e))))))]
