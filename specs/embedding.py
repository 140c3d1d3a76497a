"""Contracts of causetevent.py: coordinates, diagram positions, copies (C20)."""
from .common import *

REALS = 'reals'


@contract('CausetEvent.isEmbedded', 'C20', dict(self=EV))
class _:
    def result(c): return c.h.has_coords(c.a.self)


@contract('CausetEvent.embed', 'C20', dict(self=EV, coordinates=[REALS, 'realtuple'], reembed='bool'))
class _:
    def raises(c):
        return [('AttributeError', c.L.And(c.L.Not(c.a.reembed), c.old.has_coords(c.a.self)))]

    def effect(c): return c.seq_effect('coords', c.a.self, c.a.coordinates)


@contract('CausetEvent.disembed', 'C20', dict(self=EV))
class _:
    def raises(c): return [('AttributeError', c.L.Not(c.old.has_coords(c.a.self)))]

    def effect(c):
        L, h, s = c.L, c.old, c.a.self
        return {'has_coords': lambda e: L.And(h.has_coords(e), L.Not(L.Eq(e, s)))}


def live_coordinates(eng, c):
    """the coordinate list of the event itself (which must not be changed in place)"""
    import z3
    from pyvc.engine import SymList
    e, n, g = c.vals['self'], c.eng.heap['clen'], c.eng.heap['cget']
    return SymList(eng, n(e), lambda i: g(e, eng.as_term(i)), esort=z3.RealSort(), owner='heap')


@contract('CausetEvent.Coordinates', 'C20', dict(self=EV))
class _:
    result_kind = staticmethod(live_coordinates)
    opts = {'any_state': True}

    def raises(c): return [('AttributeError', c.L.Not(c.h.has_coords(c.a.self)))]

    def ensures(c):
        s, h = c.a.self, c.h
        return [('length', c.eqn(c.result.len, h.clen(s))),
                ('values', c.ints(0, c.result.len, lambda i: c.eqn(c.result.get(i), h.cget(s, i))))]


@contract('CausetEvent.CoordinatesDim', 'C20', dict(self=EV))
class _:
    def result(c): return c.L.If(c.h.has_coords(c.a.self), c.h.clen(c.a.self), 0)


@contract('CausetEvent.Position', 'C20', dict(self=EV))
class _:
    result_kind = 'reals'

    def ensures(c):
        s, h, L = c.a.self, c.h, c.L
        return [('length', c.eqn(c.result.len, L.If(h.has_pos(s), h.plen(s), 2))),
                ('values', c.ints(0, c.result.len, lambda i: c.eqn(
                    c.result.get(i), L.If(h.has_pos(s), h.pget(s, i), 0.0))))]


@contract('CausetEvent.Position=', 'C20', dict(self=EV, value=[REALS, 'realtuple']))
class _:
    def raises(c): return [('ValueError', c.ne(c.a.value.len, 2))]
    def effect(c): return c.seq_effect('pos', c.a.self, c.a.value)


@contract('CausetEvent.copy', 'C20', dict(self=EV))
class _:
    result_kind = 'event'
    opts = {'no_order': True}

    def requires(c): return [('label is None, a number or a text', c.simple_label(c.h.label(c.a.self)))]
    def effect(c): return {'newevents': True, 'links': 'open'}

    def ensures(c):
        L, r, s, h, n = c.L, c.result, c.a.self, c.old, c.new
        return [('new', L.And(L.Not(h.alloc(r)), n.alloc(r))),
                ('label', L.Eq(n.label(r), h.label(s))),
                ('past', n.prec(r).eq(h.prec(s))), ('future', n.succ(r).eq(h.succ(s))),
                ('not embedded', L.Not(n.has_coords(r))),
                ('links', L.And(L.Iff(n.has_lprec(r), L.And(h.has_lprec(s), h.has_lsucc(s))),
                                L.Iff(n.has_lsucc(r), L.And(h.has_lprec(s), h.has_lsucc(s))),
                                L.Implies(h.has_lprec(s), L.And(n.lprec(r).eq(h.lprec(s)),
                                                                n.lsucc(r).eq(h.lsucc(s)))))),
                ('own links only', L.forall(lambda e: L.Implies(h.alloc(e), L.And(
                    L.Iff(n.has_lprec(e), h.has_lprec(e)), L.Iff(n.has_lsucc(e), h.has_lsucc(e)),
                    n.lprec(e).eq(h.lprec(e)), n.lsucc(e).eq(h.lsucc(e))))))]
