"""Shared vocabulary of the contracts."""
from pyvc.contract import contract, Contract, Lemma, LiveSet

EV = 'event'
SET = 'set'
CS = 'causet'


def lt(c, a, b, h=None):
    """a precedes b"""
    return (h or c.h).prec(b).has(a)


def le(c, a, b, h=None):
    return c.L.Or(c.L.Eq(a, b), lt(c, a, b, h))


def cone(c, e):
    return c.h.prec(e) | c.h.succ(e) | c.L.single(e)


def cover(c, a, b, h=None):
    """a is linked to b: a precedes b and nothing lies between"""
    return (h or c.h).cover(a, b)


def cover_past(c, e, h=None):
    return c.L.S(lambda x: cover(c, x, e, h))


def cover_future(c, e, h=None):
    return c.L.S(lambda x: cover(c, e, x, h))


LAZY = {'links': 'lazy'}
