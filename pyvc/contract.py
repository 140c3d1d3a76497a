"""Contracts: machine-checked specifications of the functions in /repo.

A contract is written once and used three ways: as proof obligation of the
function, as the assumption at its call sites, and as a run-time check on the
real code (counterexample search and replay).  No z3 here.
"""
import itertools

REGISTRY = {}        # qual -> Contract
LEMMAS = []


class Contract:
    def __init__(self, qual, props, args, requires=None, raises=None, effect=None, result=None,
                 ensures=None, inline=False, kind='method', generator=False, fresh=True,
                 hyps=('wf', 'linkok'), concrete=None, bounded=None, note='',
                 result_kind=None, opts=None, symbolic=True, size=None, loop_invariants=None, effect_any=None):
        self.qual = qual
        self.props = props.split() if isinstance(props, str) else list(props)
        self.args = args              # name -> kind or list of alternative kinds
        self._requires = requires
        self._raises = raises
        self._effect = effect
        self._result = result
        self._ensures = ensures
        self.inline = inline
        self.inline_self = True
        self.kind = kind
        self.generator = generator
        self.fresh = fresh            # returned set must be a new object
        self.hyps = hyps
        self.concrete = concrete      # optional special concrete driver
        self.bounded = bounded        # reason why only the bounded check applies
        self.note = note
        self.result_kind = result_kind
        self.opts = opts or {}
        self.symbolic = symbolic
        self.size = size
        self.loop_invariants = loop_invariants
        # effect when only the order, not the link memory, is known to be correct on entry
        self.effect_any = effect_any
        REGISTRY[qual] = self

    def requires(self, c):
        return list(self._requires(c)) if self._requires else []

    def raises(self, c):
        return list(self._raises(c)) if self._raises else []

    def effect(self, c):
        return dict(self._effect(c)) if self._effect else {}

    def result(self, c):
        return self._result(c) if self._result else None

    @property
    def has_result(self):
        return self._result is not None

    def ensures(self, c):
        return list(self._ensures(c)) if self._ensures else []

    def scenarios(self):
        """All combinations of argument kinds."""
        names = list(self.args)
        alts = [a if isinstance(a, list) else [a] for a in self.args.values()]
        for combo in itertools.product(*alts):
            yield dict(zip(names, combo))


class Lemma:
    def __init__(self, name, props, vars, formula, hyps=('wf', 'linkok')):
        self.name, self.vars, self.formula, self.hyps = name, vars, formula, hyps
        self.props = props.split()
        LEMMAS.append(self)


def kindname(k):
    if isinstance(k, tuple):
        return str(k[1]) if len(k) > 1 else str(k[0])
    return str(k)


def scenario_name(sc):
    return ','.join('%s:%s' % (n, kindname(k)) for n, k in sc.items() if n not in ('self', 'cls'))


def contract(qual, props, args=None, **kw):
    """Decorator: the class body holds requires / raises / effect / result / ensures."""
    def deco(cls):
        d = {}
        for n in ('requires', 'raises', 'effect', 'result', 'ensures', 'concrete', 'loop_invariants',
                  'effect_any'):
            if n in cls.__dict__:
                f = cls.__dict__[n]
                d[n] = f
        for n in ('hyps', 'symbolic', 'bounded', 'note', 'opts', 'result_kind', 'fresh', 'inline'):
            if n in cls.__dict__:
                d[n] = cls.__dict__[n]
        d.update(kw)
        return Contract(qual, props, args or {}, **d)
    return deco


class LiveSet:
    """Result: the live attribute set of an event."""

    def __init__(self, field, ev):
        self.field, self.ev = field, ev
