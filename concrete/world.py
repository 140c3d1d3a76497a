"""Concrete states: real CausetEvent objects in an arbitrary state that satisfies the
heap invariants (strict partial order with matching pasts and futures; link memory,
where present, is the covering relation), and snapshots of such states."""
import itertools
import random

FIELDS2 = ('prec', 'succ', 'lprec', 'lsucc')


def real():
    from causets import causetevent
    return causetevent.CausetEvent


def closure(n, pairs):
    lt = [[False] * n for _ in range(n)]
    for i, j in pairs:
        lt[i][j] = True
    for k in range(n):
        for i in range(n):
            if lt[i][k]:
                for j in range(n):
                    if lt[k][j]:
                        lt[i][j] = True
    return lt


_posets = {}


def posets(n):
    """All naturally labelled strict partial orders on n points (as relation matrices)."""
    if n not in _posets:
        seen = {}
        idx = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for m in range(1 << len(idx)):
            ps = [p for k, p in enumerate(idx) if m >> k & 1]
            lt = closure(n, ps)
            key = tuple(map(tuple, lt))
            seen[key] = lt
        _posets[n] = list(seen.values())
    return _posets[n]


def structured(rng, n):
    """larger orders of a definite shape: parallel chains between two ends, a disjoint union,
    layers, or nearly a chain"""
    kind = rng.choice(['chains', 'union', 'layers', 'line'])
    pairs = []
    if kind == 'chains':
        k = rng.randint(2, 3)
        at = [rng.randrange(k) for _ in range(n - 2)]
        for i in range(1, n - 1):
            pairs += [(0, i), (i, n - 1)]
            pairs += [(i, j) for j in range(i + 1, n - 1) if at[i - 1] == at[j - 1]]
        pairs.append((0, n - 1))
        for _ in range(rng.randint(0, 2)):
            i, j = sorted(rng.sample(range(1, n - 1), 2)) if n > 3 else (0, n - 1)
            pairs.append((i, j))
    elif kind == 'union':
        k = rng.randint(1, 3)
        at = [rng.randrange(k) for _ in range(n)]
        p = rng.choice([0.2, 0.35, 0.6])
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)
                 if at[i] == at[j] and rng.random() < p]
    elif kind == 'layers':
        k = rng.randint(2, 5)
        at = sorted(rng.randrange(k) for _ in range(n))
        p = rng.choice([0.3, 0.6, 1.0])
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)
                 if at[i] + 1 == at[j] and rng.random() < p]
    else:
        drop = set(rng.sample(range(n), rng.randint(0, 3)))
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)
                 if not (i in drop and j == i + 1 or i in drop and j in drop)]
    return n, closure(n, pairs)


class World:
    """Events with an order, link memory, labels, coordinates."""

    def __init__(self, rng, case=None, max_n=8, coords=False, dim=None, big_n=0):
        E = real()
        if case is not None:
            lt = case
            n = len(lt)
        elif big_n > max_n and rng.random() < 0.2:
            n, lt = structured(rng, rng.randint(max_n + 1, big_n))
        else:
            n = rng.randint(0, max_n)
            p = rng.choice([0.15, 0.3, 0.5, 0.8])
            lt = closure(n, [(i, j) for i in range(n) for j in range(i + 1, n)
                             if rng.random() < p])
        self.n, self.lt = n, lt
        perm = list(range(n))
        rng.shuffle(perm)
        evs = [None] * n
        for i in perm:
            evs[i] = E(label=self.label(rng, i))
        self.events = evs
        for j in range(n):
            evs[j]._prec = {evs[i] for i in range(n) if lt[i][j]}
            evs[j]._succ = {evs[i] for i in range(n) if lt[j][i]}
        mode = rng.choice(['none', 'all', 'some', 'some'])
        for j in range(n):
            if mode == 'all' or (mode == 'some' and rng.random() < 0.5):
                evs[j]._lprec = {evs[i] for i in range(n) if self.cov(i, j)}
                evs[j]._lsucc = {evs[i] for i in range(n) if self.cov(j, i)}
            if coords or rng.random() < 0.3:
                d = dim or rng.randint(1, 3)
                evs[j]._coordinates = [float(rng.randint(-3, 3)) for _ in range(d)]
            if rng.random() < 0.2:
                evs[j]._position = [float(rng.randint(-3, 3)) for _ in range(2)]

    def cov(self, i, j):
        lt = self.lt
        return lt[i][j] and not any(lt[i][k] and lt[k][j] for k in range(self.n))

    def label(self, rng, i):
        return rng.choice([i + 1, i + 1, i + 1, 'e%d' % i, None, rng.randint(1, 3),
                           rng.choice([0, ''])])

    def describe(self):
        ev = self.events
        return {'events': self.n,
                'relations': [(i, j) for i in range(self.n) for j in range(self.n)
                              if self.lt[i][j]],
                'labels': [repr(self.labels0[i]) for i in range(self.n)],
                'linked': self.linked0}

    def freeze(self):
        self.labels0 = [e.Label for e in self.events]
        self.linked0 = [i for i, e in enumerate(self.events) if hasattr(e, '_lprec')]


def get(e, n, default=None):
    return getattr(e, n, default)


class Snap:
    """Copy of the fields of the given events (the abstraction of the heap)."""

    def __init__(self, L, events, allocated=None):
        self.L = L
        self.f = {}
        self.alive = set(map(id, events if allocated is None else allocated))
        for e in events:
            self.f[id(e)] = {
                'prec': frozenset(get(e, '_prec', ())), 'succ': frozenset(get(e, '_succ', ())),
                'lprec': frozenset(get(e, '_lprec', ())), 'lsucc': frozenset(get(e, '_lsucc', ())),
                'has_lprec': hasattr(e, '_lprec'), 'has_lsucc': hasattr(e, '_lsucc'),
                'has_coords': hasattr(e, '_coordinates'), 'has_pos': hasattr(e, '_position'),
                'label': get(e, 'Label'), 'coords': list(get(e, '_coordinates', ())),
                'pos': list(get(e, '_position', ()))}
        self.empty = {'prec': frozenset(), 'succ': frozenset(), 'lprec': frozenset(),
                      'lsucc': frozenset(), 'has_lprec': False, 'has_lsucc': False,
                      'has_coords': False, 'has_pos': False, 'label': None, 'coords': [], 'pos': []}
        self.sets = {}

    def g(self, e, k):
        return self.f.get(id(e), self.empty)[k]

    def _set(self, k, e):
        from pyvc.logic import SetC
        key = (k, id(e))
        if key not in self.sets:
            s = self.g(e, k)
            self.sets[key] = SetC(self.L, lambda x: x in s)
        return self.sets[key]

    def prec(self, e): return self._set('prec', e)
    def succ(self, e): return self._set('succ', e)
    def lprec(self, e): return self._set('lprec', e)
    def lsucc(self, e): return self._set('lsucc', e)
    def alloc(self, e): return id(e) in self.alive
    def has_lprec(self, e): return self.g(e, 'has_lprec')
    def has_lsucc(self, e): return self.g(e, 'has_lsucc')
    def has_coords(self, e): return self.g(e, 'has_coords')
    def has_pos(self, e): return self.g(e, 'has_pos')
    def label(self, e): return self.g(e, 'label')
    def clen(self, e): return len(self.g(e, 'coords'))
    def plen(self, e): return len(self.g(e, 'pos'))

    def cget(self, e, i):
        s = self.g(e, 'coords')
        return s[i] if i < len(s) else 0.0

    def pget(self, e, i):
        s = self.g(e, 'pos')
        return s[i] if i < len(s) else 0.0

    def cover(self, a, b):
        pa, pb = self.g(a, 'succ'), self.g(b, 'prec')
        return a in pb and not (pa & pb)

    def field2(self, f, e, x):
        return x in self.g(e, f)
