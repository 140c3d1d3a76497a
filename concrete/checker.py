"""Run-time evaluation of the contracts on the real code (no z3).

The same contract text that the deductive verifier proves is evaluated here on real
objects: counterexample search, replay, and the bounded stand-in for functions that the
verifier cannot reach (labelled bounded, never counted as proved)."""
import importlib
import inspect
import itertools
import json
import math
import random
import signal
import sys
import time
import traceback
import zlib

from pyvc.logic import ConL, SetC
from pyvc.contract import REGISTRY, LiveSet, scenario_name
from . import world as W

REL = ('prec', 'succ', 'lprec', 'lsucc')
FLAGS = ('alloc', 'has_lprec', 'has_lsucc', 'has_coords', 'has_pos')
LINKF = ('lprec', 'lsucc', 'has_lprec', 'has_lsucc')
MODULES = ['causetevent', 'causet', 'embeddedcauset', 'sprinkledcauset', 'shapes', 'spacetimes',
           'calculations', 'colorschemes', 'causetplotting']


class Timeout(BaseException):
    pass


class Skip(Exception):
    """the drawn state does not satisfy the preconditions"""


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


class Obj:
    """View of a causet-like object."""

    def __init__(self, L, o, attrs=True):
        self.obj = o
        self.cls = type(o).__name__
        self.L = L
        if hasattr(o, '_events'):
            s = frozenset(o._events)
            self.events = SetC(L, lambda x: x in s)
            self.members = s
        for k, v in getattr(o, '__dict__', {}).items():
            if k != '_events' and not k.startswith('__'):
                self.__dict__.setdefault(k, wrap(L, v))


class Seq:
    def __init__(self, L, v):
        self.L = L
        self.items = list(v)
        self.len = len(self.items)

    def at(self, i):
        return wrap(self.L, self.items[i])

    get = at

    def has(self, i, x):
        return 0 <= i < self.len and x in self.items[i]

    def toset(self):
        return SetC(self.L, lambda x: any(x is y for y in self.items))


class Mat:
    def __init__(self, L, v):
        self.rows, self.cols = v.shape
        self.v = v.copy()

    def get2(self, i, j):
        return self.v[i, j].item()


def isnum(v):
    if isinstance(v, bool):
        return False
    if isinstance(v, (int, float)):
        return True
    return type(v).__module__ == 'numpy' and getattr(v, 'shape', None) == () and \
        v.dtype.kind in 'iuf'


def isbool(v):
    return isinstance(v, bool) or (type(v).__module__ == 'numpy' and type(v).__name__ in
                                   ('bool_', 'bool'))


def is_obj(v):
    return type(v).__name__ in ('Causet', 'EmbeddedCauset', 'SprinkledCauset') or \
        type(v).__module__.startswith('causets.') and type(v).__name__ != 'CausetEvent'


def wrap(L, v):
    if isinstance(v, (set, frozenset)):
        s = frozenset(v)
        r = SetC(L, lambda x: x in s)
        return r
    if is_obj(v):
        return Obj(L, v)
    if isinstance(v, (list, tuple)):
        return Seq(L, v)
    if type(v).__module__ == 'numpy' and type(v).__name__ in ('ndarray', 'matrix') and v.ndim:
        return Mat(L, v) if v.ndim == 2 else Seq(L, v.tolist())
    if isinstance(v, dict):
        return {k: wrap(L, x) for k, x in v.items()}
    if isnum(v) and type(v).__module__ == 'numpy':
        return v.item()
    return v


class CCtx:
    symbolic = at_call = False

    def __init__(self, L, ct, vals, old):
        self.L, self.ct, self.vals = L, ct, vals
        self.a = NS({k: wrap(L, v) for k, v in vals.items()})
        self.old = self.h = old
        self.new = None
        self.result = None
        self.U = L.universe

    def is_matrix_of(self, M, dtype):
        return self.raw.dtype.kind == {bool: 'b', int: 'i', float: 'f'}[dtype]

    def states(self, entry, formula):
        return entry == (1 if formula else 0)

    def named(self, formula):
        return formula

    def is_int(self, v):
        return type(v) is int

    def int_label(self, v):
        return v

    def occurs(self, R, x):
        return any(R.get(i) == x for i in range(R.len))

    def pairs(self, n, f):
        return all(f(i, j) for i in range(n) for j in range(n))

    def asset(self, v):
        if isinstance(v, SetC):
            return v
        if isinstance(v, Seq):
            return v.toset()
        if isinstance(v, Obj):
            return v.events
        raise TypeError('collection %r' % (v,))

    def lab(self, v):
        return v

    def seq_effect(self, which, s, seq):
        h = self.old
        flag, ln, gt = {'coords': ('has_coords', 'clen', 'cget'),
                        'pos': ('has_pos', 'plen', 'pget')}[which]
        items = [float(x) for x in seq.items]
        of, ol, og = getattr(h, flag), getattr(h, ln), getattr(h, gt)
        return {flag: lambda e: e is s or of(e),
                ln: lambda e: len(items) if e is s else ol(e),
                gt: lambda e, i: (items[i] if i < len(items) else 0.0) if e is s else og(e, i)}

    def union_of(self, R):
        return SetC(self.L, lambda x: any(R.has(i, x) for i in range(R.len)))

    def each(self, R, f):
        return all(f(i, x) for i in range(R.len) for x in self.U if R.has(i, x))

    def each_set(self, R, f):
        return all(f(i) for i in range(R.len))

    def each2(self, R, f):
        return all(f(i, j, x) for i in range(R.len) for j in range(R.len) if i != j
                   for x in self.U if R.has(i, x))

    def in_last(self, R, x):
        return R.len > 0 and R.has(R.len - 1, x)

    def in_nth(self, R, k, x):
        return R.len > k and R.has(k, x)

    def ne(self, i, k):
        return i != k

    def eqn(self, i, k):
        return i == k

    def pred(self, i):
        return i - 1

    def ints(self, lo, hi, f):
        return all(f(i) for i in range(lo, hi))

    def some_int(self, lo, hi, f):
        return any(f(i) for i in range(lo, hi))

    def close(self, a, b):
        return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-11)

    def fn(self, name, *args):
        import numpy as np
        if name == 'pow':
            return float(args[0]) ** float(args[1])
        if name == 'gamma':
            return math.gamma(args[0])
        return float(getattr(np, name)(*[float(a) for a in args]))

    def R(self, k):
        return k

    def abs(self, x):
        return abs(x)

    def near(self, a, b):
        return close(a, b) or math.isclose(a, b, rel_tol=1e-5, abs_tol=1e-6)

    def upto(self, a, b):
        return a <= b or self.near(a, b)

    def same(self, a, b):
        return a == b

    def prod(self, lo, hi, f):
        return math.prod(f(i) for i in range(lo, hi))

    def items(self, v, n):
        if len(v.items) != n:
            raise TypeError('%d items instead of %d' % (len(v.items), n))
        return [wrap(self.L, x) for x in v.items]

    def call(self, f, *args):
        return f.val(*args)

    def calls(self, f, n):
        return len(f.at) <= n

    def some_real(self, p, f=None):
        return any(p(x) for x in f.at)

    pi = math.pi
    euler_gamma = 0.57721566490153286060

    def sum(self, lo, hi, f, real=True):
        return sum(f(i) for i in range(lo, hi))

    def ghost(self, name, sorts, py, unfold):
        return py

    def simple_label(self, v):
        return v is None or isinstance(v, (int, str))

    def link_distance(self, a, b):
        d, todo = {a: 0}, [a]
        for x in todo:
            for y in self.U:
                if y not in d and self.h.cover(x, y):
                    d[y] = d[x] + 1
                    todo.append(y)
        return d.get(b, math.inf)

    @property
    def U_size(self):
        return len(self.U) + 1

    def component(self, S, x):
        h = self.h
        comp, todo = {x}, [x]
        while todo:
            a = todo.pop()
            for b in self.U:
                if b not in comp and S.has(b) and (h.prec(a).has(b) or h.succ(a).has(b)):
                    comp.add(b)
                    todo.append(b)
        return comp

    def finite(self, S):
        pass

    def infinite(self, v):
        return math.isinf(v)

    def number(self, v):
        return v

    def link_distance_recursion(self):
        pass

    def shortest_step(self, a, b, first):
        pass

    def connected_any(self, S, P):
        ps = [x for x in self.U if P.has(x)]
        return all(y in c for x in ps[:1] for c in [self.component(S, x)] for y in ps)

    def split_witness(self, S):
        ss = [x for x in self.U if S.has(x)]
        return bool(ss) and any(y not in self.component(S, ss[0]) for y in ss)

    def least_closed(self, ev, S, h):
        comp = {x for x in self.U if S.has(x)}
        todo = list(comp)
        while todo:
            a = todo.pop()
            for b in self.U:
                if b not in comp and (h.prec(a).has(b) or h.succ(a).has(b)):
                    comp.add(b)
                    todo.append(b)
        return all(x in comp for x in self.U if ev.has(x))


# ------------------------------------------------------------ functions
def target(qual):
    """(callable, is_generator) of the real code, unbound."""
    ct = REGISTRY.get(qual)
    if ct is not None and ct.opts.get('client'):
        mod = importlib.import_module('causets.' + qual.split('.')[0])
        ns = dict(vars(mod))
        exec(ct.opts['client'], ns)
        return [v for k, v in ns.items() if inspect.isfunction(v) and
                v.__code__.co_filename == '<string>'][-1], None
    cls, name = qual.rsplit('.', 1)
    setter = name.endswith('=') and not name.endswith('__')
    name = name.rstrip('=') if setter else name
    for m in MODULES:
        mod = importlib.import_module('causets.' + m)
        if hasattr(mod, cls) and inspect.isclass(getattr(mod, cls)):
            c = getattr(mod, cls)
            for k in c.__mro__:
                if name in k.__dict__ or '_%s%s' % (k.__name__, name) in k.__dict__:
                    raw = k.__dict__.get(name, k.__dict__.get('_%s%s' % (k.__name__, name)))
                    if isinstance(raw, property):
                        return (raw.fset if setter else raw.fget), None
                    if isinstance(raw, staticmethod):
                        return raw.__func__, None
                    if isinstance(raw, classmethod):
                        return raw.__func__, c
                    return raw, None
    mod = importlib.import_module('causets.' + cls)
    return getattr(mod, name), None


def call_real(fn, cls, vals, sc):
    sig = inspect.signature(fn)
    pos, kw = [], {}
    names = list(sig.parameters)
    if cls is not None and names and names[0] not in vals:
        vals = dict([(names[0], cls)] + list(vals.items()))
    skipped = False
    for n, p in sig.parameters.items():
        if n not in vals:
            skipped = True
            continue
        if p.kind is p.VAR_POSITIONAL:
            pos.extend(vals[n])
        elif p.kind is p.VAR_KEYWORD:
            kw.update(vals[n])
        elif skipped or p.kind is p.KEYWORD_ONLY:
            kw[n] = vals[n]
        else:
            pos.append(vals[n])
    r = fn(*pos, **kw)
    if inspect.isgenerator(r):
        r = list(itertools.islice(r, 200000))
    return r


# ------------------------------------------------------------ arguments
def draw(rng, kind, w, name, ct):
    ev = w.events
    if isinstance(kind, tuple) and kind[0] == 'lit':
        return kind[1]
    if isinstance(kind, tuple) and kind[0] == 'kwargs':
        return {k: draw(rng, kk, w, name + '_' + k, ct) for k, kk in kind[2].items()}
    if isinstance(kind, tuple) and kind[0] == 'sym':
        return kind[3](rng, w)
    if kind == 'none':
        return None
    if kind == 'event':
        if not ev:
            raise Skip
        return rng.choice(ev)
    if kind == 'newevent':
        return W.real().__new__(W.real())
    if kind == 'newcauset':
        from causets.causet import Causet
        return Causet.__new__(Causet)
    if kind == 'set':
        p = rng.choice([0.2, 0.5, 0.8, 1.0])
        return {e for e in ev if rng.random() < p}
    if kind == 'causet':
        from causets.causet import Causet
        c = Causet.__new__(Causet)
        p = rng.choice([0.3, 0.7, 1.0, 1.0])
        c._events = {e for e in ev if rng.random() < p}
        return c
    if kind == 'evlist':
        s = [e for e in ev if rng.random() < 0.5]
        rng.shuffle(s)
        if s and rng.random() < 0.2 and not ct.opts.get('distinct'):
            s.append(rng.choice(s))
        return s
    if kind == 'bool':
        return rng.random() < 0.5
    if kind == 'int':
        return rng.randint(-3, 5)
    if kind == 'nat':
        return rng.randint(0, 6)
    if kind == 'real':
        return rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-3, 3), rng.uniform(-3, 3)])
    if kind == 'label':
        return rng.choice([e.Label for e in ev] + ['absent', 99, 1, None])
    if kind == 'realtuple':
        return tuple(float(rng.randint(-4, 4)) for _ in range(rng.choice([0, 1, 2, 2, 2, 3])))
    if kind == 'reals':
        return [float(rng.randint(-4, 4)) for _ in range(rng.choice([0, 1, 2, 2, 2, 3, 4]))]
    raise NotImplementedError('kind %r' % (kind,))


def describe(w, v):
    if hasattr(v, '_prec') or type(v).__name__ == 'CausetEvent':
        for i, e in enumerate(w.events):
            if e is v:
                return '#%d' % i
        return 'new event'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(str(describe(w, x)) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(str(describe(w, x)) for x in v) + ']'
    if isinstance(v, dict):
        return {k: describe(w, x) for k, x in v.items()}
    if hasattr(v, '_events'):
        return type(v).__name__ + describe(w, v._events)
    if isinstance(v, type):
        return v.__name__
    try:
        return repr(v)[:300]
    except Exception:
        return type(v).__name__


def reach(events, extra):
    """All events reachable from the given roots."""
    out, seen = [], set()

    def add(e):
        if id(e) not in seen and type(e).__name__ == 'CausetEvent':
            seen.add(id(e))
            out.append(e)
            return True

    stack = list(events)[::-1] + list(extra)
    while stack:
        v = stack.pop()
        if isinstance(v, (set, frozenset, list, tuple)):
            stack.extend(v)
        elif isinstance(v, dict):
            stack.extend(v.values())
        elif type(v).__name__ == 'CausetEvent':
            if add(v):
                for a in ('_prec', '_succ', '_lprec', '_lsucc'):
                    stack.extend(getattr(v, a, ()))
        elif hasattr(v, '_events'):
            stack.extend(v._events)
    # keep the given order first
    first = [e for e in events]
    ids = set(map(id, first))
    return first + [e for e in out if id(e) not in ids]


# ------------------------------------------------------------- checking
def close(a, b):
    if a == b:
        return True
    try:
        if math.isnan(a) and math.isnan(b):
            return True
        return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9)
    except (TypeError, OverflowError):
        return False


def eq_value(L, got, want, new):
    if isinstance(want, LiveSet):
        return isinstance(got, (set, frozenset)) and frozenset(got) == new.g(want.ev, want.field)
    if isinstance(want, SetC):
        if not isinstance(got, (set, frozenset)):
            return False
        U = set(map(id, L.universe))
        return all(id(x) in U for x in got) and all(bool(want.has(x)) == (x in got)
                                                    for x in L.universe)
    if want is None:
        return got is None
    if isbool(want):
        return isbool(got) and bool(got) == bool(want)
    if isnum(want):
        if not isnum(got):
            return False
        if isinstance(want, int) and isinstance(got, int):
            return got == want
        return close(float(got), float(want))
    if isinstance(want, Seq):
        want = want.items
    if isinstance(want, (list, tuple)):
        if type(got).__module__ == 'numpy':
            got = got.tolist()
        return isinstance(got, (list, tuple)) and len(got) == len(want) and \
            all(eq_value(L, g, x, new) for g, x in zip(got, want))
    if hasattr(want, '_prec'):
        return got is want
    if isinstance(want, Obj):
        return got is want.obj
    return type(got) is type(want) and got == want


def wf_ok(h, U):
    bad = []
    for a in U:
        pa = h.g(a, 'prec')
        if a in pa:
            bad.append('irreflexive')
        for b in pa:
            if a not in h.g(b, 'succ'):
                bad.append('converse')
            if not h.g(b, 'prec') <= pa:
                bad.append('transitive')
        for b in h.g(a, 'succ'):
            if a not in h.g(b, 'prec'):
                bad.append('converse')
    return bad


def link_ok(h, U):
    bad = []
    for e in U:
        if h.has_lprec(e) != h.has_lsucc(e):
            bad.append('link-flags')
        if h.has_lprec(e) and h.g(e, 'lprec') != frozenset(x for x in U if h.cover(x, e)):
            bad.append('link-past')
        if h.has_lsucc(e) and h.g(e, 'lsucc') != frozenset(x for x in U if h.cover(e, x)):
            bad.append('link-future')
    return bad


def frame_ok(U, old, new, eff):
    bad = []
    links = eff.get('links')
    newev = eff.get('newevents', False)

    def skip(f, e):
        return newev and f not in eff and not old.alloc(e)
    for f in REL:
        if links and f in LINKF:
            continue
        w = eff.get(f)
        for e in U:
            if skip(f, e) or (f in LINKF and not getattr(new, 'has_' + f)(e)):
                continue
            ne = new.g(e, f)
            if w is None:
                if ne != old.g(e, f):
                    bad.append(('effect:' if f in eff else 'frame:') + f)
            elif any(bool(w(e, x)) != (x in ne) for x in U):
                bad.append('effect:' + f)
    for f in FLAGS[1:] + ('label', 'clen', 'plen'):
        if links and f in LINKF:
            continue
        w = eff.get(f, getattr(old, f))
        for e in U:
            if skip(f, e):
                continue
            if f == 'clen' and not new.has_coords(e) or f == 'plen' and not new.has_pos(e):
                continue
            a, b = w(e), getattr(new, f)(e)
            if a is not b and a != b:
                bad.append(('effect:' if f in eff else 'frame:') + f)
    for f, ln, hs in (('cget', 'clen', 'has_coords'), ('pget', 'plen', 'has_pos')):
        w = eff.get(f, getattr(old, f))
        for e in U:
            if skip(f, e) or not getattr(new, hs)(e):
                continue
            for i in range(getattr(new, ln)(e)):
                if not close(w(e, i), getattr(new, f)(e, i)):
                    bad.append(('effect:' if f in eff else 'frame:') + f)
    if links and links != 'open':
        bad += ['linkok:' + b for b in link_ok(new, U)]
        if links == 'lazy':
            for e in U:
                if old.has_lprec(e) and not new.has_lprec(e):
                    bad.append('links-kept')
    return bad


def run_case(ct, sc, rng, case=None, opts=None):
    """One evaluation.  Returns None (held), or a dict describing the failure.
    Raises Skip when the preconditions do not hold."""
    fn, cls = target(ct.qual)
    o = ct.opts
    if o.get('world') is False:
        w = W.World(rng, case=[])
    else:
        w = W.World(rng, case=case, max_n=(opts or {}).get('max_n', o.get('max_n', 6)),
                    coords=o.get('coords', False), dim=o.get('dim'), big_n=o.get('big_n', 12))
    if o.get('prepare'):
        o['prepare'](rng, w)
    vals = {n: draw(rng, k, w, n, ct) for n, k in sc.items() if k != 'omit'}
    w.freeze()
    news = [v for n, v in vals.items() if sc[n] == 'newevent']
    pre_events = reach(list(w.events), list(vals.values()))
    L = ConL(list(pre_events))
    old = W.Snap(L, [e for e in pre_events if not any(e is x for x in news)],
                 allocated=pre_events)
    full = dict(vals)
    for n, k in sc.items():
        if k == 'omit':
            full[n] = inspect.signature(fn).parameters[n].default
    c = CCtx(L, ct, full, old)
    c.rng = rng
    c.sc = sc
    if not all(f for n, f in ct.requires(c)):
        raise Skip
    desc = {'function': ct.qual, 'scenario': scenario_name(sc), 'world': w.describe(),
            'arguments': {n: describe(w, v) for n, v in vals.items()}}
    LAST[:] = [desc, len(w.events) >= 2 or any(
        not (v is None or isinstance(v, (str, list, tuple, set, dict)) and not v)
        for v in vals.values())]
    argsets = {n: frozenset(v) for n, v in vals.items() if isinstance(v, set)}
    argobjs = {n: (dict(v.__dict__), frozenset(v._events) if hasattr(v, '_events') else None)
               for n, v in vals.items() if is_obj(v)}
    arglists = {n: list(v) for n, v in vals.items() if isinstance(v, list) and
                not o.get('arguments_change')}
    argarrays = {n: v.copy() for n, v in vals.items() if type(v).__name__ == 'ndarray'}
    raised = res = None
    limit = (opts or {}).get('limit', 5.0)
    old_handler = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        if o.get('call'):
            res = o['call'](fn, vals, c)
        else:
            res = call_real(fn, cls, vals, sc)
    except Timeout:
        desc['failed'] = ['does not finish within %g s' % limit]
        return desc
    except Exception as ex:
        raised = ex
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old_handler)
    roots = [res] + list(vals.values())
    post = reach(pre_events, roots)
    L.universe = list(post)
    c.U = L.universe
    new = W.Snap(L, post)
    bad = []
    rs = ct.raises(c)
    if raised is not None:
        name = [k.__name__ for k in type(raised).__mro__]
        if not any(f for n, f in rs if n in name):
            bad.append('raises %s: %s' % (type(raised).__name__, str(raised)[:200]))
            tb = traceback.extract_tb(raised.__traceback__)
            if tb:
                desc['at'] = '%s:%d' % (tb[-1].filename, tb[-1].lineno)
        else:
            bad += ['unchanged-on-raise/' + b for b in frame_ok(post, old, new, {})]
            for n, (d, ev) in argobjs.items():
                if ev is not None and frozenset(vals[n]._events) != ev:
                    bad.append('unchanged-on-raise/events of ' + n)
        return fail(desc, bad)
    for n, f in rs:
        if f:
            bad.append('must-raise:' + n)
    if bad:
        return fail(desc, bad)
    eff = ct.effect(c)
    bad += frame_ok(post, old, new, eff)
    # (unless the precondition on the points that were sampled is not met)
    c.new = new
    orderly = o['orderly'](c) if 'orderly' in o and raised is None else True
    if 'wf' in ct.hyps and not o.get('no_order') and orderly:
        bad += ['order:' + b for b in wf_ok(new, post)]
    bad += shared(post, vals)
    if 'linkok' in ct.hyps and not o.get('no_order') and orderly:
        bad += ['linkok:' + b for b in link_ok(new, post)]
    evs = eff.get('events', {})
    for n, s in argsets.items():
        want = frozenset(x for x in post if evs[n].has(x)) if n in evs else s
        if frozenset(vals[n]) != want:
            bad.append('argument-' + n)
    for n, s in arglists.items():
        if len(s) != len(vals[n]) or any(a is not b and a != b for a, b in zip(s, vals[n])):
            bad.append('argument-%s-unchanged' % n)
    for n, s in argarrays.items():
        if s.shape != vals[n].shape or not (s == vals[n]).all():
            bad.append('argument-%s-unchanged' % n)
    attrs = eff.get('attrs', {})
    for n, (d, ev) in argobjs.items():
        v = vals[n]
        if ev is not None and n not in eff.get('havoc_events', ()):
            want = frozenset(x for x in post if evs[n].has(x)) if n in evs else ev
            if frozenset(v._events) != want:
                bad.append('events-of-' + n)
        for k in set(d) | set(v.__dict__):
            if k == '_events' or (n, k) in attrs or k.startswith('__'):
                continue
            if n in eff.get('havoc_events', ()) and k not in d and ev is None:
                continue
            if k not in d or k not in v.__dict__ or not same(d[k], v.__dict__[k]):
                bad.append('attribute-%s-of-%s-unchanged' % (k, n))
        for (an, k), want in attrs.items():
            if an == n and not eq_value(L, v.__dict__.get(k), want, new):
                bad.append('attribute-' + k)
    for n, v in vals.items():
        if hasattr(v, '_events'):
            for m, u in vals.items():
                if v._events is u or (m != n and hasattr(u, '_events') and u is not v and
                                      v._events is u._events):
                    bad.append('events-of-%s-not-shared' % n)
    c.new = new
    c.post_args = {k: wrap(L, v) for k, v in full.items()}
    c.raw = res
    if ct.has_result:
        want = ct.result(c)
        if callable(want) and not isinstance(want, (SetC, LiveSet)):
            ok = want(res)
        else:
            ok = eq_value(L, res, want, new)
        if not ok:
            bad.append('result')
            desc['returned'] = describe(w, res)
        if isinstance(want, SetC) and ct.fresh and isinstance(res, set):
            for e in post:
                if any(res is getattr(e, a, None) for a in ('_prec', '_succ', '_lprec', '_lsucc')):
                    bad.append('result-is-new')
            for v in vals.values():
                if res is v or res is getattr(v, '_events', None):
                    bad.append('result-is-new')
        c.result = want
    else:
        c.result = wrap(L, res)
        if ct.result_kind is not None and not kind_ok(ct.result_kind, res):
            bad.append('result kind %s' % ct.result_kind)
            desc['returned'] = describe(w, res)
            return fail(desc, bad)
    for n, f in ct.ensures(c):
        if not f:
            bad.append('post:' + n)
            desc['returned'] = describe(w, res)
    return fail(desc, bad)


def shared(events, vals):
    """attribute objects that belong to two events or to an argument"""
    bad, seen = [], set()
    args = {id(x) for v in vals.values() for x in (v.values() if isinstance(v, dict) else [v])
            if isinstance(x, (set, list))}
    for e in events:
        for a in ('_prec', '_succ', '_lprec', '_lsucc', '_coordinates', '_position'):
            x = getattr(e, a, None)
            if isinstance(x, (set, list)):
                if id(x) in seen or id(x) in args:
                    bad.append('set-not-shared(%s)' % a)
                seen.add(id(x))
    return bad


def kind_ok(k, v):
    if k == 'bool':
        return isbool(v)
    if k == 'int':
        return isnum(v) and not isinstance(v, float)
    if k == 'real':
        return isnum(v)
    if k == 'event':
        return hasattr(v, '_prec')
    if k == 'set':
        return isinstance(v, (set, frozenset))
    if k == 'reals':
        return isinstance(v, (list, tuple)) and all(isnum(x) for x in v)
    if k == 'intlist':
        return isinstance(v, (list, tuple)) and all(kind_ok('int', x) for x in v)
    if k == 'evlist':
        return isinstance(v, (list, tuple)) and all(hasattr(x, '_prec') for x in v)
    if k == 'setlist':
        return isinstance(v, (list, tuple)) and all(isinstance(x, (set, frozenset)) for x in v)
    return True


def same(a, b):
    if a is b:
        return True
    try:
        r = a == b
        return bool(r) if not hasattr(r, 'all') else bool(r.all())
    except Exception:
        return False


def fail(desc, bad):
    if not bad:
        return None
    desc['failed'] = sorted(set(bad))[:20]
    return desc


def _alarm(*a):
    raise Timeout()


def seed_of(*parts):
    return zlib.crc32(repr(parts).encode())


def cases(ct, sc, seed):
    """Endless deterministic sequence of (key, rng, poset)."""
    small = []
    if ct.opts.get('world') is not False:
        for n in range(0, 5):
            small += [(n, i, p) for i, p in enumerate(W.posets(n))]
    k = 0
    while True:
        key = [seed, k]
        rng = random.Random(seed_of(ct.qual, scenario_name(sc), seed, k))
        if small and k % 2 == 0:
            yield key, rng, small[(k // 2) % len(small)][2]
        else:
            yield key, rng, None
        k += 1


LAST = []


def search(ct, seconds, max_cases, seed=1, stats=None):
    """(number of evaluations, failure or None); stats collects the hashes of the distinct
    non-trivial cases and two samples"""
    t0 = time.time()
    done = skipped = 0
    gens = [(i, sc, cases(ct, sc, seed)) for i, sc in enumerate(ct.scenarios())]
    limit = max_cases * len(gens)
    n = 0
    while n < limit * 4 and done < limit and time.time() - t0 < seconds:
        for i, sc, g in gens:
            key, rng, case = next(g)
            n += 1
            try:
                r = run_case(ct, sc, rng, case)
            except Skip:
                skipped += 1
                continue
            done += 1
            if stats is not None and LAST and LAST[1]:
                h = seed_of(LAST[0])
                if h not in stats['seen']:
                    stats['seen'].add(h)
                    if len(stats['seen']) in (3, 40):
                        stats['samples'].append(LAST[0])
            if r is not None:
                r['case'] = {'scenario_index': i, 'seed': key[0], 'index': key[1]}
                return done, r
    return done, None


def replay(info):
    ct = REGISTRY[info['function']]
    cs = info['case']
    sc = list(ct.scenarios())[cs['scenario_index']]
    g = cases(ct, sc, cs['seed'])
    for _ in range(cs['index'] + 1):
        key, rng, case = next(g)
    return run_case(ct, sc, rng, case)
