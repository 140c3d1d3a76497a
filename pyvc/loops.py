"""Loops.

Loops with a concrete number of iterations are unrolled.  A loop over a set, a
family or an index range of unknown size is summarised by an invariant of the
form "after the elements D have been processed the state is f_D", where f_D is
guessed from one symbolic execution of the body and *checked* to be inductive
by the solver; the check is an obligation of the function.  Loops whose
invariant cannot be guessed take candidate invariants from the contract, or the
function is out of reach (NeedInvariant).
"""
import ast
import z3
from .engine import (Ghosts, Ev, Val, REL, FLAGS, LINKF, ALL_FIELDS, Unsupported, NeedInvariant, RaiseEx,
                     ReturnEx, BreakEx, ContinueEx, Infeasible, SetBox, ObjV, ListV, SymList,
                     SymMat, CompV, Env, POISON, RangeV, EnumV, Emit, is_num, is_bool, is_ev, same_val,
                     DictV, consts_in)

from .values import ExtV

UNROLL = 40
I = z3.IntSort()
B = z3.BoolSort()


class Domain:
    def __init__(self, vs, guard, value, ordered=None, stable=None):
        self.vs = vs            # list of z3 consts (placeholders)
        self.guard = guard      # formula over vs
        self.value = value      # engine value over vs, or function(eng, consts) -> value
        self.ordered = ordered  # (lo, hi) for index domains
        self.stable = stable    # None or thunk -> formula: the iterated object is unchanged


def index_range(v, g):
    """(lo, hi) when the guard says lo <= v < hi."""
    lo = hi = None
    for c in (g.children() if z3.is_and(g) else [g]):
        neg = z3.is_not(c)
        if neg:
            c = c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2:
            return None
        a, b = c.children()
        k = c.decl().kind()
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE,
                 z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        flip = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT,
                z3.Z3_OP_GT: z3.Z3_OP_LT}
        if b.eq(v):
            a, b, k = b, a, flip.get(k)
        if not a.eq(v) or v.decl().name() in consts_in(b):
            return None
        if k == z3.Z3_OP_GE and lo is None:
            lo = b
        elif k == z3.Z3_OP_GT and lo is None:
            lo = b + 1
        elif k == z3.Z3_OP_LT and hi is None:
            hi = b
        elif k == z3.Z3_OP_LE and hi is None:
            hi = b + 1
        else:
            return None
    return (lo, hi) if lo is not None and hi is not None else None


def subst_fun(t, pairs):
    """Substitute constants and functions.  pairs: (const, term) or (func, lambda args)."""
    cs = [(a, b) for a, b in pairs if z3.is_expr(a)]
    fs = [(a, b) for a, b in pairs if not z3.is_expr(a)]
    if cs:
        t = z3.substitute(t, *cs)
    if fs:
        t = z3.substitute_funs(t, *fs)
    return t


def subst_value(v, pairs, eng):
    if z3.is_expr(v):
        return subst_fun(v, pairs)
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs, eng) for x in v)
    if isinstance(v, ListV):
        return ListV(eng, [subst_value(x, pairs, eng) for x in v.items], v.tup)
    if isinstance(v, SetBox):
        m = v.cur()
        return SetBox(eng, lambda x: subst_fun(eng.L.B(m(x)), pairs), sort=v.sort)
    if isinstance(v, SymList):
        g, n, b = v.get, v.length, v.bag
        r = SymList(eng, subst_value(n, pairs, eng), lambda i: subst_value(g(i), pairs, eng),
                    kind=v.kind, esort=v.esort)
        if b is not None:
            r.bag = lambda x: subst_fun(eng.L.B(b(x)), pairs)
        return r
    if isinstance(v, CompV):
        return CompV([(vs, subst_fun(g, pairs), subst_value(x, pairs, eng))
                      for vs, g, x in v.branches])
    if isinstance(v, (bool, int, float, str, type(None), frozenset)):
        return v
    if hasattr(v, 'term'):
        from .engine import LabFmt
        return LabFmt(subst_fun(v.term, pairs))
    if v.__class__.__name__ == 'StrV':
        return v
    raise Unsupported('lifting of %s' % type(v).__name__)


class Lifter:
    """Turns the fresh symbols of one iteration into functions of the loop variables."""

    def __init__(self, eng, consts, fresh, targets):
        self.eng = eng
        self.consts = consts       # iteration constants
        self.targets = targets     # variables to express the result over
        self.pairs = []
        for s in fresh:
            if any(z3.is_expr(s) and s.eq(c) for c in consts):
                continue
            if z3.is_expr(s):
                F = z3.Function(eng.fresh_name(s.decl().name().split('~')[0]),
                                *([c.sort() for c in consts] + [s.sort()]))
                eng.freshlog.append(F)
                self.pairs.append((s, F(*consts)))
            else:
                doms = [s.domain(i) for i in range(s.arity())]
                F = z3.Function(eng.fresh_name(s.name().split('~')[0]),
                                *([c.sort() for c in consts] + doms + [s.range()]))
                eng.freshlog.append(F)
                self.pairs.append((s, F(*(list(consts) + [z3.Var(i, d) for i, d in enumerate(doms)]))))
        self.back = [(c, t) for c, t in zip(consts, targets) if not c.eq(t)]

    def term(self, t):
        t = subst_fun(t, self.pairs)
        if self.back:
            t = z3.substitute(t, *self.back)
        return t

    def value(self, v):
        v = subst_value(v, self.pairs, self.eng)
        if self.back:
            v = subst_value(v, self.back, self.eng)
        return v

    def mem(self, m):
        L = self.eng.L
        return lambda *x: self.term(L.B(m(*x)))

    def entry(self, en):
        """lifted card/sum entry"""
        if en[0] == 'card':
            return ('card', tuple(self.targets) + tuple(en[1]), self.term(en[2]),
                    self.mem(en[3]), en[4])
        if en[0] == 'sum':
            f = en[4]
            return ('sum', tuple(self.targets) + tuple(en[1]), self.term(en[2]), self.mem(en[3]),
                    (lambda *x: self.value(f(*x))), en[5])


def forall(vs, body):
    if z3.is_true(body):
        return body
    if not vs:
        return body
    return z3.ForAll(list(vs), body)


def exists(vs, body):
    if z3.is_false(body):
        return body
    if not vs:
        return body
    return z3.Exists(list(vs), body)


# ------------------------------------------------------------ dispatch
def for_loop(eng, it, bind, body, env, node):
    """Returns True when left by break."""
    if isinstance(it, RangeV):
        if it.concrete() and not (eng.ctx is not None and eng.ctx.ct.opts.get('creating')):
            it = list(it.pyrange())
            if len(it) > 200:
                raise Unsupported('long concrete range')
        else:
            return index_loop(eng, it.lo, it.hi, it.step, lambda i: i, bind, body, env, node)
    if isinstance(it, EnumV):
        inner = it.inner
        if isinstance(inner, SetBox) and eng.ctx is not None and \
                eng.ctx.ct.opts.get('ordered_lists'):
            from .builtins_model import list_of_set
            inner = list_of_set(eng, inner)
        if isinstance(inner, (ListV, tuple)):
            items = inner.items if isinstance(inner, ListV) else inner
            it = [(k + it.start, v) for k, v in enumerate(items)]
        elif isinstance(inner, SymList):
            g, st = inner.get, it.start
            return index_loop(eng, 0, inner.length, 1, lambda i: (i + st, g(i)), bind, body, env,
                              node, src=inner)
        elif isinstance(inner, SetBox):
            raise NeedInvariant('enumerate over a set')
        else:
            raise Unsupported('enumerate(%s)' % type(inner).__name__)
    if isinstance(it, (ListV, tuple, list, frozenset, str)):
        if isinstance(it, ListV):
            if it.hidden:
                raise NeedInvariant('list read while it is built')
            if it.base is not None:
                from .builtins_model import as_symlist
                return for_loop(eng, as_symlist(eng, it), bind, body, env, node)
            items = it._items
        else:
            items = sorted(it) if isinstance(it, frozenset) else it
        src = it if isinstance(it, ListV) else None
        items = list(items)
        for v in items:
            bind(v)
            try:
                body()
            except ContinueEx:
                pass
            except BreakEx:
                return True
            if src is not None and len(src._items) != len(items):
                raise Unsupported('list changed while iterated')
        if src is not None and getattr(src, 'tail', None) is not None:
            return for_loop(eng, src.tail, bind, body, env, node)
        return False
    if isinstance(it, CompV):
        for vs, g, val in it.branches:
            if not vs:
                if eng.choose(g):
                    bind(val)
                    try:
                        body()
                    except ContinueEx:
                        pass
                    except BreakEx:
                        return True
                continue
            dom = Domain(list(vs), g, val)
            if symbolic_loop(eng, dom, bind, body, env, node):
                return True
        return False
    if isinstance(it, SetBox):
        v = z3.Const(eng.fresh_name('e'), it.sort)
        m0 = it.cur()

        def stable():
            x = z3.Const(eng.fresh_name('sx'), it.sort)
            a, b = eng.L.B(m0(x)), eng.L.B(it.cur()(x))
            if a.eq(b):
                return eng.L.true
            return z3.ForAll([x], a == b)
        dom = Domain([v], eng.L.B(m0(v)), v, stable=stable)
        return symbolic_loop(eng, dom, bind, body, env, node)
    if isinstance(it, SymList):
        if it.bag is not None and it.info.get('distinct') and not (
                it.get is not None and eng.ctx is not None and
                eng.ctx.ct.opts.get('ordered_lists')):
            v = z3.Const(eng.fresh_name('e'), Ev)
            return symbolic_loop(eng, Domain([v], it.bag(v), v), bind, body, env, node)
        if it.info.get('comp') is not None:
            return for_loop(eng, it.info['comp'], bind, body, env, node)
        if it.get is None:
            raise Unsupported('iteration over a list of unknown order')
        return index_loop(eng, 0, it.length, 1, it.get, bind, body, env, node, src=it)
    if isinstance(it, ObjV):
        if eng.prog.lookup(it.cls, '__iter__'):
            r = eng.call_method(it, it.cls, '__iter__', [], {})
            return for_loop(eng, r, bind, body, env, node)
    if isinstance(it, DictV):
        return for_loop(eng, list(it.d), bind, body, env, node)
    raise Unsupported('iteration over %s' % type(it).__name__)


def index_loop(eng, lo, hi, step, get, bind, body, env, node, src=None):
    if isinstance(step, int) and step == -1:
        lo0, hi0, get0 = lo, hi, get
        lo, hi = 0, lo0 - hi0
        get = lambda j: get0(lo0 - j)
    elif not (isinstance(step, int) and step == 1):
        raise Unsupported('range step')
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    hi = z3.IntVal(hi) if isinstance(hi, int) else hi
    i = z3.Const(eng.fresh_name('i'), I)
    stable = None
    if src is not None:
        n0, g0 = src.length, src.get

        def stable():
            if src.get is g0 and src.length is n0:
                return eng.L.true
            raise Unsupported('list changed while iterated')
    dom = Domain([i], z3.And(lo <= i, i < hi), lambda e, cs: get(cs[0]), ordered=(lo, hi),
                 stable=stable)
    return symbolic_loop(eng, dom, bind, body, env, node)


# ---------------------------------------------------------- state locations
def arg_sorts(field):
    if field in REL:
        return [Ev, Ev]
    if field in ('cget', 'pget'):
        return [Ev, I]
    return [Ev]


class Loc:
    """A modified piece of state seen as a function of some arguments."""

    def __init__(self, kind, key, obj=None, name=None, sorts=()):
        self.kind, self.key, self.obj, self.name, self.sorts = kind, key, obj, name, list(sorts)

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.kind, self.name)

    def read(self, eng):
        """Closure over the arguments at the current state."""
        if self.kind == 'heap':
            return eng.heap[self.name]
        if self.kind == 'box':
            return self.obj._mem
        if self.kind == 'envset':
            return self.obj.vars[self.name].cur()
        if self.kind == 'attrset':
            return self.obj.attrs[self.name].cur()
        if self.kind in ('envbool', 'envnum', 'envval'):
            v = self.obj.vars[self.name]
            return lambda: v
        if self.kind == 'arr':
            return self.obj.get
        raise AssertionError(self.kind)

    def write(self, eng, f):
        if self.kind == 'heap':
            eng.heap[self.name] = f
        elif self.kind == 'box':
            self.obj._mem = f
        elif self.kind == 'envset':
            self.obj.vars[self.name] = SetBox(eng, f, sort=self.sorts[0])
        elif self.kind == 'attrset':
            self.obj.attrs[self.name] = SetBox(eng, f, sort=self.sorts[0])
        elif self.kind in ('envbool', 'envnum', 'envval'):
            self.obj.vars[self.name] = f()
        elif self.kind == 'arr':
            self.obj.get = f
            if isinstance(self.obj, SymList):
                self.obj.bag = None
                self.obj.info = {}
        else:
            raise AssertionError(self.kind)

    def state_read(self, state):
        """Closure at a captured state of a path."""
        heap, muts = state
        if self.kind == 'heap':
            return heap[self.name]
        if self.kind == 'box':
            return muts[id(self.obj)][1][0]
        if self.kind in ('envset', 'attrset'):
            v = muts[id(self.obj)][1][self.name]
            if not isinstance(v, SetBox):
                raise NeedInvariant('set variable changes type')
            d = muts[id(v)][1]
            if d[1] is not None:
                f, e = d[1]
                h = heap[f]
                return lambda x: h(e, x)
            return d[0]
        if self.kind in ('envbool', 'envnum', 'envval'):
            v = muts[id(self.obj)][1][self.name]
            return lambda: v
        if self.kind == 'arr':
            d = muts[id(self.obj)][1]
            return d[1] if isinstance(self.obj, SymList) else d[2]
        raise AssertionError(self.kind)


def find_mods(eng, snap, results, poison):
    """Locations changed by some normally ending path."""
    heap0, muts0 = snap[0], snap[1]
    locs = {}
    for r in results:
        heap1, muts1 = r['state']
        for f in ALL_FIELDS:
            if heap1[f] is not heap0[f]:
                locs[('heap', f)] = Loc('heap', ('heap', f), name=f, sorts=arg_sorts(f))
        for m, d0 in muts0:
            d1 = muts1[id(m)][1]
            if isinstance(m, Env):
                for k in d0:
                    if k not in d1:
                        raise NeedInvariant('variable deleted in loop')
                    a, b = d0[k], d1[k]
                    if same_val(a, b) or a is POISON:
                        continue
                    key = ('env', id(m), k)
                    if (id(m), k) in poison:
                        continue
                    if isinstance(a, SetBox) and isinstance(b, SetBox):
                        locs[key] = Loc('envset', key, m, k, [a.sort])
                    elif isinstance(a, frozenset) and not a and isinstance(b, SetBox):
                        locs[key] = Loc('envset', key, m, k, [b.sort])
                    elif is_bool(a) and is_bool(b):
                        locs[key] = Loc('envbool', key, m, k)
                    elif all(is_num(q) or isinstance(q, ExtV) for q in (a, b)):
                        locs[key] = Loc('envnum', key, m, k)
                    elif eng.ctx is not None and eng.ctx.ct.opts.get('list_vars') and \
                            all(isinstance(q, (ListV, SymList)) for q in (a, b)):
                        locs[key] = Loc('envlist', key, m, k)
                    else:
                        poison[(id(m), k)] = (m, k)
            elif isinstance(m, SetBox):
                if d1[0] is not d0[0]:
                    locs[('box', id(m))] = Loc('box', ('box', id(m)), m, 'box', [m.sort])
                elif d1[1] is not d0[1]:
                    raise NeedInvariant('set becomes an attribute inside a loop')
            elif isinstance(m, Ghosts):
                pass
            elif isinstance(m, SymMat):
                if d1[2] is not d0[2]:
                    locs[('arr', id(m))] = Loc('arr', ('arr', id(m)), m, 'arr', [I, I])
            elif isinstance(m, SymList):
                if d1[1] is not d0[1]:
                    locs[('arr', id(m))] = Loc('arr', ('arr', id(m)), m, 'arr', [I])
            elif isinstance(m, ListV):
                if len(d1[0]) != len(d0[0]) or d1[2] is not d0[2] or d1[3] is not d0[3] or \
                        not all(same_val(x, y) for x, y in zip(d0[0], d1[0])):
                    key = ('list', id(m))
                    locs[key] = Loc('list', key, m, 'list')
            elif isinstance(m, ObjV):
                if not same_val(d0, d1):
                    for k in set(d0) | set(d1):
                        if k in d0 and k in d1 and same_val(d0[k], d1[k]):
                            continue
                        a, b = d0.get(k), d1.get(k)
                        if isinstance(a, SetBox) and isinstance(b, SetBox):
                            key = ('attr', id(m), k)
                            locs[key] = Loc('attrset', key, m, k, [a.sort])
                        else:
                            raise NeedInvariant('object attribute changed in loop')
            else:
                if not same_val(d0, d1):
                    raise NeedInvariant('%s changed in loop' % type(m).__name__)
    return locs


def conds_of(r):
    return [en[1] for en in r['entries'] if en[0] == 'cond']


def fresh_syms(terms, fresh):
    names = {}
    for s in fresh:
        names[s.decl().name() if z3.is_expr(s) else s.name()] = s
    out = set()
    for t in terms:
        out |= {n for n in consts_in(t) if n in names}
    return out, names


def relevant_entries(eng, r, terms):
    """Facts and cards of a path needed to interpret the fresh symbols in terms."""
    rel, names = fresh_syms(terms, r['fresh'])
    ents = [en for en in r['entries'] if en[0] != 'cond']
    keep = []
    changed = True
    used = [False] * len(ents)
    while changed:
        changed = False
        for k, en in enumerate(ents):
            if used[k]:
                continue
            t = en[1] if en[0] == 'fact' else en[2]
            syms = {n for n in consts_in(t) if n in names}
            if en[0] == 'fact' and en[1].get_id() in eng.linkfacts:
                if not (syms & rel):
                    continue
            if (syms & rel) or (en[0] == 'fact' and not syms):
                used[k] = True
                changed = True
                rel |= syms
                if en[0] in ('card', 'sum'):
                    x = z3.Const(eng.fresh_name('rx'), en[-1])
                    rel |= {n for n in consts_in(eng.L.B(en[3](x))) if n in names}
    return [en for k, en in enumerate(ents) if used[k]]


def run_body(eng, dom, bind, body, prepare):
    """Explore one iteration from the state established by prepare(consts)."""
    cs = []
    info = {}

    def thunk():
        cs[:] = [z3.Const(eng.fresh_name('it'), v.sort()) for v in dom.vs]
        eng.freshlog.extend(cs)
        pairs = list(zip(dom.vs, cs))
        info['nh'] = prepare(cs) or {}
        eng.assume(z3.substitute(dom.guard, *pairs))
        if callable(dom.value):
            val = dom.value(eng, cs)
        else:
            val = subst_value(dom.value, pairs, eng)
        eng.loopdepth += 1
        try:
            bind(val)
            try:
                body()
            except ContinueEx:
                pass
            if dom.stable is not None and eng.recording:
                eng.oblige('%s/loop-domain-unchanged' % eng.verifying, dom.stable())
        finally:
            eng.loopdepth -= 1
        return list(cs)

    def wrapped():
        extra = []
        try:
            r = thunk()
        finally:
            infos.append((list(cs), dict(info.get('nh', {}))))
        return r
    infos = []
    pend = []
    rs = eng.explore(wrapped, pathdone=lambda r: pend.append(infos[-1]))
    for r, (c, nh) in zip(rs, pend):
        r['consts'], r['numheads'] = c, nh
    return rs


def symbolic_loop(eng, dom, bind, body, env, node):
    """Summarise the loop as independent steps; otherwise use invariants."""
    from .invariants import guarded, invariant_for
    if eng.ctx is None or not hasattr(eng.ctx.ct, 'loop_invariants') or \
            isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
        return summary_loop(eng, dom, bind, body, env, node)
    first = eng.ctx.ct.opts.get('invariants_first')
    if not first or first == 'sequences' and dom.ordered is None:
        try:
            return guarded(eng, summary_loop, eng, dom, bind, body, env, node)
        except NeedInvariant as ex:
            if eng.opts.get('debug'):
                print('  loop line %s: %s; using invariants' % (getattr(node, 'lineno', '?'), ex))
    return invariant_for(eng, dom, bind, body, env)


def summary_loop(eng, dom, bind, body, env, node):
    snap = eng.snapshot()
    poison = {}

    # ---- 1. one iteration from the actual state
    def prep0(cs):
        for (m, k) in poison.values():
            m.vars[k] = POISON
    for _ in range(4):
        npo = len(poison)
        rec = eng.recording
        rs = run_body(eng, dom, bind, body, prep0)
        normal = [r for r in rs if r['out'][0] == 'ok']
        locs = find_mods(eng, snap, normal, poison)
        if len(poison) == npo:
            break
    exits = [r for r in rs if r['out'][0] != 'ok']
    link_locs = [l for l in locs.values() if l.kind == 'heap' and l.name in LINKF]
    benign = False
    if link_locs:
        direct = any(r.get('direct_link') for r in rs)
        lazy = any(r.get('lazy_link') for r in rs)
        if direct and lazy:
            raise NeedInvariant('links changed directly and lazily')
        if not direct:
            benign = True
            for l in link_locs:
                del locs[l.key]
    if any(l.kind == 'list' for l in locs.values()):
        return list_loop(eng, dom, bind, body, env, node, snap, poison, locs, benign)
    bools = [l for l in locs.values() if loc_is_bool(eng, l, normal)]
    nums = [l for l in locs.values() if l.kind == 'envnum']
    others = [l for l in locs.values() if l not in bools and l not in nums]

    # ---- 2. name the state, get the single-step functions
    L = eng.L
    heads = {}
    def base_prep(cs):
        for (m, k) in poison.values():
            m.vars[k] = POISON
    for l in bools + others:
        f0 = l.read(eng)
        args = [z3.Const(eng.fresh_name('a'), s) for s in l.sorts]
        t0 = f0(*args)
        t0 = eng.as_term(t0)
        if l.kind == 'envval' or not z3.is_expr(t0):
            raise NeedInvariant('loop state ' + repr(l))
        if is_atomic(t0, args):
            heads[l.key] = (t0.decl(), f0)
        else:
            F0 = eng.fresh_fun('st_' + str(l.name), *(l.sorts + [t0.sort()]))
            eng.assume(forall(args, F0(*args) == t0))
            clo = (lambda F0: lambda *x: F0(*x))(F0)
            l.write(eng, clo)
            heads[l.key] = (F0, clo)
    if benign:
        eng.havoc_links()
    named = eng.snapshot()
    accs = {}
    for l in nums:
        v0 = l.obj.vars[l.name]
        real = isinstance(v0, float) or (z3.is_expr(v0) and z3.is_real(v0))
        for r in normal:
            v1 = l.state_read(r['state'])()
            if isinstance(v1, float) or (z3.is_expr(v1) and z3.is_real(v1)):
                real = True
        accs[l.key] = (v0, real)

    def prep1(cs):
        base_prep(cs)
        nh = {}
        for l in nums:
            c = eng.fresh('acc', z3.RealSort() if accs[l.key][1] else I)
            nh[l.key] = c
            l.obj.vars[l.name] = c
        return nh
    if bools or others or nums or benign:
        rs = run_body(eng, dom, bind, body, prep1)
        normal = [r for r in rs if r['out'][0] == 'ok']
        exits = [r for r in rs if r['out'][0] != 'ok']

    # ---- 3. candidates
    vs = dom.vs
    forms = {}          # loc key -> list of candidate builders: D -> closure
    extra_facts = []    # lifted facts needed by candidates
    terms_needed = []
    gk = {}
    lifters = {}

    def lifter(r):
        if id(r) not in lifters:
            lifters[id(r)] = Lifter(eng, r['consts'], r['fresh'], vs)
        return lifters[id(r)]
    for l in bools:
        args = [z3.Const(eng.fresh_name('a'), s) for s in l.sorts]
        partsK, partsG = [], []
        F0 = heads[l.key][0]
        here = F0(*args)
        for r in normal:
            t = L.B(eng.as_term(l.state_read(r['state'])(*args)))
            cl = [L.B(p) for p in conds_of(r)]
            need_facts(eng, r, [t] + cl, lifter, vs, dom, extra_facts)
            t = lifter(r).term(t)
            cl = [lifter(r).term(p) for p in cl]
            for parts, val in ((partsK, True), (partsG, False)):
                sub = (here, z3.BoolVal(val))
                parts.append(([z3.simplify(z3.substitute(p, sub)) for p in cl],
                              z3.simplify(z3.substitute(t, sub))))
        K = z3.simplify(merge_paths(L, partsK, bool(exits)))
        G = z3.simplify(merge_paths(L, partsG, bool(exits)))
        # drop effects that the current facts exclude
        for f in extra_facts:
            pass
        pre = L.And(dom.guard, *[en[1] for en in extra_facts if en[0] == 'fact'])
        if not normal:
            K, G = z3.BoolVal(True), z3.BoolVal(False)
        else:
            if not z3.is_true(K) and term_size(K) > 6 and \
                    eng.prove(L.Implies(L.And(pre, here), K), ms=1500):
                K = z3.BoolVal(True)
            if not z3.is_false(G) and term_size(G) > 6 and \
                    eng.prove(L.Implies(L.And(pre, L.Not(here)), L.Not(G)), ms=1500):
                G = z3.BoolVal(False)
        gk[l.key] = (args, here, G, K)
    deltas = {}
    for l in nums:
        v0, real = accs[l.key]
        parts = []
        for r in normal:
            c = r['numheads'][l.key]
            v1 = eng.to_z3num(l.state_read(r['state'])(), real)
            d = z3.simplify(v1 - c)
            if c.decl().name() in consts_in(d):
                raise NeedInvariant('accumulator ' + l.name)
            P = L.And(*conds_of(r))
            if c.decl().name() in consts_in(P):
                raise NeedInvariant('accumulator in condition ' + l.name)
            need_facts(eng, r, [d, P], lifter, vs, dom, extra_facts)
            parts.append((lifter(r).term(P), lifter(r).term(d)))
        dl = z3.RealVal(0) if real else z3.IntVal(0)
        for P, d in parts:
            dl = L.If(P, d, dl)
        deltas[l.key] = z3.simplify(dl)
    arrs = {}
    for l in others:
        arrs[l.key] = array_candidate(eng, l, heads[l.key], normal, lifter, vs, dom, extra_facts)

    # ---- 4. inductiveness in the D-form state
    for f in extra_facts:
        eng.assume_entry(f)
    named = eng.snapshot()
    Dsorts = [v.sort() for v in vs]

    def make_D(base):
        if dom.ordered is not None and len(vs) == 1:
            k = eng.fresh('k', I)
            lo, hi = dom.ordered
            eng.assume(z3.And(lo <= k, k < hi))
            return (lambda x: z3.And(lo <= x, x < k)), [k]
        D = eng.fresh_fun('done', *(Dsorts + [B]))
        eng.assume(forall(vs, z3.Implies(D(*vs), dom.guard)))
        return (lambda *x: D(*x)), None

    def form_bool(l, Dp, plus=None):
        args0, here, G, K = gk[l.key]
        F0 = heads[l.key][0]

        def clo(*x):
            sub = list(zip(args0, x))
            g, k = z3.substitute(G, *sub), z3.substitute(K, *sub)
            D = Dp(*vs)
            a = F0(*x)
            if not z3.is_true(k):
                a = L.And(a, forall(vs, L.Implies(D, k)))
                if plus is not None:
                    a = L.And(a, z3.substitute(k, *zip(vs, plus)))
            b = L.false
            if not z3.is_false(g):
                b = one_point(vs, L.And(D, g))
                if plus is not None:
                    b = L.Or(b, z3.substitute(g, *zip(vs, plus)))
            return L.Or(a, b)
        return clo

    def num_at(l, Dp):
        v0, real = accs[l.key]
        return eng.to_z3num(v0, real) + sum_over(eng, vs, Dp(*vs), deltas[l.key], real)
    holder = {}

    def prepD(cs):
        base_prep(cs)
        Dp, k = make_D(None)
        holder['D'] = Dp
        holder['k'] = k
        if k is not None:
            eng.assume(cs[0] == k[0])
        else:
            eng.assume(L.Not(Dp(*cs)))
        for l in bools:
            l.write(eng, form_bool(l, Dp))
        for l in others:
            l.write(eng, arrs[l.key](Dp))
        nh = {}
        for l in nums:
            c = eng.fresh('acc', z3.RealSort() if accs[l.key][1] else I)
            eng.assume(c == num_at(l, Dp))
            nh[l.key] = c
            l.obj.vars[l.name] = c
        holder['nh'] = nh
        if benign:
            eng.havoc_links()
    if bools or nums or others:
        def check(cs):
            """runs at the end of each normal path, inside the exploration"""
            Dp = holder['D']
            for l in bools:
                x = [z3.Const(eng.fresh_name('x'), s) for s in l.sorts]
                got = L.B(eng.as_term(l.read(eng)(*x)))
                want = form_bool(l, Dp, plus=cs)(*x)
                if not eng.prove(L.Iff(got, want)):
                    raise NeedInvariant('not inductive: %r' % (l,))
            for l in others:
                x = [z3.Const(eng.fresh_name('x'), s) for s in l.sorts]
                got = eng.as_term(l.read(eng)(*x))
                want = arrs[l.key](lambda *y: L.Or(Dp(*y), z3.And(*[a == b for a, b in zip(y, cs)])))(*x)
                if not eng.prove(got == want):
                    raise NeedInvariant('not inductive: %r' % (l,))
            for l in nums:
                v = eng.to_z3num(l.read(eng)(), accs[l.key][1])
                want = holder['nh'][l.key] + z3.substitute(deltas[l.key], *zip(vs, cs))
                if not eng.prove(v == want):
                    raise NeedInvariant('not inductive: %r' % (l,))

        def bodyD():
            try:
                body()
            except ContinueEx:
                pass
            check(holder['cs'])

        def prepD2(cs):
            holder['cs'] = cs
            prepD(cs)
        sn = eng.snapshot()
        rs = run_body(eng, dom, bind, bodyD, prepD2)
        newlocs = find_mods(eng, sn, [r for r in rs if r['out'][0] == 'ok'], dict(poison))
        for k2, l2 in newlocs.items():
            if k2 not in locs and not (benign and l2.kind == 'heap' and l2.name in LINKF):
                raise NeedInvariant('further state changed: %r' % (l2,))
        if any(l.kind == 'heap' and l.name in LINKF for l in newlocs.values()) and benign and \
                any(r.get('direct_link') for r in rs):
            raise NeedInvariant('direct link change')
        normal = [r for r in rs if r['out'][0] == 'ok']
        exits = [r for r in rs if r['out'][0] != 'ok']
        eng.loops_auto += 1
    lifters.clear()

    # ---- 5. exits
    for r in exits:
        flag = eng.fresh('exit', B)
        if eng.choose(flag, prune=False):
            return eng.enter(r)

    # ---- 6. normal end
    facts = []
    for r in exits:
        P = conds_of(r)
        lf = Lifter(eng, r['consts'], r['fresh'], vs)
        P = L.And(*P)
        for en in relevant_entries(eng, r, [P]):
            facts.append(lift_entry(eng, en, lf, vs, dom, conds_before(r, en)))
        body_ = L.Implies(dom.guard, L.Not(lf.term(P)))
        facts.append(('fact', forall(vs, body_)))
    em_out = []
    for r in normal:
        if not r['emits']:
            continue
        lf = Lifter(eng, r['consts'], r['fresh'], vs)
        P = L.And(*conds_of(r))
        terms = [P]
        for (ev_, g, val) in r['emits']:
            terms.append(L.B(g))
            terms.extend(value_terms(eng, val))
        for en in relevant_entries(eng, r, terms):
            facts.append(lift_entry(eng, en, lf, vs, dom, conds_before(r, en)))
        for (ev_, g, val) in r['emits']:
            nv = [z3.Const(eng.fresh_name('v'), v.sort()) for v in vs]
            sub = list(zip(vs, nv))
            gg = z3.substitute(L.And(dom.guard, lf.term(L.And(P, L.B(g)))), *sub)
            em = Emit((tuple(nv) + tuple(ev_), gg, subst_value(lf.value(val), sub, eng)))
            if dom.ordered is not None and len(normal) == 1 and len(r['emits']) == 1 and \
                    not ev_ and z3.is_true(P) and z3.is_true(L.B(g)):
                em.ordered = dom.ordered
            em_out.append(em)
    for f in facts:
        eng.assume_entry(f)
    full = lambda *x: z3.substitute(dom.guard, *zip(vs, x))
    for l in bools:
        l.write(eng, name_closure(eng, l, form_bool(l, full)))
    for l in others:
        l.write(eng, arrs[l.key](full))
    for l in nums:
        l.obj.vars[l.name] = num_at(l, full)
    if benign:
        eng.havoc_links()
    for (m, k) in poison.values():
        m.vars[k] = POISON
    # variables first bound inside the loop
    for r in normal:
        for m, d0 in snap[1]:
            if isinstance(m, Env):
                for k in r['state'][1][id(m)][1]:
                    if k not in d0 and k not in m.vars:
                        m.vars[k] = POISON
    eng.emits[-1].extend(em_out) if eng.emits else None
    return False


def merge_paths(L, parts, partial):
    """Or of (conds and term) with complementary path conditions merged."""
    def key(c):
        neg = False
        while z3.is_not(c):
            neg, c = not neg, c.arg(0)
        return (c.get_id(), neg)
    keep = []
    items = []
    for cl, t in parts:
        m = {}
        dead = False
        for c in cl:
            if z3.is_true(c):
                continue
            if z3.is_false(c):
                dead = True
            keep.append(c)
            k = key(c)
            m[k] = c
            if (k[0], not k[1]) in m:
                dead = True
        if not dead:
            items.append([m, t])
    if not items:
        return L.false
    if not partial and all(t.eq(items[0][1]) for _, t in items):
        return items[0][1]           # the path conditions cover all cases
    changed = True
    while changed:
        changed = False
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                (a, ta), (b, tb) = items[i], items[j]
                if not ta.eq(tb):
                    continue
                da, db = set(a) - set(b), set(b) - set(a)
                if not da or not db:           # one subsumes the other
                    items[i] = [a if not da else b, ta]
                    del items[j]
                    changed = True
                    break
                if len(da) == 1 and len(db) == 1:
                    (ka,), (kb,) = da, db
                    if ka[0] == kb[0] and ka[1] != kb[1]:
                        items[i] = [{k: v for k, v in a.items() if k != ka}, ta]
                        del items[j]
                        changed = True
                        break
                elif len(da) == 1:
                    # a = R,p ; b = R,not p,Q  with the same term: drop "not p" from b
                    (ka,) = da
                    if (ka[0], not ka[1]) in b:
                        items[j] = [{k: v for k, v in b.items() if k != (ka[0], not ka[1])}, tb]
                        changed = True
                        break
                elif len(db) == 1:
                    (kb,) = db
                    if (kb[0], not kb[1]) in a:
                        items[i] = [{k: v for k, v in a.items() if k != (kb[0], not kb[1])}, ta]
                        changed = True
                        break
            if changed:
                break
    return L.Or(*[L.And(*(list(m.values()) + [t])) for m, t in items if not z3.is_false(t)])


def name_closure(eng, l, clo):
    """Give the state after a loop a name when it needs a quantifier."""
    if l.kind != 'heap' or not l.sorts:
        return clo
    args = [z3.Const(eng.fresh_name('a'), s) for s in l.sorts]
    t = eng.L.B(clo(*args))
    if not has_quant(t):
        return clo
    F = eng.fresh_fun('post_' + str(l.name), *(l.sorts + [B]))
    eng.assume(forall(args, F(*args) == t))
    return lambda *x: F(*x)


def has_quant(t):
    st, seen = [t], set()
    while st:
        u = st.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            return True
        st.extend(u.children())
    return False


def one_point(vs, body):
    """Exists vs. body, eliminating variables fixed by an equation."""
    body = z3.simplify(body)
    vs = list(vs)
    changed = True
    while changed:
        changed = False
        conj = list(body.children()) if z3.is_and(body) else [body]
        for c in conj:
            if z3.is_eq(c):
                for v in vs:
                    for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                        if a.eq(v) and v.decl().name() not in consts_in(b):
                            body = z3.simplify(z3.substitute(body, (v, b)))
                            vs.remove(v)
                            changed = True
                            break
                    if changed:
                        break
            if changed:
                break
    if z3.is_false(body) or z3.is_true(body) or not vs:
        return body
    return z3.Exists(vs, body)


def term_size(t, cap=50):
    n = 0
    st = [t]
    while st and n < cap:
        u = st.pop()
        n += 1
        if z3.is_quantifier(u):
            st.append(u.body())
        else:
            st.extend(u.children())
    return n


def is_atomic(t, args):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == len(args) \
        and all(t.arg(i).eq(args[i]) for i in range(len(args))) and len(args) > 0


def loc_is_bool(eng, l, normal):
    if l.kind in ('box', 'envset', 'attrset', 'envbool'):
        return True
    if l.kind == 'heap':
        return l.name in REL or l.name in FLAGS
    if l.kind == 'arr':
        x = [z3.Const('probe%d' % i, s) for i, s in enumerate(l.sorts)]
        ts = [l.read(eng)(*x)] + [l.state_read(r['state'])(*x) for r in normal]
        return all(is_bool(t) for t in ts)
    return False


def need_facts(eng, r, terms, lifter, vs, dom, out):
    ents = relevant_entries(eng, r, terms)
    fs, names = fresh_syms(terms, r['fresh'])
    cn = {c.decl().name() for c in r['consts']}
    if not (fs - cn):
        return
    for en in ents:
        e2 = lift_entry(eng, en, lifter(r), vs, dom, conds_before(r, en))
        out.append(e2)


def conds_before(r, en):
    out = []
    for x in r['entries']:
        if x is en:
            break
        if x[0] == 'cond':
            out.append(x[1])
    return out


def lift_entry(eng, en, lf, vs, dom, conds):
    L = eng.L
    if en[0] == 'fact':
        t = L.Implies(L.And(dom.guard, *[lf.term(c) for c in conds]), lf.term(en[1]))
        r = forall(vs, t)
        if en[1].get_id() in eng.linkfacts:
            eng.linkfacts.add(r.get_id())
            eng.linkkeep.append(r)
        return ('fact', r)
    return lf.entry(en)


def value_terms(eng, v):
    L = eng.L
    if z3.is_expr(v):
        return [v]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in value_terms(eng, x)]
    if isinstance(v, ListV):
        return [t for x in v.items for t in value_terms(eng, x)]
    if isinstance(v, SetBox):
        x = z3.Const(eng.fresh_name('vx'), v.sort)
        return [L.B(v.mem(x))]
    if isinstance(v, SymList):
        i = z3.Const(eng.fresh_name('vi'), I)
        out = value_terms(eng, v.length)
        if v.get is not None:
            out += value_terms(eng, v.get(i))
        if v.bag is not None:
            out.append(v.bag(z3.Const(eng.fresh_name('vb'), Ev)))
        return out
    if isinstance(v, CompV):
        return [t for vs, g, x in v.branches for t in [g] + value_terms(eng, x)]
    if hasattr(v, 'term'):
        return [v.term]
    return []


def sum_over(eng, vs, guard, delta, real):
    """Sum over all vs with guard of delta."""
    L = eng.L
    cnt = as_indicator(delta)
    if len(vs) != 1:
        raise NeedInvariant('sum over several variables')
    v = vs[0]
    if cnt is not None:
        p, w = cnt
        mem = lambda x: z3.substitute(L.And(guard, p), (v, x))
        if z3.is_true(z3.simplify(p)) and v.sort() == I:
            pass
        c = eng.card_term(mem, v.sort())
        return c * w if not (z3.is_int_value(w) and w.as_long() == 1) else c
    mem = lambda x: z3.substitute(guard, (v, x))
    f = lambda x: z3.substitute(delta, (v, x))
    return eng.sum_term(mem, f, v.sort(), real)


def as_indicator(d):
    """(p, w) when d == If(p, w, 0) with a constant w."""
    if z3.is_int_value(d) or z3.is_rational_value(d):
        return z3.BoolVal(True), d
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = d.children()
        num = lambda t: z3.is_int_value(t) or z3.is_rational_value(t)
        if num(a) and num(b):
            if is_zero(b):
                return c, a
            if is_zero(a):
                return z3.Not(c), b
    return None


def is_zero(t):
    return (z3.is_int_value(t) and t.as_long() == 0) or \
        (z3.is_rational_value(t) and t.numerator_as_long() == 0)


def array_candidate(eng, l, head, normal, lifter, vs, dom, extra_facts):
    """Candidate for a non-Boolean array or heap function written in the loop:
    value at x is that written by the element d with w(d, x), else the old one."""
    L = eng.L
    F0 = head[0]
    args = [z3.Const(eng.fresh_name('a'), s) for s in l.sorts]
    here = F0(*args)
    f1 = None
    for r in normal:
        t = eng.as_term(l.state_read(r['state'])(*args))
        P = L.And(*conds_of(r))
        need_facts(eng, r, [t, P], lifter, vs, dom, extra_facts)
        t, P = lifter(r).term(t), lifter(r).term(P)
        if t.sort() != here.sort():
            if here.sort() == z3.RealSort() and t.sort() == I:
                t = z3.ToReal(t)
            else:
                raise NeedInvariant('array element type')
        f1 = t if f1 is None else L.If(P, t, f1)
    f1 = z3.simplify(f1)
    # decompose nested ite into writes
    ws = []

    def walk(t, cond):
        if t.eq(here):
            return
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            walk(a, cond + [c])
            walk(b, cond + [z3.Not(c)])
        else:
            if F0.name() in consts_in(t):
                raise NeedInvariant('array value depends on the array')
            ws.append((z3.And(*cond) if cond else z3.BoolVal(True), t))
    walk(f1, [])

    cache = {}

    def form(Dp):
        D = Dp(*vs)
        # direct elimination when every variable is fixed by the arguments
        def clo(*x):
            sub = list(zip(args, x))
            out = F0(*x)
            for w, v in reversed(ws):
                ww = z3.substitute(z3.And(D, w), *sub)
                vv = z3.substitute(v, *sub)
                r = solve_point(vs, ww, vv)
                if r is None:
                    raise NeedInvariant('array write not indexed by the loop variables')
                c, val = r
                out = L.If(c, val, out)
            return out
        return clo
    return form


def conjuncts(w):
    """the conjuncts of a formula, negated disjunctions taken apart"""
    if z3.is_and(w):
        return [c for k in w.children() for c in conjuncts(k)]
    if z3.is_not(w):
        a = w.arg(0)
        if z3.is_or(a):
            return [c for k in a.children() for c in conjuncts(z3.Not(k))]
        if z3.is_not(a):
            return conjuncts(a.arg(0))
    return [w]


def solve_point(vs, w, v):
    """Eliminate vs from (w, v) using equations fixing them."""
    vs = list(vs)
    w = z3.simplify(w)
    while vs:
        conj = conjuncts(w)
        done = False
        for c in conj:
            if z3.is_eq(c):
                for u in vs:
                    for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                        if a.eq(u) and u.decl().name() not in consts_in(b):
                            w = z3.simplify(z3.substitute(w, (u, b)))
                            v = z3.substitute(v, (u, b))
                            vs.remove(u)
                            done = True
                            break
                    if done:
                        break
            if done:
                break
        if not done:
            return None
    return w, v


def list_loop(eng, dom, bind, body, env, node, snap, poison, locs, benign):
    """Loop whose only persistent effect is appending to lists."""
    L = eng.L
    lists = [l for l in locs.values() if l.kind == 'list']
    if len(lists) != len(locs):
        raise NeedInvariant('list and other state changed')

    def prep(cs):
        for (m, k) in poison.values():
            m.vars[k] = POISON
        for l in lists:
            l.obj.items = []
            l.obj.hidden = True
        if benign:
            eng.havoc_links()
    for l in lists:
        if getattr(l.obj, 'tail', None) is not None:
            raise NeedInvariant('list with symbolic tail extended')
    try:
        rs = run_body(eng, dom, bind, body, prep)
    finally:
        for l in lists:
            l.obj.hidden = False
    if any(r['out'][0] != 'ok' for r in rs):
        raise NeedInvariant('exit from a list building loop')
    vs = dom.vs
    tails = {l.key: [] for l in lists}
    facts = []
    for r in rs:
        if r['emits']:
            raise NeedInvariant('yield in a list building loop')
        P = L.And(*conds_of(r))
        lf = Lifter(eng, r['consts'], r['fresh'], vs)
        terms = [P]
        for l in lists:
            for v in r['state'][1][id(l.obj)][1][0]:
                terms.extend(value_terms(eng, v))
        for en in relevant_entries(eng, r, terms):
            facts.append(lift_entry(eng, en, lf, vs, dom, conds_before(r, en)))
        for l in lists:
            for v in r['state'][1][id(l.obj)][1][0]:
                nv = [z3.Const(eng.fresh_name('v'), x.sort()) for x in vs]
                sub = list(zip(vs, nv))
                tails[l.key].append((tuple(nv), z3.substitute(L.And(dom.guard, lf.term(P)), *sub),
                                     subst_value(lf.value(v), sub, eng)))
    for f in facts:
        eng.assume_entry(f)
    for l in lists:
        cv = CompV(tails[l.key])
        if dom.ordered is not None and len(cv.branches) == 1 and len(rs) == 1:
            cv.ordered = dom.ordered
        l.obj.tail = cv
    if benign:
        eng.havoc_links()
    for (m, k) in poison.values():
        m.vars[k] = POISON
    return False


def while_loop(eng, s, env):
    """While loops: unrolled when the test is decided concretely; otherwise they
    need an invariant from the contract (see invariants.py)."""
    from .invariants import invariant_loop
    n = 0
    while True:
        t = eng.truth(eng.eval(s.test, env))
        if z3.is_expr(t):
            if z3.is_true(t):
                t = True
            elif z3.is_false(t):
                t = False
        if t is False:
            return False
        if t is True and not isinstance(s.test, ast.Constant):
            n += 1
            if n > UNROLL:
                raise NeedInvariant('while loop')
            try:
                eng.exec_block(s.body, env)
            except ContinueEx:
                continue
            except BreakEx:
                return True
            continue
        return invariant_loop(eng, s, env)
