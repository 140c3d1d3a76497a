"""Loops with explicit invariants (while loops, and for loops whose effect is not
a union of independent steps).

The modified state is replaced by arbitrary values subject to candidate
invariants: the templates of the contract, instantiated over *all* modified
variables of the right type (so they do not name variables), and a few generic
ones.  Candidates that are not true on entry or not preserved by an arbitrary
iteration are dropped until the rest is inductive; every retained one has been
proved by the solver.  The loop ends by a false test, an exhausted domain, or
break / return / raise in an arbitrary iteration.
"""
import itertools
import math
import time
import z3
from .engine import (NeedInvariant, Unsupported, Ev, SetBox, ListV, SymList, SymMat, ObjV, Env, POISON,
                     BreakEx, ContinueEx, REL, LINKF, Val, HeapView, wf, linkok, is_num, is_bool, is_ev, ListBase)
from .logic import SetC
from .values import ExtV, ext_of

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


HEAP_RANGE = {'clen': I, 'plen': I, 'label': Val}


def infinite(v):
    return isinstance(v, ExtV) or isinstance(v, float) and math.isinf(v)


class H:
    """One modified variable: its value now and before the loop."""

    def __init__(self, cur, entry, key):
        self.cur, self.entry, self.key = cur, entry, key


class ListH:
    """A list of sets (or of terms) built by the loop."""

    def __init__(self, eng, v, elem):
        self.eng, self.L, self.elem = eng, eng.L, elem
        self.len, self._at = list_fun(eng, v, elem)

    def has(self, i, x):
        return self._at(i, x)

    def at(self, i):
        if isinstance(self.elem, str):
            return SetC(self.L, lambda x: self._at(i, x))
        return self._at(i)


def list_fun(eng, v, elem):
    """(length term, element function) of a list value."""
    L = eng.L
    if isinstance(v, SymList):
        if isinstance(elem, str):
            return v.length, lambda i, x: v.get(i).mem(x)
        return v.length, v.get
    n0, F0 = (z3.IntVal(0), None) if v.base is None else (v.base.n, v.base.F)
    items = v._items
    n = n0 + len(items)
    if isinstance(elem, str):
        mems = [mem_of(it) for it in items]

        def at(i, x):
            t = L.B(F0(i, x)) if F0 is not None else L.false
            for k, m in enumerate(mems):
                t = L.If(i == n0 + k, L.B(m(x)), t)
            return t
        return z3.simplify(n), at
    terms = [eng.as_term(it) for it in items]

    def at1(i):
        t = F0(i) if F0 is not None else None if terms or elem is None else \
            z3.Const('no_item', elem)
        for k, m in enumerate(terms):
            t = m if t is None else L.If(i == n0 + k, m, t)
        return t
    return z3.simplify(n), at1


def mem_of(v):
    if isinstance(v, frozenset) and not v:
        return lambda x: z3.BoolVal(False)
    if isinstance(v, SetBox):
        return v.cur()
    raise NeedInvariant('list element')


class State:
    """What invariant templates see."""

    def __init__(self):
        self.scope = []        # all sets held by local variables
        self.sets, self.ints, self.lists, self.bools, self.evs = [], [], [], [], []
        self.arrays = []
        self.nums, self.numlists = [], []
        self.exts = []         # numbers that are infinite on entry
        self.k = None          # iteration counter (for loops over sequences)
        self.lo = self.hi = None
        self.done = None       # processed elements (for loops over sets)
        self.dom = None
        self.val = None        # loop value at an index
        self.eng = None

    def ranges_over(self, S):
        """Whether the outermost of the current loops ranges over the set S."""
        eng = self.eng
        dom = ([o['dom'] for o in self.outer if o.get('dom') is not None] + [self.dom])[0]
        x = z3.Const('dom_x', Ev)
        goal = z3.ForAll([x], eng.L.B(dom.has(x)) == eng.L.B(S.has(x)))
        key = goal.sexpr()
        if key not in eng.domcache:
            eng.domcache[key] = eng.prove(goal, ms=1000)
        return eng.domcache[key]


def setval(eng, v):
    if isinstance(v, SetBox):
        return SetC(eng.L, v.cur())
    if isinstance(v, frozenset) and not v:
        return eng.L.emptyset()
    return None


def elem_kind(eng, v, old):
    """Kind of list elements: 'set' or a sort."""
    for src in (v, old):
        for it in src._items:
            if isinstance(it, (SetBox, frozenset)):
                return 'set'
            if is_bool(it):
                return B
            if is_num(it):
                t = eng.as_term(it)
                return t.sort()
            if is_ev(it):
                return Ev
        if src.base is not None:
            return src.base.elem
    raise NeedInvariant('list of unknown elements')


class Looper:
    def __init__(self, eng, env):
        self.eng, self.env = eng, env
        self.locs = {}
        self.snap = eng.snapshot()
        self.poison = {}
        self.benign = self.direct = False
        self.heap0 = dict(eng.heap)
        self.entry = {}
        self.elems = {}
        self.aliased = set()

    # -------------------------------------------------- modified locations
    def discover(self, iteration):
        """Find the modified locations by exploring one iteration from a state
        in which the locations found so far are arbitrary."""
        from .loops import find_mods
        eng = self.eng
        for _ in range(6):
            def thunk():
                self.havoc()
                self.base = eng.snapshot()
                return iteration(False)
            rec, eng.recording = eng.recording, False
            eng.discovering += 1
            try:
                rs = eng.explore(thunk)
            finally:
                eng.recording = rec
                eng.discovering -= 1
            ok = [r for r in rs if r['out'] == ('ok', 'body')]
            new = find_mods(eng, self.snap, ok, self.poison)
            self.note_aliases(ok)
            fresh = {k: l for k, l in new.items() if k not in self.locs}
            links = [k for k, l in fresh.items() if l.kind == 'heap' and l.name in LINKF]
            if links:
                if any(r.get('direct_link') for r in rs):
                    self.direct = True
                else:
                    self.benign = True
                    for k in links:
                        del fresh[k]
            # symbolic list/array contents
            for k, l in fresh.items():
                if l.kind == 'list':
                    done = None
                    for r in ok:
                        if id(l.obj) in r['state'][1]:
                            d = r['state'][1][id(l.obj)][1]
                            tmp = ListV.__new__(ListV)
                            tmp._items, tmp.base = list(d[0]), d[3]
                            try:
                                done = elem_kind(eng, tmp, l.obj)
                                break
                            except NeedInvariant:
                                continue
                    if done is None:
                        raise NeedInvariant('list of unknown elements')
                    self.elems[k] = done
            if not fresh:
                return
            self.locs.update(fresh)
        raise NeedInvariant('loop state does not settle')

    def note_aliases(self, rs):
        """Sets that were put into a list and are still held by a variable must
        not be changed in place by a later iteration."""
        for r in rs:
            inlist = set()
            for m, d in r['state'][1].values():
                if isinstance(m, ListV):
                    inlist |= {id(x) for x in d[0] if isinstance(x, SetBox)}
            for m, d in r['state'][1].values():
                if isinstance(m, (Env, ObjV)):
                    for k, v in d.items():
                        if isinstance(v, SetBox) and id(v) in inlist:
                            self.aliased.add((id(m), k))

    def names(self):
        return sorted(self.locs, key=str)

    def havoc(self):
        eng, L = self.eng, self.eng.L
        for (m, k) in self.poison.values():
            m.vars[k] = POISON
        for key, l in self.locs.items():
            if l.kind in ('box', 'envset', 'attrset'):
                F = eng.fresh_fun('inv', l.sorts[0], B)
                l.write(eng, (lambda F: lambda x: F(x))(F))
                if l.kind != 'box' and (id(l.obj), l.name) in self.aliased:
                    (l.obj.vars if l.kind == 'envset' else l.obj.attrs)[l.name].frozen_alias = True
            elif l.kind == 'envnum':
                v0 = self.read_entry(key, l)
                if infinite(v0):
                    l.obj.vars[l.name] = ExtV(eng.fresh('isinf', B), eng.fresh('inv', R))
                    continue
                real = isinstance(v0, float) or (z3.is_expr(v0) and z3.is_real(v0)) or \
                    self.elems.get(key) == 'real'
                l.obj.vars[l.name] = eng.fresh('inv', R if real else I)
            elif l.kind == 'envbool':
                l.obj.vars[l.name] = eng.fresh('inv', B)
            elif l.kind == 'list':
                self.havoc_list(key, l)
            elif l.kind == 'envlist':
                n, F = eng.fresh('len', I), eng.fresh_fun('elems', I, Ev)
                eng.assume(n >= 0)
                l.obj.vars[l.name] = SymList(
                    eng, n, (lambda F: lambda i: F(eng.as_term(i)))(F), esort=Ev)
            elif l.kind == 'arr':
                f0 = l.obj.get
                a = [z3.Const(eng.fresh_name('a'), s) for s in l.sorts]
                t0 = eng.as_term(f0(*a))
                F = eng.fresh_fun('inv', *(list(l.sorts) + [t0.sort()]))
                l.obj.get = (lambda F: lambda *x: F(*[eng.as_term(y) for y in x]))(F)
                if isinstance(l.obj, SymList):
                    l.obj.bag = None
                    l.obj.info = {}
            elif l.kind == 'heap':
                rng = HEAP_RANGE.get(l.name, R if l.name in ('cget', 'pget') else B)
                F = eng.fresh_fun('inv_' + l.name, *(list(l.sorts) + [rng]))
                eng.heap[l.name] = (lambda F: lambda *x: F(*[eng.as_term(y) for y in x]))(F)
                if l.name in REL:
                    for m in eng.mut:
                        if isinstance(m, SetBox) and m.loc is not None and m.loc[0] == l.name:
                            m.frozen_alias = True
                if l.name in LINKF:
                    eng.link_direct = True
            else:
                raise NeedInvariant('loop state %r' % (l,))
        if self.benign and not self.direct:
            eng.havoc_links()

    def havoc_list(self, key, l):
        eng = self.eng
        n = eng.fresh('len', I)
        eng.assume(n >= 0)
        el = self.elems[key]
        if isinstance(el, str):
            F = eng.fresh_fun('elems', I, Ev, B)
            f = lambda i, x: F(eng.as_term(i), x)
        else:
            G = eng.fresh_fun('elems', I, el)
            f = lambda i: G(eng.as_term(i))
        l.obj.base = ListBase(n, f, el)
        l.obj._items = []

    def read_entry(self, key, l):
        if key not in self.entry:
            if l.kind in ('box', 'envset', 'attrset'):
                if l.kind == 'box':
                    v = l.obj
                elif l.kind == 'envset':
                    v = l.obj.vars[l.name]
                else:
                    v = l.obj.attrs[l.name]
                self.entry[key] = setval(self.eng, v)
            elif l.kind in ('envnum', 'envbool'):
                self.entry[key] = l.obj.vars[l.name]
            elif l.kind == 'list':
                self.entry[key] = (list(l.obj._items), l.obj.base)
            elif l.kind == 'arr':
                self.entry[key] = l.obj.get
            else:
                self.entry[key] = None
        return self.entry[key]

    # ------------------------------------------------------------ templates
    def view(self):
        st = State()
        st.env = self.env
        st.eng = self.eng
        eng, L = self.eng, self.eng.L
        st.heap, st.heap0 = HeapView(eng, dict(eng.heap)), HeapView(eng, self.heap0)
        st.fields = {l.name for l in self.locs.values() if l.kind == 'heap'}
        st.outer = list(eng.loopstack)
        for key in self.names():
            l = self.locs[key]
            e0 = self.entry.get(key)
            if l.kind == 'box':
                if l.sorts[0] == Ev:
                    st.sets.append(H(SetC(L, l.obj.cur()), e0, key))
            elif l.kind == 'envset':
                if l.sorts[0] == Ev:
                    v = setval(eng, l.obj.vars.get(l.name))
                    if v is None:
                        raise NeedInvariant('set variable changes type')
                    st.sets.append(H(v, e0, key))
            elif l.kind == 'attrset':
                st.sets.append(H(setval(eng, l.obj.attrs[l.name]), e0, key))
            elif l.kind == 'envnum':
                v = l.obj.vars.get(l.name)
                if v is POISON or v is None:
                    raise NeedInvariant('number becomes undefined')
                if infinite(e0):
                    v = ext_of(eng, v)
                    st.exts.append((v.inf, v.val))
                    continue
                if isinstance(v, ExtV):
                    raise NeedInvariant('number becomes infinite')
                st.ints.append(H(eng.as_term(v), eng.as_term(e0), key))
                st.nums.append(H(eng.to_z3num(v, True), eng.to_z3num(e0, True), key))
            elif l.kind == 'envbool':
                st.bools.append(H(L.B(l.obj.vars[l.name]), L.B(e0), key))
            elif l.kind == 'list':
                st.lists.append(ListH(eng, l.obj, self.elems[key]))
            elif l.kind == 'envlist':
                v = l.obj.vars[l.name]
                if not isinstance(v, SymList) or v.get is None or \
                        eng.as_term(v.get(z3.IntVal(0))).sort() != Ev:
                    raise NeedInvariant('list variable changes type')
                st.lists.append(ListH(eng, v, Ev))
            elif l.kind == 'arr':
                h = H(l.obj.get, e0, key)
                h.get, h.obj = l.obj.get, l.obj
                h.mat = isinstance(l.obj, SymMat)
                st.arrays.append(h)
        env = self.env
        seen = set()
        while env is not None:
            for k in sorted(env.vars):
                v = env.vars[k]
                if k in seen or not isinstance(v, SetBox) or v.sort != Ev:
                    continue
                seen.add(k)
                st.scope.append(H(SetC(L, v.cur()), None, k))
            env = env.parent
        return st


def generic(c, st):
    """Candidates that need no contract."""
    L = c.L
    out = []
    if st.fields and c.ct.opts.get('loop_frame', True):
        h, h0 = st.heap, st.heap0
        for n, f in wf(h) + linkok(h):
            out.append(('order:' + n, f))
        al = L.forall(lambda e: L.Implies(h0.alloc(e), h.alloc(e)))
        out.append(('events stay', al))
        if not c.ct.opts.get('relations_change'):
            out.append(('relations stay', L.forall2(lambda e, x: L.Implies(h0.alloc(e), L.And(
                L.Iff(h.prec(e).has(x), h0.prec(e).has(x)),
                L.Iff(h.succ(e).has(x), h0.succ(e).has(x)))))))
        i = z3.Const('ci', I)
        out.append(('labels stay', L.forall(lambda e: L.Implies(
            h0.alloc(e), L.Eq(h.label(e), h0.label(e))))))
        out.append(('embedding stays', L.forall(lambda e: L.Implies(h0.alloc(e), L.And(
            L.Iff(h.has_coords(e), h0.has_coords(e)), L.Iff(h.has_pos(e), h0.has_pos(e)),
            L.Eq(h.clen(e), h0.clen(e)), L.Eq(h.plen(e), h0.plen(e)),
            z3.ForAll([i], L.And(L.Eq(h.cget(e, i), h0.cget(e, i)),
                                 L.Eq(h.pget(e, i), h0.pget(e, i)))))))))
    for a in st.sets:
        out.append(('set of existing events', a.cur.all(lambda x: c.eng.heap['alloc'](x))))
    for l in st.lists:
        if isinstance(l.elem, str):
            i = z3.Const('gi', I)
            x = z3.Const('gx', Ev)
            out.append(('sets of existing events', z3.ForAll([i, x], L.Implies(
                z3.And(0 <= i, i < l.len, l.has(i, x)), c.eng.heap['alloc'](x)))))
    for n in st.ints:
        if z3.is_int(n.cur):
            out.append(('nonnegative', n.cur >= 0))
            for a in st.sets:
                out.append(('card', n.cur == c.L.card(a.cur.mem)))
    if st.k is not None and not z3.is_bool(st.k):
        for n in st.ints:
            if z3.is_int(n.cur) and z3.is_int(n.entry):
                out.append(('counts', n.cur == n.entry + (c.eng.as_term(st.k) -
                                                        c.eng.as_term(st.lo))))
    for m, n in itertools.permutations(st.ints, 2):
        if m.cur.sort() == n.cur.sort():
            out.append(('le', m.cur <= n.cur))
    wrong = c.ct.opts.get('not_invariant')
    if wrong is not None:
        wrong = wrong(c, st)
        out = [(n, f) for n, f in out if n not in wrong]
    return out


def candidates(eng, lp, extra, phase):
    st = lp.view()
    st.phase = phase
    for k, v in extra.items():
        setattr(st, k, v)
    c = eng.ctx
    out = list(generic(c, st)) if c is not None else []
    ct = c.ct if c is not None else None
    if ct is not None and ct.loop_invariants is not None:
        out += list(ct.loop_invariants(c, st))
    return out


ORDER_NAMES = {'wf': ('converse', 'irreflexive', 'transitive', 'closed'),
               'linkok': ('link-flags', 'link-past', 'link-future')}


def houdini(eng, env, iteration, entry_extra, head_extra, step_extra):
    """iteration(check): runs one arbitrary iteration from the havocked state and
    returns 'body' at its end, or 'exit' when the loop is over."""
    if eng.ctx is None:
        raise NeedInvariant('no contract for the loop')
    L = eng.L
    lp = Looper(eng, env)
    lp.discover(iteration)
    for key, l in lp.locs.items():
        lp.read_entry(key, l)
    # --- entry
    mark = len(eng.trace)
    init = candidates(eng, lp, entry_extra(), 'entry')
    alive = []
    for k, (n, f) in enumerate(init):
        if eng.discovering:            # only the modified locations matter
            alive.append(False)
            continue
        alive.append(eng.prove(L.B(f), ms=eng.ctx.ct.opts.get('candidate_ms', 2000)))
        if not alive[-1] and eng.opts.get('debug'):
            print('  candidate false on entry:', len(eng.loopstack), n, '%.1f' % (time.time() - eng.t0))
    names = [n for n, f in init]
    # --- preservation
    for rnd in range(12):
        failed = set()

        def thunk():
            lp.havoc()
            cs = candidates(eng, lp, head_extra(), 'head')
            if len(cs) != len(alive):
                raise NeedInvariant('candidate count')
            for k, (n, f) in enumerate(cs):
                if alive[k]:
                    eng.assume(L.B(f))
            for hyp, key, fields in eng.ORDER:
                names_ok = {n for k, (n, f) in enumerate(cs) if alive[k]}
                if all('order:' + n in names_ok for n in ORDER_NAMES[hyp]):
                    eng.good_order(key, fields)
            try:
                how = iteration(True)
            except ContinueEx:
                how = 'body'
            if how == 'body':
                cs = candidates(eng, lp, step_extra(), 'step')
                for k, (n, f) in enumerate(cs):
                    if not alive[k] or k in failed:
                        continue
                    ok = eng.prove(L.B(f), ms=eng.ctx.ct.opts.get('candidate_ms', 3000))
                    if eng.opts.get('debug'):
                        print('  candidate', len(eng.loopstack), n, ok, rnd, '%.1f' % (time.time() - eng.t0))
                    if not ok:
                        failed.add(k)
                        if eng.opts.get('debug'):
                            print('  candidate not preserved:', n, rnd, '%.1f' % (time.time() - eng.t0))
            return how
        rec, nob = eng.recording, len(eng.obligs)
        rs = eng.explore(thunk)
        if not failed:
            break
        del eng.obligs[nob:]
        for k in failed:
            alive[k] = False
    else:
        raise NeedInvariant('no inductive invariant')
    eng.loops_auto += 1
    eng.invariants_used.extend(sorted({n for n, a in zip(names, alive) if a}))
    if any(r['emits'] for r in rs):
        raise NeedInvariant('values generated in a loop with invariants')
    exits = [r for r in rs if r['out'] != ('ok', 'body')]
    if not exits:
        raise NeedInvariant('loop without exit')
    for r in exits[:-1]:
        flag = eng.fresh('exit', B)
        if eng.choose(flag, prune=False):
            return leave(eng, r)
    return leave(eng, exits[-1])


def leave(eng, r):
    broke = eng.enter(r)
    return broke


def invariant_loop(eng, s, env):
    def iteration(check):
        t = eng.truth(eng.eval(s.test, env))
        if not eng.choose(t):
            return 'exit'
        try:
            eng.exec_block(s.body, env)
        except ContinueEx:
            pass
        return 'body'
    none = lambda: {}
    return houdini(eng, env, iteration, none, none, none)


def guarded(eng, f, *a):
    """Run f; on NeedInvariant restore the verifier's state and re-raise."""
    snap = eng.snapshot()
    saved = (eng.decisions, eng.dpos, eng.alts, list(eng.emits), eng.depth, eng.current_exc,
             eng.recording, eng.loopdepth, eng.link_direct, eng.link_lazy, len(eng.trace),
             len(eng.obligs), eng.loops_auto)
    try:
        return f(*a)
    except NeedInvariant:
        if eng.decisions is not saved[0]:
            pass
        (eng.decisions, eng.dpos, eng.alts, eng.emits, eng.depth, eng.current_exc,
         eng.recording, eng.loopdepth, eng.link_direct, eng.link_lazy, n, no, eng.loops_auto) = saved
        del eng.trace[n:]
        del eng.obligs[no:]
        eng.restore(snap)
        raise


def invariant_for(eng, dom, bind, body, env):
    """A for loop over an indexed sequence (dom.ordered) or over a finite set."""
    from .loops import subst_value
    L = eng.L
    if len(dom.vs) != 1:
        raise NeedInvariant('loop over several variables')
    v = dom.vs[0]
    base = eng.loopdepth

    def value(c):
        if callable(dom.value):
            return dom.value(eng, [c])
        return subst_value(dom.value, [(v, c)], eng)

    def run(c):
        eng.loopdepth += 1
        try:
            bind(value(c))
            try:
                body()
            except ContinueEx:
                pass
            if dom.stable is not None and eng.recording:
                eng.oblige('%s/loop-domain-unchanged' % eng.verifying, dom.stable())
        finally:
            eng.loopdepth = base
        return 'body'
    cur = {}
    if dom.ordered is not None:
        lo, hi = dom.ordered

        def iteration(check):
            k = cur['k']
            if not eng.choose(k < hi):
                eng.assume(L.Or(k == hi, hi < lo))
                return 'exit'
            eng.loopstack.append(dict(k=k, lo=lo, hi=hi, val=value,
                                      heap=HeapView(eng, dict(eng.heap))))
            try:
                return run(k)
            finally:
                eng.loopstack.pop()

        def head():
            k = eng.fresh('k', I)
            eng.assume(k >= lo)
            eng.assume(L.Or(k <= hi, k == lo))
            cur['k'] = k
            return dict(k=k, lo=lo, hi=hi, val=value)
        # discovery explores an iteration before any head: give it an index too
        k0 = eng.fresh('k', I)
        eng.assume(k0 >= lo)
        cur['k'] = k0
        return houdini(eng, env, iteration, lambda: dict(k=lo, lo=lo, hi=hi, val=value), head,
                       lambda: dict(k=cur['k'] + 1, lo=lo, hi=hi, val=value))
    guard = lambda x: z3.substitute(dom.guard, (v, x))
    sort = v.sort()

    def newdone():
        D = eng.fresh_fun('done', sort, B)
        x = z3.Const(eng.fresh_name('dx'), sort)
        eng.assume(z3.ForAll([x], L.Implies(D(x), guard(x))))
        cur['D'] = D
        return D

    def iteration(check):
        D = cur['D']
        x = z3.Const(eng.fresh_name('dx'), sort)
        more = z3.Exists([x], z3.And(guard(x), z3.Not(D(x))))
        if not eng.choose(more, prune=False):
            y = z3.Const(eng.fresh_name('dx'), sort)
            eng.assume(z3.ForAll([y], D(y) == guard(y)))
            return 'exit'
        e = eng.fresh('it', sort)
        eng.assume(guard(e))
        eng.assume(z3.Not(D(e)))
        cur['e'] = e
        D = cur['D']
        eng.loopstack.append(dict(elem=e, done=SetC(L, lambda x: D(x)), dom=fin, k=None,
                                  heap=HeapView(eng, dict(eng.heap))))
        try:
            return run(e)
        finally:
            eng.loopstack.pop()
    newdone()
    fin = SetC(L, lambda x: guard(x))

    def head():
        D = newdone()
        return dict(done=SetC(L, lambda x: D(x)), dom=fin)

    def step():
        D, e = cur['D'], cur['e']
        return dict(done=SetC(L, lambda x: z3.Or(D(x), x == e)), dom=fin)
    return houdini(eng, env, iteration, lambda: dict(done=L.emptyset(), dom=fin), head, step)
