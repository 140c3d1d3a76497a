"""Models of the Python builtins and of the numpy subset that the package uses.
These are trusted (listed in the evidence)."""
import ast
import math
import z3
from .values import ExtV, ext_less, ext_if
from .engine import (Ev, Val, LabStr, Unsupported, NeedInvariant, RaiseEx, ReturnEx, SetBox, ObjV,
                     ListV, SymList, SymMat, CompV, RangeV, EnumV, Emit, Builtin, ClassV, ModV,
                     FuncV, StrV, LabFmt, DictV, StarV, is_num, is_bool, is_ev)

I = z3.IntSort()
R = z3.RealSort()


# ------------------------------------------------------------- conversions
def as_symlist(eng, v):
    """A list with a symbolic prefix as a SymList."""
    from .invariants import list_fun
    n, f = list_fun(eng, v, v.base.elem)
    if isinstance(v.base.elem, str):
        return SymList(eng, n, lambda i: SetBox(eng, lambda x: f(i, x), owner='stale'))
    return SymList(eng, n, f, esort=v.base.elem)


def comp_of(eng, v):
    """View of an iterable value as a family CompV."""
    if isinstance(v, CompV):
        return v
    if isinstance(v, SetBox):
        x = z3.Const(eng.fresh_name('x'), v.sort)
        return CompV([((x,), eng.L.B(v.mem(x)), x)])
    if isinstance(v, (tuple, list)):
        return CompV([((), eng.L.true, x) for x in v])
    if isinstance(v, frozenset):
        return CompV([((), eng.L.true, x) for x in sorted(v)])
    if isinstance(v, ListV):
        if v.hidden:
            raise NeedInvariant('list read while it is built')
        if v.base is not None:
            return comp_of(eng, as_symlist(eng, v))
        br = [((), eng.L.true, x) for x in v._items]
        if v.tail is not None:
            br = br + list(v.tail.branches)
        return CompV(br)
    if isinstance(v, SymList):
        if v.info.get('comp') is not None:
            return v.info['comp']
        if v.bag is not None and v.info.get('distinct'):
            x = z3.Const(eng.fresh_name('x'), Ev)
            return CompV([((x,), v.bag(x), x)])
        if v.get is None:
            raise Unsupported('family of a list of unknown order')
        i = z3.Const(eng.fresh_name('i'), I)
        n = eng.as_term(v.length)
        e = Emit(((i,), z3.And(0 <= i, i < n), eng.as_term(v.get(i))))
        e.ordered = (z3.IntVal(0), n)
        return CompV([e])
    if isinstance(v, RangeV):
        if v.concrete():
            return CompV([((), eng.L.true, x) for x in v.pyrange()])
        if v.step != 1:
            raise Unsupported('range step')
        i = z3.Const(eng.fresh_name('i'), I)
        e = Emit(((i,), z3.And(eng.as_term(v.lo) <= i, i < eng.as_term(v.hi)), i))
        e.ordered = (eng.as_term(v.lo), eng.as_term(v.hi))
        return CompV([e])
    if isinstance(v, ObjV) and eng.prog.lookup(v.cls, '__iter__'):
        return comp_of(eng, eng.call_method(v, v.cls, '__iter__', [], {}))
    raise Unsupported('iteration over %s' % type(v).__name__)


def freshen(eng, vs, g, val):
    from .loops import subst_value
    nv = [z3.Const(eng.fresh_name('v'), v.sort()) for v in vs]
    sub = list(zip(vs, nv))
    return nv, z3.substitute(g, *sub) if sub else g, (subst_value(val, sub, eng) if sub else val)


def to_set(eng, v):
    """set(v)"""
    L = eng.L
    if isinstance(v, SetBox):
        return SetBox(eng, v.cur(), sort=v.sort)
    if isinstance(v, ObjV) and '_events' in v.attrs and not eng.prog.lookup(v.cls, '__iter__'):
        raise RaiseEx('TypeError')
    if isinstance(v, frozenset):
        return v if v else SetBox(eng, lambda x: L.false)
    if isinstance(v, SymList) and v.bag is not None:
        return SetBox(eng, v.bag)
    if isinstance(v, SymList) and v.get is not None:
        eng.setseqs.append((v.length, v.get))
    if isinstance(v, SymList) and 'parts' in v.info:
        parts = []
        for f, n in v.info['parts']:
            n = z3.simplify(eng.as_term(n))
            parts += comp_of(eng, ListV(eng, [f(i) for i in range(n.as_long())])
                             if z3.is_int_value(n) and n.as_long() < 5 else
                             SymList(eng, n, f)).branches
        cv = CompV(parts)
    else:
        cv = comp_of(eng, v)
    if not cv.branches:
        return SetBox(eng, lambda x: L.false)
    sort = None
    for vs, g, val in cv.branches:
        if not z3.is_expr(val):
            if all(isinstance(b[2], (str, int)) and not b[0] and z3.is_true(L.B(b[1]))
                   for b in cv.branches):
                return frozenset(b[2] for b in cv.branches)
            if isinstance(val, (int,)):
                val = z3.IntVal(val)
            else:
                raise Unsupported('set of %s' % type(val).__name__)
        if sort is not None and val.sort() != sort:
            raise Unsupported('mixed set')
        sort = val.sort()
    brs = [(tuple(b[0]), L.B(b[1]), eng.as_term(b[2])) for b in cv.branches]

    def mem(x):
        from .loops import one_point
        return L.Or(*[one_point(vs, L.And(g, L.Eq(val, x))) if vs else L.And(g, L.Eq(val, x))
                      for vs, g, val in brs])
    return SetBox(eng, mem, sort=sort)


def family_card(eng, cv):
    """Number of items of a family (with multiplicity)."""
    L = eng.L
    tot = 0
    for vs, g, val in cv.branches:
        g = L.B(g)
        if not vs:
            if z3.is_true(g):
                tot = tot + 1
            else:
                tot = tot + z3.If(g, z3.IntVal(1), z3.IntVal(0))
        elif len(vs) == 1:
            od = ordered_of((vs, g, val), cv)
            if od is not None:
                lo, hi = od
                tot = tot + z3.If(hi > lo, hi - lo, z3.IntVal(0))
            else:
                v = vs[0]
                tot = tot + eng.card_term(lambda x, g=g, v=v: z3.substitute(g, (v, x)), v.sort())
        else:
            raise Unsupported('number of items of a nested family')
    return tot


def ordered_of(em, cv):
    for b in cv.branches:
        if isinstance(b, Emit) and b.ordered is not None and len(cv.branches) == 1:
            return b.ordered
    return getattr(cv, 'ordered', None) if len(cv.branches) == 1 else None


def to_list(eng, v, kind='list'):
    """list(v)"""
    L = eng.L
    if isinstance(v, ListV):
        if v.base is not None:
            r = ListV(eng, v._items)
            r.base = v.base
            return r
        if v.tail is None:
            return ListV(eng, v.items)
        r = ListV(eng, v._items)
        r.tail = v.tail
        return r
    if isinstance(v, (tuple, list)):
        return ListV(eng, v)
    if isinstance(v, str):
        return ListV(eng, list(v))
    if isinstance(v, SymList):
        r = SymList(eng, v.length, v.get, kind=kind, esort=v.esort, bag=v.bag)
        r.info = dict(v.info)
        r.info.pop('live', None)
        return r
    if isinstance(v, RangeV) and not v.concrete():
        if v.step == 1:
            lo, hi = eng.as_term(v.lo), eng.as_term(v.hi)
            r = SymList(eng, z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda i: lo + i, kind=kind)
            r.info['inv'] = lambda v: eng.as_term(v) - lo
            return r
        if v.step == -1:
            lo, hi = eng.as_term(v.lo), eng.as_term(v.hi)
            r = SymList(eng, z3.If(lo > hi, lo - hi, z3.IntVal(0)), lambda i: lo - i, kind=kind)
            r.info['inv'] = lambda v: lo - eng.as_term(v)
            return r
        raise Unsupported('range step')
    if isinstance(v, SetBox):
        return list_of_set(eng, v)
    cv = comp_of(eng, v)
    if all(not b[0] and z3.is_true(L.B(b[1])) for b in cv.branches):
        return ListV(eng, [b[2] for b in cv.branches])
    od = ordered_of(None, cv)
    if od is not None:
        vs, g, val = cv.branches[0]
        lo, hi = od
        from .loops import subst_value
        n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        n = z3.simplify(n)
        r = SymList(eng, n, lambda i: subst_value(val, [(vs[0], lo + eng.as_term(i))], eng), kind=kind)
        r.info['comp'] = cv
        back = inverse_term(eng, val, vs[0])
        if back is not None:
            r.info['inv'] = lambda x: back(eng.as_term(x)) - lo
        return r
    # unordered or filtered family
    n = None
    try:
        n = family_card(eng, cv)
    except Unsupported:
        pass
    r = SymList(eng, n, None, kind=kind)
    r.info['comp'] = cv
    if all(is_ev(b[2]) for b in cv.branches):
        r.bag = to_set(eng, cv).cur()
        if len(cv.branches) == 1 and len(cv.branches[0][0]) == 1 and \
                cv.branches[0][2].eq(cv.branches[0][0][0]):
            r.info['distinct'] = True
            if eng.ctx is not None and eng.ctx.ct.opts.get('ordered_lists'):
                return list_of_set(eng, SetBox(eng, r.bag, sort=Ev))
    return r


def inverse_term(eng, t, v):
    """x -> the value of v with t = x, for a composition of functions with known inverses"""
    fs = []
    while z3.is_expr(t) and not t.eq(v):
        while z3.is_add(t) and t.num_args() == 2 and any(
                z3.is_int_value(a) and a.as_long() == 0 for a in t.children()):
            t = [a for a in t.children() if not (z3.is_int_value(a) and a.as_long() == 0)][0]
        if t.eq(v):
            break
        if not z3.is_app(t) or t.num_args() != 1 or t.decl().name() not in eng.inverses:
            return None
        fs.append(eng.inverses[t.decl().name()])
        t = t.arg(0)
    if not fs:
        return None

    def back(x):
        for f in fs:
            x = f(x)
        return x
    return back


def list_of_set(eng, box):
    """list(set): some enumeration without repetition; the same one as long as the set is not
    changed."""
    L = eng.L
    m = box.cur()
    key = (id(box), id(m))
    if box.loc is None and key in eng.enumcache:
        fact, r0 = eng.enumcache[key][1:]
        if any(e is fact for e in eng.trace):
            r = SymList(eng, r0.length, r0.get, kind='list', esort=r0.esort, bag=r0.bag)
            r.info = dict(r0.info)
            return r
    n = eng.card_term(m, box.sort)
    g = eng.fresh_fun('enum', I, box.sort)
    i, j = z3.Const(eng.fresh_name('i'), I), z3.Const(eng.fresh_name('j'), I)
    x = z3.Const(eng.fresh_name('x'), box.sort)
    eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), L.B(m(g(i))))))
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, g(i) == g(j)), i == j)))
    inv = eng.fresh_fun('enuminv', box.sort, I)
    eng.assume(z3.ForAll([x], z3.Implies(L.B(m(x)), z3.And(0 <= inv(x), inv(x) < n, g(inv(x)) == x))))
    r = SymList(eng, n, lambda k: g(eng.as_term(k)), kind='list', esort=box.sort)
    eng.enums.append((g, inv, n, m))
    eng.inverses[g.name()] = inv
    r.info['inv'] = inv
    if box.sort == Ev:
        r.bag = m
        r.info['distinct'] = True
    if box.loc is None:
        r0 = SymList(eng, r.length, r.get, kind='list', esort=r.esort, bag=r.bag)
        r0.info = dict(r.info)
        eng.enumcache[key] = ((box, m), eng.trace[-1], r0)
    return r


def as_seq(eng, v):
    if isinstance(v, SymList):
        if v.get is None:
            raise Unsupported('sequence of unknown order')
        return v
    if isinstance(v, (ListV, tuple, list)):
        items = v.items if isinstance(v, ListV) else list(v)

        def get(i):
            if isinstance(i, int):
                return items[i]
            out = None
            for k, x in reversed(list(enumerate(items))):
                x = eng.as_term(x)
                if z3.is_expr(x) and z3.is_int(x):
                    x = z3.ToReal(x)
                out = x if out is None else z3.If(i == k, x, out)
            return out if out is not None else z3.RealVal(0)
        return SymList(eng, z3.IntVal(len(items)), get)
    raise Unsupported('sequence from %s' % type(v).__name__)


# ------------------------------------------------------------------ builtins
def b_set(eng, args, kw):
    if not args:
        return SetBox(eng, lambda x: eng.L.false)
    return to_set(eng, args[0])


def b_list(eng, args, kw):
    if not args:
        return ListV(eng, [])
    return to_list(eng, args[0])


def b_tuple(eng, args, kw):
    if not args:
        return ()
    r = to_list(eng, args[0])
    if isinstance(r, ListV) and r.tail is None:
        return tuple(r.items)
    return r


def b_len(eng, args, kw):
    v = args[0]
    if isinstance(v, SetBox):
        return eng.card_term(v.cur(), v.sort)
    if isinstance(v, (tuple, str, frozenset)):
        return len(v)
    if isinstance(v, ListV):
        if v.base is not None:
            return z3.simplify(v.base.n + len(v._items))
        if v.tail is None:
            return len(v.items)
        return len(v._items) + family_card(eng, v.tail)
    if isinstance(v, SymList):
        if v.length is None:
            raise Unsupported('length of a nested family')
        return v.length
    if isinstance(v, SymMat):
        return v.rows
    if isinstance(v, DictV):
        return len(v.d)
    if isinstance(v, ObjV):
        if eng.prog.lookup(v.cls, '__len__'):
            return eng.call_method(v, v.cls, '__len__', [], {})
    raise RaiseEx('TypeError')


def b_sum(eng, args, kw):
    from .loops import sum_over
    L = eng.L
    v = args[0]
    start = args[1] if len(args) > 1 else 0
    cv = comp_of(eng, v)
    tot = start
    for vs, g, val in cv.branches:
        g = L.B(g)
        if not (is_num(val) or is_bool(val)):
            raise Unsupported('sum of %s' % type(val).__name__)
        real = isinstance(val, float) or (z3.is_expr(val) and z3.is_real(val))
        val = eng.to_z3num(val, real)
        if not vs:
            term = val if z3.is_true(g) else z3.If(g, val, z3.RealVal(0) if real else z3.IntVal(0))
        elif len(vs) == 1:
            term = None
            if eng.ctx is not None and vs[0].sort() == I and \
                    len(cv.branches) == 1 and getattr(eng.ctx.ct, 'opts', {}).get('sum_by_loop'):
                term = ordered_sum(eng, vs[0], g, val, real)
            if term is None:
                term = sum_over(eng, list(vs), g, z3.simplify(val), real)
        else:
            raise Unsupported('nested sum')
        tot = eng.arith(ast.Add, tot, term)
    return tot


def ordered_sum(eng, v, g, val, real):
    """The sum over an index range as a loop with an accumulator."""
    from .loops import index_range
    from .engine import Env
    from .invariants import guarded, invariant_for
    from .loops import Domain
    rng = index_range(v, g)
    if rng is None:
        return None
    lo, hi = rng
    env = Env(eng, None, None)
    env.vars['$sum'] = z3.RealVal(0) if real else z3.IntVal(0)

    def bind(x):
        env.vars['$x'] = x

    def body():
        env.vars['$sum'] = env.vars['$sum'] + env.vars['$x']
    dom = Domain([v], g, val, ordered=(lo, hi))
    try:
        guarded(eng, invariant_for, eng, dom, bind, body, env)
    except NeedInvariant:
        return None
    return env.vars['$sum']


def extremum(eng, vals, ismax):
    out = vals[0]
    for v in vals[1:]:
        if isinstance(out, ExtV) or isinstance(v, ExtV):
            less = ext_less(eng, out, v, False)
            out = ext_if(eng, eng.L.Not(less) if ismax else less, out, v)
            continue
        if not z3.is_expr(out) and not z3.is_expr(v):
            out = max(out, v) if ismax else min(out, v)
            continue
        if any(isinstance(q, float) and math.isinf(q) for q in (out, v)):
            a, b = (out, v) if isinstance(out, float) else (v, out)
            out = a if (a > 0) == ismax else b
            continue
        a, b = eng.num_coerce(out, v)
        out = z3.If(a >= b, a, b) if ismax else z3.If(a <= b, a, b)
    return out


def b_minmax(ismax):
    def f(eng, args, kw):
        if len(args) > 1:
            return extremum(eng, list(args), ismax)
        L = eng.L
        v = args[0]
        if isinstance(v, ListV) and v.tail is None:
            if not v.items:
                raise RaiseEx('ValueError')
            return extremum(eng, v.items, ismax)
        if isinstance(v, tuple):
            return extremum(eng, list(v), ismax)
        cv = comp_of(eng, v)
        ne = L.Or(*[z3.Exists(list(vs), L.B(g)) if vs else L.B(g) for vs, g, _ in cv.branches])
        if 'default' in kw:
            if not eng.choose(ne):
                return kw['default']
        elif not eng.choose(ne):
            raise RaiseEx('ValueError')
        real = any(isinstance(b[2], float) or (z3.is_expr(b[2]) and z3.is_real(b[2]))
                   for b in cv.branches)
        m = eng.fresh('max' if ismax else 'min', R if real else I)
        wit = []
        for vs, g, val in cv.branches:
            val = eng.to_z3num(val, real)
            g = L.B(g)
            bound = (val <= m) if ismax else (val >= m)
            t = z3.Implies(g, bound)
            eng.assume(z3.ForAll(list(vs), t) if vs else t)
            w = z3.And(g, val == m)
            wit.append(z3.Exists(list(vs), w) if vs else w)
        eng.assume(L.Or(*wit))
        return m
    return f


def b_range(eng, args, kw):
    a = [x if not (z3.is_expr(x) and z3.is_int_value(x)) else x.as_long() for x in args]
    for x in a:
        if isinstance(x, float) or (z3.is_expr(x) and not z3.is_int(x)):
            raise RaiseEx('TypeError')
    if len(a) == 1:
        return RangeV(0, a[0])
    if len(a) == 2:
        return RangeV(a[0], a[1])
    return RangeV(a[0], a[1], a[2])


def b_enumerate(eng, args, kw):
    return EnumV(args[0], args[1] if len(args) > 1 else kw.get('start', 0))


def b_abs(eng, args, kw):
    v = args[0]
    if not z3.is_expr(v) and is_num(v):
        return abs(v)
    if is_num(v):
        return z3.If(v >= 0, v, -v)
    return ufunc(eng, lambda t: b_abs(eng, [t], {}), v)


def b_isinstance(eng, args, kw):
    v, t = args
    ts = list(t) if isinstance(t, tuple) else [t]
    out = []
    for c in ts:
        n = c.name if isinstance(c, (ClassV, Builtin)) else None
        if n is None:
            raise Unsupported('isinstance')
        out.append(isinst(eng, v, n))
    return eng.py(eng.L.Or(*[eng.L.B(o) for o in out]))


def isinst(eng, v, n):
    if n == 'int':
        if isinstance(v, (bool, int)):
            return True
        if z3.is_expr(v):
            if v.sort() == Val:
                return Val.is_vint(v)
            return z3.is_int(v) or z3.is_bool(v)
        return False
    if n == 'str':
        if z3.is_expr(v) and v.sort() == Val:
            return Val.is_vstr(v)
        return isinstance(v, (str, StrV, LabFmt))
    if n == 'bool':
        return is_bool(v)
    if n == 'float':
        return isinstance(v, float) or (z3.is_expr(v) and z3.is_real(v))
    if n == 'list':
        return (isinstance(v, ListV) and not v.tup) or (isinstance(v, SymList) and v.kind == 'list')
    if n == 'tuple':
        return isinstance(v, tuple) or (isinstance(v, ListV) and v.tup) or \
            (isinstance(v, SymList) and v.kind == 'tuple')
    if n in ('dict',):
        return isinstance(v, (DictV, dict))
    if n == 'set':
        return isinstance(v, SetBox)
    if n in ('ndarray', 'np.ndarray'):
        return isinstance(v, SymMat) or (isinstance(v, SymList) and v.kind == 'array')
    if n in eng.prog.classes:
        if is_ev(v):
            return eng.prog.isinstance('CausetEvent', n)
        if isinstance(v, ObjV):
            return eng.prog.isinstance(v.cls, n)
        return False
    raise Unsupported('isinstance ' + n)


def b_int(eng, args, kw):
    v = args[0]
    if isinstance(v, ExtV):
        if not eng.prove(eng.L.Not(v.inf), ms=1000) and eng.choose(v.inf):
            raise RaiseEx('OverflowError')
        v = v.val
    if isinstance(v, (int, float, str)) and not z3.is_expr(v):
        try:
            return int(v)
        except OverflowError:
            raise RaiseEx('OverflowError')
        except ValueError:
            raise RaiseEx('ValueError')
    if z3.is_expr(v):
        if z3.is_int(v):
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_real(v):
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.arg(0)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    raise Unsupported('int()')


def b_float(eng, args, kw):
    v = args[0]
    if z3.is_expr(v):
        if z3.is_int(v):
            return z3.ToReal(v)
        if z3.is_real(v):
            return v
    if isinstance(v, (int, float)):
        return float(v)
    raise Unsupported('float()')


def b_bool(eng, args, kw):
    return eng.py(eng.truth(args[0])) if z3.is_expr(eng.truth(args[0])) else eng.truth(args[0])


def b_iter(eng, args, kw):
    v = args[0]
    if isinstance(v, SetBox):
        r = SetBox(eng, v.cur(), sort=v.sort)
        r.owner = 'iter'
        return r
    return v


def b_next(eng, args, kw):
    v = args[0]
    if isinstance(v, SetBox) and v.owner == 'iter':
        x = z3.Const(eng.fresh_name('x'), v.sort)
        ne = z3.Exists([x], eng.L.B(v.mem(x)))
        if not eng.choose(ne):
            if len(args) > 1:
                return args[1]
            raise RaiseEx('StopIteration')
        e = eng.fresh('nxt', v.sort)
        eng.assume(eng.L.B(v.mem(e)))
        m = v.cur()
        v.set(lambda y: eng.L.And(m(y), eng.L.Not(eng.L.Eq(y, e))))
        return e
    raise Unsupported('next()')


def b_str(eng, args, kw):
    v = args[0]
    if isinstance(v, (str, int)) and not isinstance(v, bool):
        return str(v)
    if z3.is_expr(v) and v.sort() == Val:
        return LabFmt(eng.str_of_val(v))
    if z3.is_expr(v) and z3.is_int(v):
        return LabFmt(eng.str_of_val(Val.vint(v)))
    return StrV()


def b_delattr(eng, args, kw):
    eng.del_attr(args[0], args[1])
    return None


def b_getattr(eng, args, kw):
    try:
        return eng.get_attr(args[0], args[1])
    except RaiseEx as r:
        if r.etype == 'AttributeError' and len(args) > 2:
            return args[2]
        raise


def b_setattr(eng, args, kw):
    eng.set_attr(args[0], args[1], args[2])


def quant(isall):
    def f(eng, args, kw):
        L = eng.L
        cv = comp_of(eng, args[0])
        out = []
        for vs, g, val in cv.branches:
            t = L.B(eng.truth(val))
            g = L.B(g)
            b = L.Implies(g, t) if isall else L.And(g, t)
            if vs:
                b = (z3.ForAll if isall else z3.Exists)(list(vs), b) if not (
                    z3.is_true(b) or z3.is_false(b)) else b
            out.append(b)
        return eng.py(L.And(*out) if isall else L.Or(*out))
    return f


def b_zip(eng, args, kw):
    items = []
    for a in args:
        if isinstance(a, ListV):
            items.append(a.items)
        elif isinstance(a, (tuple, list)):
            items.append(list(a))
        else:
            raise Unsupported('zip of %s' % type(a).__name__)
    return ListV(eng, list(zip(*items)))


def b_reversed(eng, args, kw):
    v = args[0]
    if isinstance(v, ListV):
        return ListV(eng, list(reversed(v.items)))
    if isinstance(v, RangeV) and v.concrete():
        return list(reversed(v.pyrange()))
    raise Unsupported('reversed')


def b_round(eng, args, kw):
    if not z3.is_expr(args[0]):
        return round(*args)
    raise Unsupported('round')


def b_id(eng, args, kw):
    return args[0]


def b_print(eng, args, kw):
    return None


def b_pow(eng, args, kw):
    return eng.arith(ast.Pow, args[0], args[1])


def b_map(eng, args, kw):
    f, v = args
    if isinstance(v, ListV):
        return ListV(eng, [eng.call(f, [x], {}) for x in v.items])
    raise Unsupported('map')


def b_frozenset(eng, args, kw):
    return b_set(eng, args, kw)


def b_type(eng, args, kw):
    v = args[0]
    if isinstance(v, ObjV):
        return ClassV(v.cls)
    if is_ev(v):
        return ClassV('CausetEvent')
    raise Unsupported('type()')


BUILTINS = {
    'set': b_set, 'frozenset': b_frozenset, 'list': b_list, 'tuple': b_tuple, 'len': b_len,
    'sum': b_sum, 'max': b_minmax(True), 'min': b_minmax(False), 'range': b_range,
    'enumerate': b_enumerate, 'abs': b_abs, 'isinstance': b_isinstance, 'int': b_int,
    'float': b_float, 'bool': b_bool, 'iter': b_iter, 'next': b_next, 'str': b_str,
    'repr': b_str, 'delattr': b_delattr, 'getattr': b_getattr, 'setattr': b_setattr,
    'all': quant(True), 'any': quant(False), 'zip': b_zip, 'reversed': b_reversed,
    'round': b_round, 'print': b_print, 'pow': b_pow, 'map': b_map, 'type': b_type,
}
for _t in ('dict', 'object', 'complex', 'ValueError', 'AttributeError', 'Exception', 'TypeError',
           'NotImplementedError', 'KeyError', 'IndexError'):
    def _mk(_t):
        def f(eng, args, kw):
            if _t == 'dict' and not args:
                return DictV(eng, dict(kw))
            if _t == 'dict' and isinstance(args[0], DictV):
                d = dict(args[0].d)
                d.update(kw)
                return DictV(eng, d)
            raise Unsupported('call of ' + _t)
        return f
    BUILTINS[_t] = _mk(_t)


# ------------------------------------------------------------ value methods
def method(name, fn):
    return Builtin(name, fn)


def value_attr(eng, o, name):
    L = eng.L
    if isinstance(o, SetBox):
        return set_method(eng, o, name)
    if isinstance(o, ListV):
        return list_method(eng, o, name)
    if isinstance(o, (SymList, SymMat)):
        from .arrays import array_attr
        return array_attr(eng, o, name)
    if isinstance(o, DictV):
        return dict_method(eng, o, name)
    if isinstance(o, dict):
        if name == 'get':
            return method('get', lambda e, a, k: o.get(a[0], a[1] if len(a) > 1 else None))
        if name == 'items':
            return method('items', lambda e, a, k: ListV(e, list(o.items())))
        if name == 'pop':
            return method('pop', lambda e, a, k: o.pop(*a))
        if name == 'update':
            return method('update', lambda e, a, k: o.update(a[0].d if isinstance(a[0], DictV) else a[0]))
    if isinstance(o, (str, StrV, LabFmt)):
        return str_method(eng, o, name)
    if isinstance(o, Builtin):
        if name == '__name__':
            return o.name
    if z3.is_expr(o) and o.sort() == Val and name in ('startswith',):
        raise Unsupported('label method')
    from .arrays import scalar_attr
    return scalar_attr(eng, o, name)


def set_method(eng, o, name):
    L = eng.L

    def others(a):
        return [to_set(eng, x) for x in a]

    def norm(b):
        return b if isinstance(b, SetBox) else SetBox(eng, lambda x: L.Or(*[L.Eq(x, c) for c in b]))

    def combine(op, args):
        m = o.cur()
        for b in others(args):
            m = eng.set_op(op, m, norm(b).cur())
        return m
    if name in ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update'):
        op = {'update': 'or', 'difference_update': 'sub', 'intersection_update': 'and',
              'symmetric_difference_update': 'xor'}[name]

        def f(e, a, k):
            o.set(combine(op, a))
        return method(name, f)
    if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
        op = {'union': 'or', 'difference': 'sub', 'intersection': 'and',
              'symmetric_difference': 'xor'}[name]
        return method(name, lambda e, a, k: SetBox(eng, combine(op, a), sort=o.sort))
    if name == 'copy':
        return method(name, lambda e, a, k: SetBox(eng, o.cur(), sort=o.sort))
    if name == 'add':
        def f(e, a, k):
            m = o.cur()
            v = eng.as_term(a[0])
            if not z3.is_expr(v) or v.sort() != o.sort:
                raise Unsupported('add to set')
            o.set(lambda x: L.Or(m(x), L.Eq(x, v)))
        return method(name, f)
    if name in ('discard', 'remove'):
        def f(e, a, k):
            m = o.cur()
            v = a[0]
            if name == 'remove' and not eng.choose(L.B(m(v))):
                raise RaiseEx('KeyError')
            o.set(lambda x: L.And(m(x), L.Not(L.Eq(x, v))))
        return method(name, f)
    if name == 'clear':
        return method(name, lambda e, a, k: o.set(lambda x: L.false))
    if name == 'pop':
        def f(e, a, k):
            m = o.cur()
            x = z3.Const(eng.fresh_name('x'), o.sort)
            if not eng.choose(z3.Exists([x], L.B(m(x)))):
                raise RaiseEx('KeyError')
            v = eng.fresh('popped', o.sort)
            eng.assume(L.B(m(v)))
            o.set(lambda y: L.And(m(y), L.Not(L.Eq(y, v))))
            return v
        return method(name, f)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        def f(e, a, k):
            b = norm(others(a)[0])
            if name == 'issubset':
                return o.view().sub(b.view())
            if name == 'issuperset':
                return b.view().sub(o.view())
            return (o.view() & b.view()).empty()
        return method(name, f)
    if name in ('__contains__',):
        return method(name, lambda e, a, k: eng.contains(o, a[0]))
    if name == '__len__':
        return method(name, lambda e, a, k: b_len(eng, [o], {}))
    raise RaiseEx('AttributeError')


def list_method(eng, o, name):
    if name == 'append':
        return method(name, lambda e, a, k: o.append(a[0]))
    if name == 'extend':
        def f(e, a, k):
            v = a[0]
            if isinstance(v, (ListV,)):
                v = v.items
            if isinstance(v, (list, tuple)):
                for x in v:
                    o.append(x)
                return
            raise Unsupported('extend')
        return method(name, f)
    if name == 'copy':
        return method(name, lambda e, a, k: to_list(eng, o))
    if name == 'reverse':
        def f(e, a, k):
            o.items = list(reversed(o.items))
        return method(name, f)
    if name == 'index':
        def f(e, a, k):
            for i, x in enumerate(o.items):
                if eng.decide(eng.equal(x, a[0])):
                    return i
            raise RaiseEx('ValueError')
        return method(name, f)
    if name == 'pop':
        def f(e, a, k):
            it = o.items
            if not it:
                raise RaiseEx('IndexError')
            i = a[0] if a else -1
            v = it[i]
            o.items = [x for k_, x in enumerate(it) if k_ != (i if i >= 0 else len(it) + i)]
            return v
        return method(name, f)
    if name == 'insert':
        def f(e, a, k):
            it = list(o.items)
            it.insert(a[0], a[1])
            o.items = it
        return method(name, f)
    if name == 'count':
        def f(e, a, k):
            n = 0
            for x in o.items:
                t = eng.equal(x, a[0])
                n = n + (int(t) if isinstance(t, bool) else z3.If(t, z3.IntVal(1), z3.IntVal(0)))
            return n
        return method(name, f)
    raise RaiseEx('AttributeError')


def dict_method(eng, o, name):
    if name == 'get':
        return method(name, lambda e, a, k: o.d.get(a[0], a[1] if len(a) > 1 else None))
    if name == 'items':
        return method(name, lambda e, a, k: ListV(eng, list(o.d.items())))
    if name == 'keys':
        return method(name, lambda e, a, k: ListV(eng, list(o.d.keys())))
    if name == 'values':
        return method(name, lambda e, a, k: ListV(eng, list(o.d.values())))
    if name == 'update':
        def f(e, a, k):
            if a:
                o.d.update(a[0].d if isinstance(a[0], DictV) else a[0])
            o.d.update(k)
        return method(name, f)
    if name == 'pop':
        def f(e, a, k):
            if a[0] in o.d:
                return o.d.pop(a[0])
            if len(a) > 1:
                return a[1]
            raise RaiseEx('KeyError')
        return method(name, f)
    if name == 'copy':
        return method(name, lambda e, a, k: DictV(eng, dict(o.d)))
    raise RaiseEx('AttributeError')


from .engine import FmtStr, LabFmt      # noqa


def str_method(eng, o, name):
    def f(e, a, k):
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and \
                all(isinstance(x, (str, int)) for x in k.values()):
            return getattr(o, name)(*a, **k)
        if name == 'format' and isinstance(o, FmtStr) and len(a) == 1 and not k:
            return LabFmt(o.F(eng.to_val(a[0])))
        if name == 'format' and isinstance(o, (str, StrV, LabFmt)):
            return StrV()
        if name == 'join':
            if isinstance(o, str) and isinstance(a[0], ListV) and all(isinstance(x, str) for x in a[0].items):
                return o.join(a[0].items)
            return StrV()
        raise Unsupported('string method ' + name)
    return method(name, f)


# ------------------------------------------------------------- subscripts
def get_item(eng, o, ix):
    L = eng.L
    if z3.is_expr(ix) and z3.is_int_value(ix):
        ix = ix.as_long()
    if isinstance(o, (ListV, tuple)):
        if isinstance(o, ListV):
            if o.tail is not None:
                raise Unsupported('index into a list with a symbolic tail')
            items = o.items
        else:
            items = list(o)
        if isinstance(ix, tuple) and ix and ix[0] == 'slice':
            if all(x is None or isinstance(x, int) for x in ix[1:]):
                sl = items[slice(*ix[1:])]
                return tuple(sl) if isinstance(o, tuple) else ListV(eng, sl)
            raise Unsupported('symbolic slice')
        if isinstance(ix, int):
            if -len(items) <= ix < len(items):
                return items[ix]
            raise RaiseEx('IndexError')
        if z3.is_expr(ix) and z3.is_int(ix):
            if not eng.choose(z3.And(ix >= -len(items), ix < len(items))):
                raise RaiseEx('IndexError')
            if len(items) > 8:
                raise Unsupported('symbolic index')
            for k in range(len(items)):
                if eng.choose(z3.Or(ix == k, ix == k - len(items))):
                    return items[k]
            raise RaiseEx('IndexError')
    if isinstance(o, DictV):
        if isinstance(ix, (str, int)):
            if ix in o.d:
                return o.d[ix]
            raise RaiseEx('KeyError')
    if isinstance(o, dict):
        if ix in o:
            return o[ix]
        raise RaiseEx('KeyError')
    if isinstance(o, str) and (isinstance(ix, int) or (isinstance(ix, tuple) and ix[0] == 'slice')):
        try:
            return o[ix] if isinstance(ix, int) else o[slice(*ix[1:])]
        except IndexError:
            raise RaiseEx('IndexError')
    from .arrays import array_get
    return array_get(eng, o, ix)


def set_item(eng, o, ix, v):
    if z3.is_expr(ix) and z3.is_int_value(ix):
        ix = ix.as_long()
    if isinstance(o, ListV) and o.tail is None:
        if isinstance(ix, int):
            items = list(o.items)
            if not -len(items) <= ix < len(items):
                raise RaiseEx('IndexError')
            items[ix] = v
            o.items = items
            return
        if z3.is_expr(ix):
            for k in range(len(o.items)):
                if eng.choose(z3.Or(ix == k, ix == k - len(o.items))):
                    items = list(o.items)
                    items[k] = v
                    o.items = items
                    return
            raise RaiseEx('IndexError')
    if isinstance(o, DictV):
        if isinstance(ix, (str, int)):
            o.d[ix] = v
            return
    if isinstance(o, dict):
        o[ix] = v
        return
    from .arrays import array_set
    return array_set(eng, o, ix, v)


# --------------------------------------------------------------- modules
def module_attr(eng, module, name):
    from .arrays import NUMPY
    full = module
    if module in ('typing', '__future__', 'collections.abc', 'abc'):
        return ClassV(name)
    if module in ('numpy', 'np'):
        if name == 'random':
            return ModV('numpy.random')
        if name in NUMPY:
            v = NUMPY[name]
            return Builtin('np.' + name, v) if callable(v) and not isinstance(v, Builtin) else v
        if name == 'ndarray':
            return Builtin('np.ndarray', None)
        raise Unsupported('numpy.' + name)
    if module == 'math':
        return math_attr(eng, name)
    if module == 'fractions' and name == 'Fraction':
        def frac(e, a, k):
            if not a:
                return 0.0
            x = e.to_z3num(a[0], True)
            if len(a) == 1:
                return x
            return e.arith(ast.Div, x, e.to_z3num(a[1], True))
        return Builtin('Fraction', frac)
    if module == 'itertools':
        from .arrays import ITER
        if name in ITER:
            return Builtin('itertools.' + name, ITER[name])
        raise Unsupported('itertools.' + name)
    if module in ('causets', ''):
        return ModV(name)
    if name.isidentifier() and module.startswith('causets.'):
        return ClassV(name)
    return ModV(module + '.' + name)


def class_attr(eng, cname, name):
    raise Unsupported('%s.%s' % (cname, name))


UF = {}


def real_fun(name):
    if name not in UF:
        UF[name] = z3.Function('fn_' + name, R, R)
    return UF[name]


def math_attr(eng, name):
    if name in ('inf', 'pi', 'e', 'tau', 'nan'):
        if name == 'pi':
            return z3.Real('pi')
        return getattr(math, name)
    from .arrays import MATH
    if name in MATH:
        return Builtin('math.' + name, MATH[name])
    raise Unsupported('math.' + name)


def ufunc(eng, f, v):
    from .arrays import elementwise
    return elementwise(eng, f, v)


def sym_pow(eng, a, b):
    from .arrays import sym_pow as sp
    return sp(eng, a, b)


def array_binop(eng, t, a, b):
    from .arrays import array_binop as ab
    return ab(eng, t, a, b)


def array_compare(eng, t, a, b):
    from .arrays import array_compare as ac
    return ac(eng, t, a, b)
