"""Verification of one function against its contract."""
import ast
import time
import traceback
import z3
from . import engine as E
from .engine import (Engine, Program, Ev, Val, SetBox, ObjV, ListV, SymList, SymMat, CompV, FuncV,
                     ClassV, HeapView, Ctx, Unsupported, RaiseEx, REL, FLAGS, LINKF, ALL_FIELDS,
                     wf, linkok, Live, is_bool, is_num, is_ev, Env, StrV)
from .contract import REGISTRY, LEMMAS, scenario_name, LiveSet
from .logic import SetC
from .loops import arg_sorts

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def make_arg(eng, name, kind, env):
    """Engine value for an argument of the given kind."""
    L = eng.L
    if isinstance(kind, tuple) and kind[0] == 'lit':
        return kind[1]
    if kind == 'none':
        return None
    if kind == 'event':
        e = z3.Const('a_' + name, Ev)
        eng.assume(eng.heap['alloc'](e))
        return e
    if kind == 'newevent':
        return eng.new_event()
    if kind == 'set':
        F = z3.Function('A_' + name, Ev, B)
        x = z3.Const('x_' + name, Ev)
        eng.assume(z3.ForAll([x], z3.Implies(F(x), eng.heap['alloc'](x))))
        return SetBox(eng, lambda x: F(x), owner='arg')
    if kind in ('causet', 'embcauset', 'sprcauset'):
        cls = {'causet': 'Causet', 'embcauset': 'EmbeddedCauset', 'sprcauset': 'SprinkledCauset'}[kind]
        F = z3.Function('A_%s_events' % name, Ev, B)
        x = z3.Const('x_' + name, Ev)
        eng.assume(z3.ForAll([x], z3.Implies(F(x), eng.heap['alloc'](x))))
        return ObjV(eng, cls, {'_events': SetBox(eng, lambda x: F(x), owner='attr')})
    if kind == 'newcauset':
        return ObjV(eng, 'Causet', {})
    if kind == 'bool':
        return z3.Const('a_' + name, B)
    if kind == 'int':
        return z3.Const('a_' + name, I)
    if kind == 'nat':
        n = z3.Const('a_' + name, I)
        eng.assume(n >= 0)
        return n
    if kind == 'real':
        return z3.Const('a_' + name, R)
    if kind == 'label':
        v = z3.Const('a_' + name, Val)
        return v
    if kind == 'reals':
        n = z3.Const('n_' + name, I)
        eng.assume(n >= 0)
        G = z3.Function('a_' + name, I, R)
        s = SymList(eng, n, lambda i: G(eng.as_term(i)), esort=R, owner='arg')
        return s
    if kind == 'realtuple':
        n = z3.Const('n_' + name, I)
        eng.assume(n >= 0)
        G = z3.Function('a_' + name, I, R)
        return SymList(eng, n, lambda i: G(eng.as_term(i)), kind='tuple', esort=R, owner='arg')
    if kind == 'evlist':
        n = z3.Const('n_' + name, I)
        eng.assume(n >= 0)
        G = z3.Function('a_' + name, I, Ev)
        i = z3.Const('i_' + name, I)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), eng.heap['alloc'](G(i)))))
        return SymList(eng, n, lambda i: G(eng.as_term(i)), esort=Ev, owner='arg')
    if isinstance(kind, tuple) and kind[0] == 'kwargs':
        return {k: make_arg(eng, name + '_' + k, kk, env) for k, kk in kind[2].items()}
    if isinstance(kind, tuple) and kind[0] == 'sym':
        return kind[2](eng, name)
    raise Unsupported('argument kind %r' % (kind,))


def frame(eng, ctx, eff):
    """(name, formula) list: everything not in the effect is unchanged."""
    L = eng.L
    out = []
    old, new = ctx.old.h, dict(eng.heap)
    links = eff.get('links')
    newev = eff.get('newevents', False)
    for f in ALL_FIELDS:
        if f == 'alloc' and newev:
            x = z3.Const('fr_x', Ev)
            out.append(('alloc-kept', z3.ForAll([x], z3.Implies(old['alloc'](x), L.B(new['alloc'](x))))))
            continue
        if links and f in LINKF:
            continue
        want = eff.get(f, old[f])
        if new[f] is want:
            continue
        xs = [z3.Const('fr_%s_%d' % (f, i), s) for i, s in enumerate(arg_sorts(f))]
        a, b = eng.as_term(new[f](*xs)), eng.as_term(want(*xs))
        if a.eq(b):
            continue
        g = L.Iff(a, b) if z3.is_bool(a) else (a == b)
        if f in ('cget', 'pget'):
            ln = new['clen' if f == 'cget' else 'plen'](xs[0])
            g = L.Implies(z3.And(0 <= xs[1], xs[1] < ln), g)
        if f in ('cget', 'clen'):
            g = L.Implies(L.B(new['has_coords'](xs[0])), g)
        if f in ('pget', 'plen'):
            g = L.Implies(L.B(new['has_pos'](xs[0])), g)
        if f == 'lprec' or f == 'lsucc':
            g = L.Implies(L.B(new['has_' + f](xs[0])), g)
        if newev and f not in eff:
            g = L.Implies(old['alloc'](xs[0]), g)
        out.append((('effect:' if f in eff else 'frame:') + f, z3.ForAll(xs, g)))
    if links and links != 'open':
        nh = HeapView(eng, new)
        for n, g in linkok(nh):
            out.append(('linkok:' + n, g))
        if links == 'lazy':
            x = z3.Const('fr_l', Ev)
            out.append(('links-kept', z3.ForAll([x], z3.Implies(L.B(old['has_lprec'](x)),
                                                               L.B(new['has_lprec'](x))))))
    return out


def eq_result(eng, got, want):
    """Formula: the returned engine value equals the specified value."""
    L = eng.L
    if isinstance(want, (Live, LiveSet)):
        want = SetC(L, (lambda h, ev: lambda x: h(ev, x))(eng.heap[want.field], want.ev))
        if isinstance(got, SetBox):
            return got.view().eq(want)
        return L.false
    if isinstance(want, SetC):
        if isinstance(got, frozenset) and not got:
            return want.empty()
        if isinstance(got, SetBox):
            return got.view().eq(want)
        if isinstance(got, CompV):
            from .builtins_model import to_set
            return to_set(eng, got).view().eq(want)
        return L.false
    if want is None:
        return L.B(got is None)
    if is_bool(want):
        return L.Iff(L.B(got), L.B(want)) if is_bool(got) else L.false
    if is_num(want):
        if not is_num(got):
            return L.false
        r = eng.equal(got, want)
        return L.B(r)
    if is_ev(want):
        return L.Eq(got, want) if is_ev(got) else L.false
    if z3.is_expr(want):
        if z3.is_expr(got) and got.sort() == want.sort():
            return got == want
        return L.false
    if isinstance(want, E.ObjV):
        return L.B(got is want)
    raise Unsupported('result comparison %r' % (want,))


class FunctionReport:
    def __init__(self, qual):
        self.qual = qual
        self.obligs = []
        self.error = None
        self.scenarios = 0
        self.paths = 0
        self.used = set()
        self.inlined = set()
        self.loops = 0
        self.loop_checks = 0
        self.time = 0.0
        self.vacuity = []
        self.invariants = set()


def find_function(prog, qual):
    from .contract import REGISTRY as REG
    ct = REG.get(qual)
    if ct is not None and ct.opts.get('client'):
        mod = qual.split('.')[0]
        if mod not in prog.mods:
            return None
        return None, 'function', ast.parse(ct.opts['client']).body[0], mod
    cls, name = qual.rsplit('.', 1)
    if cls in prog.classes:
        r = prog.lookup(cls, name)
        if r is None:
            return None
        c, kind, node = r
        return c, kind, node, prog.classes[c]['mod']
    if (cls, name) in prog.funcs:
        return None, 'function', prog.funcs[(cls, name)], cls
    return None


def verify(prog, ct, debug=False):
    rep = FunctionReport(ct.qual)
    t0 = time.time()
    fn = find_function(prog, ct.qual)
    if fn is None:
        rep.error = 'function not found: ' + ct.qual
        return rep
    c, kind, node, mod = fn
    for sc, anymode in [(sc, False) for sc in ct.scenarios()] + (
            [(sc, True) for sc in ct.scenarios()] if ct.effect_any else []):
        sname = scenario_name(sc) + ('/links-not-known' if anymode else '')
        eng = Engine(prog, REGISTRY, ct.qual, dict(ct.opts, debug=debug))
        try:
            one_scenario(eng, ct, sc, sname, c, kind, node, mod, rep, anymode)
        except (Unsupported, RecursionError, z3.Z3Exception) as ex:
            rep.error = '%s: %s' % (type(ex).__name__, ex)
            if debug:
                traceback.print_exc()
            break
        finally:
            rep.obligs.extend(('%s[%s]/%s' % (ct.qual, sname, n), h, cd, g)
                              for n, h, cd, g in eng.obligs)
            rep.used |= eng.used_contracts
            rep.inlined |= eng.inlined
            rep.loops += eng.loops_auto
            rep.invariants |= set(eng.invariants_used)
            rep.loop_checks += eng.loop_checks
        rep.scenarios += 1
    if rep.error is None and not rep.obligs:
        rep.error = 'no obligations'
    rep.time = time.time() - t0
    return rep


def one_scenario(eng, ct, sc, sname, c, kind, node, mod, rep, anymode=False):
    L = eng.L
    h0 = HeapView(eng, dict(eng.heap))
    anyst = ct.opts.get('any_state')       # callable in intermediate states, too
    if 'wf' in ct.hyps and not anyst:
        for n, f in wf(h0):
            eng.assume(f)
    if 'linkok' in ct.hyps and not anyst:
        for n, f in linkok(h0)[:1] if anymode else linkok(h0):
            eng.assume(f)
    for hyp, key, fields in eng.ORDER:
        if hyp in ct.hyps and not anyst and not (anymode and hyp == 'linkok'):
            eng.good_order(key, fields)
    vals = {}
    for n, k in sc.items():
        if k == 'omit':
            continue
        vals[n] = make_arg(eng, n, k, None)
    fv = FuncV(node, eng.module_env(mod), mod, ct.qual, cls=c)
    if kind == 'classmethod' and node.args.args[0].arg not in vals:
        vals = dict([(node.args.args[0].arg, ClassV(c))] + list(vals.items()))
    for n, k in sc.items():
        if k == 'omit':
            a = node.args
            names = [p.arg for p in a.args]
            i = names.index(n) - (len(names) - len(a.defaults))
            vals[n] = eng.eval_default(fv, a.defaults[i])
    ctx = Ctx(eng, ct, vals)
    ctx.sc = sc
    eng.ctx = ctx
    pre = ct.requires(ctx)
    for n, f in pre:
        eng.assume(f)
    eng.vac_hyps = list(eng.hyps())
    rep.vacuity.append((ct.qual + '[' + sname + ']', list(eng.hyps()), list(eng.cards())))
    argboxes = [(n, v, v.cur()) for n, v in vals.items() if isinstance(v, SetBox)]
    argobjs = [(n, v, dict(v.attrs), v.attrs['_events'].cur() if '_events' in v.attrs else None)
               for n, v in vals.items() if isinstance(v, ObjV)]
    arglists = [(n, v, v.dump()) for n, v in vals.items() if isinstance(v, (SymList, ListV))]

    def thunk():
        nonlocal vals
        raised = None
        res = None
        try:
            names = [p.arg for p in node.args.args]
            pos = [vals[n] for n in names]
            kw = {}
            if node.args.kwarg is not None:
                kw = dict(vals[node.args.kwarg.arg])
            if node.args.vararg is not None:
                va = vals[node.args.vararg.arg]
                pos = pos + list(va)
            res = eng.call_body(fv, pos, kw)
        except RaiseEx as r:
            raised = r
        rs = ct.raises(ctx)
        if raised is not None:
            conds = [L.B(f) for n, f in rs if n == raised.etype]
            eng.oblige('raises-only:' + raised.etype, L.Or(*conds) if conds else L.false)
            # events made before the error are unreachable
            for n, g in frame(eng, ctx, {'newevents': True, 'links': 'any'}
                              if ct.opts.get('creating') else {}):
                eng.oblige('unchanged-on-raise/' + n, g)
            return
        for n, f in rs:
            eng.oblige('must-raise:' + n, L.Not(L.B(f)))
        eff = dict(ct.effect_any(ctx)) if anymode else ct.effect(ctx)
        for n, g in frame(eng, ctx, eff):
            eng.oblige(n, g)
        if 'wf' in ct.hyps and ('prec' in eff or 'succ' in eff or eff.get('newevents')) and \
                not ct.opts.get('no_order'):
            for n, g in wf(HeapView(eng, dict(eng.heap))):
                eng.oblige('order:' + n, g)
        evs = eff.get('events', {})
        for n, v in vals.items():
            if isinstance(v, E.FileV) and v.wild and n not in eff.get('files', {}):
                eng.oblige('file-%s-unchanged' % n, L.false)
        for n, v, m0 in argboxes:
            want = evs[n].mem if n in evs else m0
            check_set(eng, 'argument-%s' % n, v.cur(), want)
        for n, v, at0, ev0 in argobjs:
            attrs = eff.get('attrs', {})
            if ev0 is not None:
                want = evs[n].mem if n in evs else ev0
                if n in eff.get('havoc_events', ()):
                    want = v.attrs['_events'].cur()
                got = v.attrs.get('_events')
                if not isinstance(got, SetBox):
                    eng.oblige('events-of-%s' % n, L.false)
                else:
                    check_set(eng, 'events-of-%s' % n, got.cur(), want)
                    if got.owner not in ('fresh', 'attr') or got.loc is not None:
                        eng.oblige('events-of-%s-not-shared' % n, L.false)
            if ev0 is None and n in eff.get('havoc_events', ()):
                got = v.attrs.get('_events')
                if not isinstance(got, SetBox) or got.owner not in ('fresh', 'attr') or \
                        got.loc is not None:
                    eng.oblige('events-of-%s-not-shared' % n, L.false)
            for k in set(at0) | set(v.attrs):
                if k == '_events' or k.startswith('__') or (n, k) in attrs:
                    continue
                if k not in at0 or k not in v.attrs or not E.same_val(at0[k], v.attrs[k]):
                    eng.oblige('attribute-%s-of-%s-unchanged' % (k, n), L.false)
            for (an, k), w in attrs.items():
                if an == n:
                    if k not in v.attrs:
                        eng.oblige('attribute-%s-set' % k, L.false)
                    else:
                        eng.oblige('attribute-%s' % k, eq_result(eng, v.attrs[k], w))
        for n, v, d0 in arglists:
            if not E.same_val(d0, v.dump()):
                eng.oblige('argument-%s-unchanged' % n, L.false)
        ctx.new = HeapView(eng, dict(eng.heap))
        ctx.post_args = {k: eng.wrap(v) for k, v in vals.items()}
        ctx.raw = res
        if ct.has_result:
            want = ct.result(ctx)
            ctx.result = want
            eng.oblige('result', eq_result(eng, res, want))
            if isinstance(want, SetC) and isinstance(res, SetBox) and ct.fresh:
                if res.loc is not None or res.owner not in ('fresh', 'iter'):
                    eng.oblige('result-is-new', L.false)
        else:
            ctx.result = eng.wrap(res)
        for n, f in ct.ensures(ctx):
            eng.oblige('post:' + n, f)
    rs = eng.explore(thunk)
    rep.paths += len(rs)
    for r in rs:
        if r['out'][0] != 'ok':
            raise Unsupported('path ended with ' + r['out'][0])


def check_set(eng, name, got, want):
    L = eng.L
    if got is want:
        return
    x = z3.Const('cs_x', Ev)
    a, b = L.B(got(x)), L.B(want(x))
    if a.eq(b):
        return
    eng.oblige(name, z3.ForAll([x], a == b))


def verify_lemma(prog, lem):
    eng = Engine(prog, REGISTRY, lem.name)
    h0 = HeapView(eng, dict(eng.heap))
    if 'wf' in lem.hyps:
        for n, f in wf(h0):
            eng.assume(f)
    if 'linkok' in lem.hyps:
        for n, f in linkok(h0):
            eng.assume(f)
    vals = {n: make_arg(eng, n, k, None) for n, k in lem.vars.items()}
    ctx = Ctx(eng, lem, vals)
    for n, f in lem.formula(ctx):
        eng.oblige('lemma %s/%s' % (lem.name, n), f)
    return eng.obligs
