"""A deductive verifier for the Python subset used by the causets package.

The verified text is the source in /repo, parsed with `ast` on every run.  The
engine executes a function body symbolically (decision-prefix re-execution for
path forking), summarises loops by semantic accumulator rules or by invariants
supplied by the contract, uses contracts at calls, and emits proof obligations
that are discharged by SMT solvers (see solve.py).
"""
import ast
import math
import os
import z3
from .logic import make_SymL, SetC
from .contract import LiveSet
from .values import ExtV, ext_of, ext_if, ext_less, ext_equal

SymL = make_SymL()
Ev = SymL.Ev
LabStr = z3.DeclareSort('LabStr')
Val = z3.Datatype('Val')
Val.declare('vnone')
Val.declare('vint', ('ival', z3.IntSort()))
Val.declare('vstr', ('sval', LabStr))
Val.declare('voth', ('oval', z3.IntSort()))
Val = Val.create()

REL = ('prec', 'succ', 'lprec', 'lsucc')
FLAGS = ('has_lprec', 'has_lsucc', 'has_coords', 'has_pos', 'alloc')
FIELD_OF_ATTR = {'_prec': 'prec', '_succ': 'succ', '_lprec': 'lprec', '_lsucc': 'lsucc'}
FLAG_OF_ATTR = {'_lprec': 'has_lprec', '_lsucc': 'has_lsucc',
                '_coordinates': 'has_coords', '_position': 'has_pos'}
SEQ_OF_ATTR = {'_coordinates': ('clen', 'cget'), '_position': ('plen', 'pget')}
ALL_FIELDS = REL + FLAGS + ('label', 'clen', 'cget', 'plen', 'pget')
LINKF = ('lprec', 'lsucc', 'has_lprec', 'has_lsucc')


class Unsupported(Exception):
    pass


class RaiseEx(Exception):
    def __init__(self, etype, node=None):
        self.etype = etype
        self.node = node


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    pass


class NeedInvariant(Unsupported):
    pass


# ----------------------------------------------------------------- values
class SetBox:
    """A (mutable) Python set.  Either owns its membership predicate or is an
    alias of a set-valued event attribute (loc = (field, event))."""

    def __init__(self, eng, mem, loc=None, owner='fresh', sort=None):
        self.eng = eng
        self._mem = mem
        self.loc = loc
        self.owner = owner
        self.sort = Ev if sort is None else sort
        self.frozen_alias = False
        eng.mut.append(self)

    def cur(self):
        if self.loc is not None:
            f = self.eng.heap[self.loc[0]]
            e = self.loc[1]
            return lambda x: f(e, x)
        return self._mem

    def mem(self, x):
        return self.cur()(x)

    def set(self, mem):
        if self.frozen_alias:
            raise Unsupported('mutation of a set with unclear aliases')
        if self.loc is not None:
            f, e = self.loc
            self.eng.heap_write_rel(f, e, mem)
        else:
            self._mem = mem

    def dump(self):
        return (self._mem, self.loc, self.frozen_alias)

    def load(self, d):
        self._mem, self.loc, self.frozen_alias = d

    def view(self):
        m = self.cur()
        return SetC(self.eng.L, m)


class ObjV:
    def __init__(self, eng, cls, attrs=None, ident=None):
        self.eng = eng
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.ident = ident or ('obj%d' % len(eng.mut))
        eng.mut.append(self)

    def dump(self):
        return dict(self.attrs)

    def load(self, d):
        self.attrs = dict(d)


class ListBase:
    """Symbolic prefix of a list: length, element function, element kind."""

    def __init__(self, n, F, elem):
        self.n, self.F, self.elem = n, F, elem


class ListV:
    """A Python list with a concrete number of items (after a symbolic prefix)."""

    def __init__(self, eng, items, tup=False):
        self.eng = eng
        self._items = list(items)
        self.tup = tup
        self.hidden = False     # contents unknown: only append is allowed
        self.tail = None        # CompV: a family of further items
        self.base = None        # ListBase: items before these
        eng.mut.append(self)

    @property
    def items(self):
        if self.hidden:
            raise NeedInvariant('list read while it is built')
        if self.base is not None:
            raise Unsupported('list with a symbolic prefix')
        if self.tail is not None:
            raise Unsupported('list with a symbolic tail')
        return self._items

    @items.setter
    def items(self, v):
        self._items = v

    def append(self, v):
        if self.tail is not None:
            raise Unsupported('append to a list with a symbolic tail')
        self._items.append(v)

    def dump(self):
        return (list(self._items), self.hidden, self.tail, self.base)

    def load(self, d):
        self._items, self.hidden, self.tail, self.base = list(d[0]), d[1], d[2], d[3]


class SymList:
    """A list (or 1-D array) with symbolic length and element function."""

    def __init__(self, eng, length, get, kind='list', esort=None, bag=None, owner='fresh'):
        self.eng = eng
        self.length = length
        self.get = get
        self.kind = kind
        self.esort = esort
        self.bag = bag          # set closure when order is unknown
        self.owner = owner
        self.writes = []
        self.info = {}
        eng.mut.append(self)

    def dump(self):
        return (self.length, self.get, self.bag, list(self.writes), dict(self.info))

    def load(self, d):
        self.length, self.get, self.bag, w, i = d
        self.writes = list(w)
        self.info = dict(i)


class SymMat:
    """A 2-D array: rows, cols, get(i, j)."""

    def __init__(self, eng, rows, cols, get, esort=None):
        self.eng = eng
        self.rows = rows
        self.cols = cols
        self.get = get
        self.esort = esort
        self.writes = []
        eng.mut.append(self)

    def dump(self):
        return (self.rows, self.cols, self.get, list(self.writes))

    def load(self, d):
        self.rows, self.cols, self.get, w = d
        self.writes = list(w)


class FileV:
    """A text file: the matrix that numpy reads from it, for each delimiter."""

    def __init__(self, eng, content, made=None):
        self.eng, self.content, self.made = eng, content, made
        self.wild = False        # the content was replaced by a call
        eng.mut.append(self)

    def matrix(self, delimiter):
        if delimiter not in self.content:
            if self.made is None:
                raise Unsupported('file read with another delimiter')
            self.content = {**self.content, delimiter: self.made(delimiter)}
        return self.content[delimiter]

    def write(self, content):
        self.content, self.made, self.wild = content, None, True

    def dump(self):
        return self.content, self.made, self.wild

    def load(self, d):
        self.content, self.made, self.wild = d


class Ghosts:
    """Functions that only the contracts know."""

    def __init__(self, eng):
        self.funs = {}
        eng.mut.append(self)

    def dump(self):
        return dict(self.funs)

    def load(self, d):
        self.funs = dict(d)


class CompV:
    """Evaluated generator expression: a family of values.
    branches: list of (vars, guard, value)."""

    def __init__(self, branches, ordered=None):
        self.branches = branches
        self.ordered = ordered   # (var, lo, n) when it is a plain indexed map


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def concrete(self):
        return all(isinstance(x, int) for x in (self.lo, self.hi, self.step))

    def pyrange(self):
        return range(self.lo, self.hi, self.step)


class EnumV:
    def __init__(self, inner, start=0):
        self.inner, self.start = inner, start


class Emit(tuple):
    """An emitted (vars, guard, value); ordered = (lo, hi) for exactly one value
    per index."""
    ordered = None


class FuncV:
    def __init__(self, node, env, mod, qual, cls=None, bound=None):
        self.node = node
        self.env = env
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.bound = bound


class ClassV:
    def __init__(self, name):
        self.name = name


class ModV:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class Poison:
    pass


POISON = Poison()


class StrV:
    """A symbolic / unmodelled string (only used for messages)."""


class FmtStr(StrV):
    """An arbitrary format string that is not empty."""

    def __init__(self, name):
        self.F = z3.Function('format_' + name, Val, LabStr)


class Env:
    def __init__(self, eng, parent=None, mod=None):
        self.eng = eng
        self.vars = {}
        self.parent = parent
        self.mod = mod
        self.nonlocals = set()
        eng.mut.append(self)

    def dump(self):
        return dict(self.vars)

    def load(self, d):
        self.vars = dict(d)

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


# ----------------------------------------------------------------- program
class Program:
    """Parsed modules of the repository."""

    def __init__(self, root, modules):
        self.root = root
        self.mods = {}
        self.classes = {}
        self.funcs = {}
        for m in modules:
            path = os.path.join(root, m + '.py')
            with open(path, encoding='utf8') as f:
                tree = ast.parse(f.read(), path)
            self.mods[m] = tree
            for st in tree.body:
                if isinstance(st, ast.FunctionDef):
                    self.funcs[(m, st.name)] = st
                elif isinstance(st, ast.ClassDef):
                    info = dict(mod=m, bases=[b.id if isinstance(b, ast.Name) else
                                              getattr(b, 'attr', '?') for b in st.bases],
                                members={}, node=st)
                    for s in st.body:
                        if isinstance(s, ast.FunctionDef):
                            kind = 'method'
                            for d in s.decorator_list:
                                if isinstance(d, ast.Name) and d.id in (
                                        'property', 'staticmethod', 'classmethod'):
                                    kind = d.id
                                elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                                    kind = 'setter'
                                else:
                                    kind = 'decorated'
                            key = s.name + ('=' if kind == 'setter' else '')
                            info['members'][key] = (kind, s)
                        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                            tgt = s.targets[0] if isinstance(s, ast.Assign) else s.target
                            if isinstance(tgt, ast.Name) and s.value is not None:
                                info['members'][tgt.id] = ('const', s.value)
                    self.classes[st.name] = info

    def mro(self, cls):
        out = []
        c = cls
        while c in self.classes:
            out.append(c)
            b = self.classes[c]['bases']
            c = b[0] if b else None
        return out

    def lookup(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in self.classes[c]['members']:
                k, n = self.classes[c]['members'][name]
                return c, k, n
        return None

    def isinstance(self, cls, base):
        return base in self.mro(cls)


def lam(params, term):
    """Closure substituting its arguments for the placeholder constants."""
    def f(*args):
        return z3.substitute(term, *[(p, a) for p, a in zip(params, args)])
    return f


def consts_in(t, cache=None):
    """Set of uninterpreted constant/function decl names in a term."""
    seen = set()
    out = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
        elif z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            stack.extend(u.children())
    return out


def is_sym(v):
    return z3.is_expr(v)


def is_bool(v):
    return isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))


def is_num(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or \
        (z3.is_expr(v) and z3.is_arith(v))


def is_ev(v):
    return z3.is_expr(v) and v.sort() == Ev


_quant = {}


def has_quant(t):
    k = t.get_id()
    if k not in _quant:
        st, seen, r = [t], set(), False
        while st:
            u = st.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_quantifier(u):
                r = True
                break
            st.extend(u.children())
        _quant[k] = (r, t)
    return _quant[k][0]


class HeapView:
    """Read access to a heap for contracts (symbolic)."""

    def __init__(self, eng, heap):
        self.eng = eng
        self.L = eng.L
        self.h = heap

    def _rel(self, f, e):
        g = self.h[f]
        return SetC(self.L, lambda x: g(e, x))

    def prec(self, e): return self._rel('prec', e)
    def succ(self, e): return self._rel('succ', e)
    def lprec(self, e): return self._rel('lprec', e)
    def lsucc(self, e): return self._rel('lsucc', e)
    def alloc(self, e): return self.h['alloc'](e)
    def has_lprec(self, e): return self.h['has_lprec'](e)
    def has_lsucc(self, e): return self.h['has_lsucc'](e)
    def has_coords(self, e): return self.h['has_coords'](e)
    def has_pos(self, e): return self.h['has_pos'](e)
    def label(self, e): return self.h['label'](e)
    def clen(self, e): return self.h['clen'](e)
    def cget(self, e, i): return self.h['cget'](e, i)
    def plen(self, e): return self.h['plen'](e)
    def pget(self, e, i): return self.h['pget'](e, i)

    def cover(self, a, b):
        L = self.L
        return L.And(self.prec(b).has(a),
                     L.Not(L.exists(lambda z: L.And(self.succ(a).has(z), self.prec(b).has(z)))))


class Engine:
    def __init__(self, program, contracts, qual='?', opts=None):
        self.prog = program
        self.contracts = contracts
        self.L = SymL(self)
        self.opts = opts or {}
        self.verifying = qual
        self.nfresh = 0
        self.obligs = []
        self.recording = True
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.loops_auto = 0
        self.ctx = None
        self.setlists = []
        self.enumcache = {}
        self.distheap = None     # the order that link distances refer to
        self.domcache = {}
        self.undecided = 0
        self.uniques = []        # np.unique: (source, result, place of each source element)
        self.enums = []          # enumerations of sets: (element, index, length, membership)
        self.loopstack = []
        self.inverses = {}       # name of an injective function -> its inverse
        self.setseqs = []        # sequences made into sets
        self.samples = []        # matrices of sampled points, with shape and stream
        self.closures = {}       # relation -> its transitive closure
        self.closures_made = []
        self.evlists = []        # lists of events returned by calls
        self.discovering = 0
        self.propnames = {}
        self.cardfuns = {}
        import time
        self.t0 = time.time()
        self.invariants_used = []
        self.loops_inv = 0
        self.quick_calls = 0
        self.reset()

    # -------------------------------------------------------------- state
    def reset(self):
        self.mut = []
        self.ghosts = Ghosts(self)
        self.heap = {}
        self.trace = []
        self.decisions = []
        self.dpos = 0
        self.alts = []
        self.emits = []
        self.depth = 0
        self.freshlog = []
        self.globals = {}
        self.modenv = {}
        self.loopctx = []
        self.current_exc = None
        self.link_direct = self.link_lazy = False
        self.linkfacts = set()
        self.linkkeep = []
        self.loopdepth = 0
        self.loop_checks = 0
        h = self.heap
        B = z3.BoolSort()
        for f in REL:
            F = z3.Function('h_' + f, Ev, Ev, B)
            h[f] = (lambda F: lambda c, x: F(c, x))(F)
        for f in FLAGS:
            F = z3.Function('h_' + f, Ev, B)
            h[f] = (lambda F: lambda c: F(c))(F)
        lab = z3.Function('h_label', Ev, Val)
        h['label'] = lambda c: lab(c)
        for ln, gt in (('clen', 'cget'), ('plen', 'pget')):
            A = z3.Function('h_' + ln, Ev, z3.IntSort())
            G = z3.Function('h_' + gt, Ev, z3.IntSort(), z3.RealSort())
            h[ln] = (lambda A: lambda c: A(c))(A)
            h[gt] = (lambda G: lambda c, i: G(c, i))(G)

    def fresh_name(self, base):
        self.nfresh += 1
        return '%s~%d' % (base, self.nfresh)

    def fresh(self, base, sort):
        c = z3.Const(self.fresh_name(base), sort)
        self.freshlog.append(c)
        return c

    def fresh_fun(self, base, *sorts):
        F = z3.Function(self.fresh_name(base), *sorts)
        self.freshlog.append(F)
        return F

    def snapshot(self):
        return (dict(self.heap), [(m, m.dump()) for m in self.mut], len(self.mut))

    def restore(self, s):
        self.heap = dict(s[0])
        for m, d in s[1]:
            m.load(d)
        del self.mut[s[2]:]

    def capture(self):
        return (dict(self.heap), {id(m): (m, m.dump()) for m in self.mut})

    # ------------------------------------------------------------- facts
    def assume(self, phi):
        if phi is True:
            return
        if phi is False:
            raise Infeasible()
        if z3.is_true(phi):
            return
        if z3.is_false(phi):
            raise Infeasible()
        self.trace.append(('fact', phi))

    def assume_cond(self, phi):
        if phi is True or (z3.is_expr(phi) and z3.is_true(phi)):
            return
        if phi is False or z3.is_false(phi):
            raise Infeasible()
        self.trace.append(('cond', phi))

    def hyps(self):
        return [e[1] for e in self.trace if e[0] in ('cond', 'fact')]

    def cards(self):
        return [e for e in self.trace if e[0] in ('card', 'sum')]

    def oblige(self, name, goal):
        if not self.recording:
            return
        if goal is True or (z3.is_expr(goal) and z3.is_true(goal)):
            self.obligs.append((name, None, None, None))
            return
        goal = self.L.B(goal)
        self.obligs.append((name, list(self.hyps()), list(self.cards()), goal))

    def card_term(self, mem, sort=None):
        sort = Ev if sort is None else sort
        c = self.card_fun(mem, sort)
        if c is None:
            c = self.fresh('card', z3.IntSort())
        self.trace.append(('card', (), c, mem, sort))
        self.trace.append(('fact', c >= 0))
        return c

    def card_fun(self, mem, sort):
        """The cardinality as a function of the constants that occur in the set: sets of the
        same shape have the same function (congruence only)."""
        from .solve import canon
        x = z3.Const('cardx', sort)
        body = self.L.B(mem(x))
        order = []
        seen, st = set(), [body]
        while st:
            u = st.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if z3.is_quantifier(u):
                st.append(u.body())
                continue
            if not z3.is_app(u):
                continue
            if u.num_args() == 0:
                if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and not u.eq(x):
                    order.append(u)
            else:
                st.extend(reversed(u.children()))
        ren = [z3.Const('cardp_%d' % i, p.sort()) for i, p in enumerate(order)]
        text = z3.substitute(body, *zip(order, ren)).sexpr() if order else body.sexpr()
        if len(text) > 6000:
            return None
        key = canon(text) + '|' + ','.join(p.sort().name() for p in order)
        if key not in self.cardfuns:
            self.cardfuns[key] = z3.Function('cardof#%d' % len(self.cardfuns),
                                             *([p.sort() for p in order] + [z3.IntSort()]))
        return self.cardfuns[key](*order)

    def prod_term(self, lo, hi, f):
        """Product over an index range: equal for equal factors."""
        lo, hi = self.as_term(lo), self.as_term(hi)
        c = self.fresh('prod', z3.RealSort())
        i = z3.Const(self.fresh_name('ix'), z3.IntSort())
        self.assume(z3.Implies(hi <= lo, c == 1))
        self.assume(z3.Implies(hi == lo + 1, c == f(lo)))
        self.assume(z3.Implies(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), f(i) == 1)),
                               c == 1))
        for lo2, hi2, f2, c2 in self.trace_prods():
            self.assume(z3.Implies(z3.And(hi - lo == hi2 - lo2, z3.ForAll([i], z3.Implies(
                z3.And(lo <= i, i < hi), f(i) == f2(i - lo + lo2)))), c == c2))
        self.trace.append(('prod', lo, hi, f, c))
        return c

    def trace_prods(self):
        return [e[1:] for e in self.trace if e[0] == 'prod']

    def sum_term(self, mem, f, sort=None, real=False):
        """Sum of f(x) over the finite set mem."""
        c = self.fresh('sum', z3.RealSort() if real else z3.IntSort())
        self.trace.append(('sum', (), c, mem, f, Ev if sort is None else sort))
        return c

    def lift_terms(self, xs, body, mark, fm):
        """Cardinality terms created while evaluating a formula under bound
        variables xs become functions of xs."""
        from .loops import Lifter
        ents = self.trace[mark:]
        del self.trace[mark:]
        lf = Lifter(self, xs, self.freshlog[fm:], xs)
        for en in ents:
            if en[0] == 'fact':
                self.trace.append(('fact', z3.ForAll(xs, lf.term(en[1]))))
            elif en[0] == 'cond':
                raise Unsupported('fork inside a formula')
            else:
                self.trace.append(lf.entry(en))
        return lf.term(body)

    def quick_unsat(self, extra, ms=None, hyps=None):
        """True if hyps & extra is found unsatisfiable quickly."""
        self.quick_calls += 1
        s = z3.Solver()
        s.set('timeout', ms or (self.ctx and self.ctx.ct.opts.get('quick_ms')) or
              self.opts.get('quick_ms', 250 if self.undecided < 12 else 80))
        from .solve import card_axioms
        for hh in (self.hyps() if hyps is None else hyps):
            s.add(hh)
        for a in card_axioms(self.cards(), light=True):
            s.add(a)
        for x in extra:
            s.add(x)
        r = s.check()
        if hyps is None:         # many undecided questions: spend less on the next ones
            self.undecided = self.undecided + 1 if r == z3.unknown else 0
        return r == z3.unsat

    def choose(self, cond, prune=True):
        if cond is True or cond is False:
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        nc = self.L.Not(cond)
        for k, phi in [e[:2] for e in self.trace if e[0] in ('cond', 'fact')]:
            if phi.eq(cond):
                return True
            if phi.eq(nc):
                return False
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
            self.dpos += 1
            if d in ('T', 'F'):       # forced by feasibility, remembered
                self.trace.append(('fact', cond if d == 'T' else nc))
                return d == 'T'
        else:
            if prune:
                qf = [h for h in self.hyps() if not has_quant(h)]
                nq = has_quant(cond)
                if not nq and self.quick_unsat([cond], hyps=qf):
                    self.decisions.append('F')
                    self.dpos += 1
                    self.trace.append(('fact', nc))
                    return False
                if not nq and self.quick_unsat([nc], hyps=qf):
                    self.decisions.append('T')
                    self.dpos += 1
                    self.trace.append(('fact', cond))
                    return True
                if self.quick_unsat([cond]):
                    self.decisions.append('F')
                    self.dpos += 1
                    self.trace.append(('fact', nc))
                    return False
                if self.quick_unsat([nc]):
                    self.decisions.append('T')
                    self.dpos += 1
                    self.trace.append(('fact', cond))
                    return True
            d = True
            self.alts.append(self.decisions[:self.dpos] + [False])
            self.decisions.append(True)
            self.dpos += 1
        self.trace.append(('cond', cond if d else nc))
        return d

    def explore(self, thunk, pathdone=None):
        """Run thunk on all paths; returns list of dicts."""
        snap = self.snapshot()
        saved = (self.decisions, self.dpos, self.alts, self.emits, self.depth, self.current_exc)
        mark = len(self.trace)
        stack = [[]]
        results = []
        anyd, anyl = self.link_direct, self.link_lazy
        while stack:
            dec = stack.pop()
            self.restore(snap)
            self.decisions = dec
            self.dpos = 0
            self.alts = []
            self.emits = saved[3] + [[]]
            self.depth = saved[4]
            self.current_exc = saved[5]
            del self.trace[mark:]
            fmark = len(self.freshlog)
            self.link_direct = self.link_lazy = False
            self.pathinfo = None
            try:
                out = ('ok', thunk())
            except ReturnEx as r:
                out = ('return', r.value)
            except RaiseEx as r:
                out = ('raise', r)
            except BreakEx:
                out = ('break', None)
            except ContinueEx:
                out = ('ok', None)
            except Infeasible:
                stack.extend(self.alts)
                continue
            results.append(dict(entries=self.trace[mark:], out=out, state=self.capture(),
                                emits=self.emits[-1], fresh=self.freshlog[fmark:],
                                mut=list(self.mut), direct_link=self.link_direct,
                                lazy_link=self.link_lazy))
            if pathdone is not None:
                pathdone(results[-1])
            anyd = anyd or self.link_direct
            anyl = anyl or self.link_lazy
            stack.extend(self.alts)
            if len(results) > self.opts.get('max_paths', 400):
                raise Unsupported('too many paths')
        del self.trace[mark:]
        self.restore(snap)
        self.decisions, self.dpos, self.alts, self.emits, self.depth, self.current_exc = saved
        self.link_direct, self.link_lazy = anyd, anyl
        return results

    def enter(self, r):
        """Continue the current path as the explored path r."""
        heap, muts = r['state']
        self.heap = dict(heap)
        self.mut = list(r['mut'])
        for m, d in muts.values():
            m.load(d)
        self.trace.extend(r['entries'])
        if self.emits:
            self.emits[-1].extend(r['emits'])
        kind, v = r['out']
        if kind == 'return':
            raise ReturnEx(v)
        if kind == 'raise':
            raise v
        if kind == 'break':
            return True
        return False

    def assume_entry(self, en):
        if en[0] == 'fact':
            self.assume(en[1])
        else:
            self.trace.append(en)

    def as_term(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return self.real_val(v)
        return v

    def to_z3num(self, v, real):
        if isinstance(v, ExtV):
            raise Unsupported('a number that may be infinite')
        v = self.as_term(v)
        if z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if real and z3.is_int(v):
            v = z3.ToReal(v)
        return v

    def prove(self, goal, ms=None):
        """Validity of goal under the current hypotheses (cached)."""
        from .solve import prove_now
        goal = self.L.B(goal)
        if z3.is_true(goal):
            return True
        r = prove_now(self.hyps(), self.cards(), goal, ms or self.opts.get('inductive_ms', 6000))
        self.loop_checks += 1
        if not r and self.opts.get('debug') == 2:
            print('PROVE FAILED', goal)
        return r

    def has_invariant(self, node):
        return False

    # -------------------------------------------------------------- heap
    def heap_write_rel(self, f, e, mem):
        old = self.heap[f]
        L = self.L
        if f in LINKF:
            self.link_direct = True
        self.heap[f] = lambda c, x: L.If(L.Eq(c, e), mem(x), old(c, x))

    def heap_write_flag(self, f, e, v):
        old = self.heap[f]
        L = self.L
        if f in LINKF:
            self.link_direct = True
        self.heap[f] = lambda c: L.If(L.Eq(c, e), v, old(c))

    def new_event(self):
        n = self.fresh('new', Ev)
        self.assume(self.L.Not(self.heap['alloc'](n)))
        self.heap_write_flag('alloc', n, True)
        for f in REL:
            self.heap_write_rel(f, n, lambda x: self.L.false)
        for f in ('has_lprec', 'has_lsucc', 'has_coords', 'has_pos'):
            self.heap_write_flag(f, n, False)
        return n

    # ------------------------------------------------------------- truth
    def truth(self, v):
        """Boolean value/term of Python truthiness."""
        if v is None:
            return False
        if isinstance(v, (bool,)):
            return v
        if isinstance(v, (int, float, str, tuple, frozenset)):
            return bool(v)
        if z3.is_expr(v):
            if z3.is_bool(v):
                return v
            if z3.is_arith(v):
                return v != 0
            if v.sort() == Ev:
                return True
            if v.sort() == Val:
                em = z3.Const('str_empty', LabStr)
                return z3.Not(z3.Or(v == Val.vnone, z3.And(Val.is_vint(v), Val.ival(v) == 0),
                                    z3.And(Val.is_vstr(v), Val.sval(v) == em)))
        if isinstance(v, SetBox):
            x = self.L.fresh_ev() if v.sort == Ev else z3.Const(self.fresh_name('q'), v.sort)
            return z3.Exists([x], self.L.B(v.mem(x)))
        if isinstance(v, ListV):
            return len(v.items) > 0
        if isinstance(v, SymList):
            return v.length > 0
        if isinstance(v, ObjV):
            if self.prog.lookup(v.cls, '__len__') or self.prog.lookup(v.cls, '__bool__'):
                raise Unsupported('truth of object with __len__')
            return True
        if isinstance(v, (FuncV, Builtin, ClassV)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def decide(self, v):
        return self.choose(self.truth(v))

    # --------------------------------------------------------- functions
    def find_contract(self, qual):
        return self.contracts.get(qual)

    def get_func(self, cls, name, after=None):
        r = self.prog.lookup(cls, name, after)
        if r is None:
            return None
        c, kind, node = r
        return c, kind, node

    def module_env(self, mod):
        if mod not in self.modenv:
            env = Env(self, None, mod)
            self.mut.remove(env)
            self.modenv[mod] = env
        return self.modenv[mod]

    def qualname(self, cls, name):
        return '%s.%s' % (cls, name)

    def call_method(self, recv, cls, name, args, kwargs, after=None):
        r = self.get_func(cls, name, after)
        if r is None:
            raise RaiseEx('AttributeError')
        c, kind, node = r
        fv = FuncV(node, self.module_env(self.prog.classes[c]['mod']),
                   self.prog.classes[c]['mod'], self.qualname(c, name), cls=c)
        if kind == 'staticmethod':
            return self.call(fv, args, kwargs)
        if kind == 'classmethod':
            return self.call(fv, [ClassV(cls)] + list(args), kwargs)
        return self.call(fv, [recv] + list(args), kwargs)

    def bind_args(self, fv, args, kwargs):
        a = fv.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        rest = list(args)
        for n in names:
            if rest:
                vals[n] = rest.pop(0)
        if rest:
            if a.vararg is None:
                raise RaiseEx('TypeError')
            vals[a.vararg.arg] = ListV(self, rest, tup=True)
        elif a.vararg is not None:
            vals[a.vararg.arg] = ListV(self, [], tup=True)
        kw = dict(kwargs)
        allnames = names + [p.arg for p in a.kwonlyargs]
        for n in list(kw):
            if n in allnames:
                if n in vals:
                    raise RaiseEx('TypeError')
                vals[n] = kw.pop(n)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kw
        elif kw:
            raise RaiseEx('TypeError')
        defaults = a.defaults
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in vals:
                vals[n] = self.eval_default(fv, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in vals and d is not None:
                vals[p.arg] = self.eval_default(fv, d)
        for n in allnames:
            if n not in vals:
                raise RaiseEx('TypeError')
        return vals

    def eval_default(self, fv, node):
        return self.eval(node, fv.env)

    def call(self, fv, args, kwargs):
        if isinstance(fv, Builtin):
            return fv.fn(self, args, kwargs)
        if isinstance(fv, ClassV):
            return self.instantiate(fv.name, args, kwargs)
        if not isinstance(fv, FuncV):
            raise Unsupported('call of %r' % (fv,))
        if fv.bound is not None:
            args = [fv.bound] + list(args)
        if isinstance(fv.node, ast.Lambda):
            vals = self.bind_args(fv, args, kwargs)
            env = Env(self, fv.env, fv.mod)
            env.vars.update(vals)
            return self.eval(fv.node.body, env)
        ct = self.find_contract(fv.qual)
        if ct is not None and not ct.inline and \
                not (fv.qual == self.verifying and self.depth == 0 and ct.inline_self):
            vals = self.bind_args(fv, args, kwargs)
            return self.apply_contract(ct, vals)
        return self.call_body(fv, args, kwargs)

    def call_body(self, fv, args, kwargs):
        vals = self.bind_args(fv, args, kwargs)
        self.inlined.add(fv.qual)
        if self.depth > 25:
            raise Unsupported('recursion without contract: ' + fv.qual)
        env = Env(self, fv.env, fv.mod)
        env.vars.update(vals)
        env.cls = fv.cls
        env.selfname = fv.node.args.args[0].arg if fv.node.args.args else None
        isgen = self.is_generator(fv.node)
        self.depth += 1
        try:
            if isgen:
                self.emits.append([])
                try:
                    self.exec_block(fv.node.body, env)
                except ReturnEx:
                    pass
                finally:
                    br = self.emits.pop()
                return CompV(br)
            self.exec_block(fv.node.body, env)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.depth -= 1

    def is_generator(self, node):
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        return False

    # --------------------------------------------------------- contracts
    def wrap(self, v):
        """Engine value -> value seen by contracts (snapshot)."""
        if isinstance(v, SetBox):
            return v.view()
        if isinstance(v, ObjV):
            return ObjView(self, v)
        if isinstance(v, (SymList, ListV, SymMat)):
            return SeqView(self, v)
        if isinstance(v, dict):
            return {k: self.wrap(x) for k, x in v.items()}
        return v

    def unwrap(self, v, owner='fresh'):
        if isinstance(v, SetC):
            return SetBox(self, v.mem)
        return v

    def apply_contract(self, ct, vals):
        self.used_contracts.add(ct.qual)
        ctx = Ctx(self, ct, vals)
        ctx.at_call = True
        caller = self.verifying
        for name, f in ct.requires(ctx):
            self.oblige('%s/call %s/%s' % (caller, ct.qual, name), f)
            self.assume(f)
        anymode = self.need_order(ct)
        for exc, cond in ct.raises(ctx):
            if self.choose(self.L.B(cond)):
                raise RaiseEx(exc)
        eff = dict(ct.effect_any(ctx)) if anymode else ct.effect(ctx)
        if eff:
            self.apply_effect(ct, ctx, eff)
            if not anymode:
                self.note_order(ct)
        ctx.new = HeapView(self, dict(self.heap))
        ctx.post_args = {k: self.wrap(v) for k, v in vals.items()}
        res = ct.result(ctx)
        ctx.result = res
        if res is None and ct.result_kind is not None:
            val = self.fresh_result(ct, ctx)
            ctx.result = self.wrap(val)
            for name, f in ct.ensures(ctx):
                self.assume(self.L.B(f))
            return val
        for name, f in ct.ensures(ctx):
            self.assume(self.L.B(f))
        if isinstance(res, (Live, LiveSet)):
            return SetBox(self, None, loc=(res.field, res.ev), owner='heap')
        if isinstance(res, NoSpec):
            return res.make(self, ctx)
        return self.unwrap(res)

    ORDER = (('wf', '__wf', ('prec', 'succ', 'alloc')),
             ('linkok', '__link', ('prec', 'succ') + tuple(LINKF)))

    def good_order(self, key, fields):
        self.heap[key] = tuple(self.heap[f] for f in fields)

    def is_good(self, key, fields):
        g = self.heap.get(key)
        return g is not None and all(a is self.heap[f] for a, f in zip(g, fields))

    def need_order(self, ct):
        """A callee proved under the assumption that the events form an order (with correct
        link memory) may only be called in such a state."""
        for hyp, key, fields in self.ORDER:
            if hyp not in ct.hyps or ct.opts.get('any_state') or self.is_good(key, fields):
                continue
            if hyp == 'linkok' and ct.effect_any:
                n, f = linkok(HeapView(self, dict(self.heap)))[0]
                self.oblige('%s/call %s/order:%s' % (self.verifying, ct.qual, n), f)
                self.assume(f)
                return True
            for n, f in (wf if hyp == 'wf' else linkok)(HeapView(self, dict(self.heap))):
                self.oblige('%s/call %s/order:%s' % (self.verifying, ct.qual, n), f)
                self.assume(f)
            self.good_order(key, fields)
        return False

    def note_order(self, ct):
        """After the call of a proved function the events form an order again."""
        for hyp, key, fields in self.ORDER:
            if hyp not in ct.hyps or ct.opts.get('no_order') or ct.opts.get('any_state') or \
                    self.is_good(key, fields):
                continue
            for n, f in (wf if hyp == 'wf' else linkok)(HeapView(self, dict(self.heap))):
                if hyp == 'wf':
                    self.assume(f)
                else:
                    self.assume_link(f)
            self.good_order(key, fields)

    def fresh_result(self, ct, ctx):
        k = ct.result_kind
        if k == 'set':
            F = self.fresh_fun('res', Ev, z3.BoolSort())
            return SetBox(self, lambda x: F(x))
        if k == 'bool':
            return self.fresh('res', z3.BoolSort())
        if k == 'int':
            return self.fresh('res', z3.IntSort())
        if k == 'real':
            return self.fresh('res', z3.RealSort())
        if k == 'event':
            return self.fresh('res', Ev)
        if k == 'reals':
            n = self.fresh('len', z3.IntSort())
            self.assume(n >= 0)
            G = self.fresh_fun('res', z3.IntSort(), z3.RealSort())
            return SymList(self, n, lambda i: G(self.as_term(i)), esort=z3.RealSort())
        if k == 'evlist':
            n = self.fresh('len', z3.IntSort())
            self.assume(n >= 0)
            G = self.fresh_fun('res', z3.IntSort(), Ev)
            r = SymList(self, n, lambda i: G(self.as_term(i)), esort=Ev)
            self.evlists.append((n, r.get))
            return r
        if k in ('causet', 'embcauset', 'sprcauset'):
            cls = {'causet': 'Causet', 'embcauset': 'EmbeddedCauset',
                   'sprcauset': 'SprinkledCauset'}[k]
            F = self.fresh_fun('res_events', Ev, z3.BoolSort())
            return ObjV(self, cls, {'_events': SetBox(self, lambda x: F(x), owner='attr')})
        if k == 'setlist':
            n = self.fresh('len', z3.IntSort())
            self.assume(n >= 0)
            G = self.fresh_fun('elems', z3.IntSort(), Ev, z3.BoolSort())
            r = ListV(self, [])
            r.base = ListBase(n, lambda i, x: G(self.as_term(i), x), 'set')
            self.setlists.append(r)
            return r
        if callable(k):
            return k(self, ctx)
        raise Unsupported('result kind %r' % (k,))

    def apply_effect(self, ct, ctx, eff):
        links = eff.get('links')
        if eff.get('newevents'):
            self.new_events(eff)
        for f, g in eff.items():
            if f in ('links', 'newevents', 'havoc_events'):
                continue
            if f == 'files':
                for an, make in g.items():
                    ctx.vals[an].write(make(self))
                continue
            if f == 'events':         # dict: arg name -> SetC
                for an, s in g.items():
                    o = ctx.vals[an]
                    box = o.attrs['_events'] if isinstance(o, ObjV) else o
                    box.set(s.mem)
            elif f == 'attrs':
                for (an, at), v in g.items():
                    ctx.vals[an].attrs[at] = self.unwrap(v)
            else:
                if f in LINKF:
                    self.link_direct = True
                if f in REL:
                    for m in self.mut:
                        if isinstance(m, SetBox) and m.loc is not None and m.loc[0] == f:
                            m.frozen_alias = True
                self.heap[f] = g
        for an in eff.get('havoc_events', ()):
            F = self.fresh_fun('events', Ev, z3.BoolSort())
            ctx.vals[an].attrs['_events'] = SetBox(self, (lambda F: lambda x: F(x))(F), owner='attr')
        if links:
            self.havoc_links(monotone=(links == 'lazy'))
            if links != 'lazy':
                self.link_direct = True

    def new_events(self, eff):
        """Some events are created: everything about them is arbitrary."""
        from .loops import arg_sorts
        L, old = self.L, dict(self.heap)
        for f in ALL_FIELDS:
            if f in eff or f in LINKF and eff.get('links'):
                continue
            srt = {'clen': z3.IntSort(), 'plen': z3.IntSort(), 'label': Val,
                   'cget': z3.RealSort(), 'pget': z3.RealSort()}.get(f, z3.BoolSort())
            F = self.fresh_fun('new_' + f, *(arg_sorts(f) + [srt]))
            if f == 'alloc':
                self.heap[f] = (lambda F, g: lambda e: L.Or(g(e), F(e)))(F, old[f])
            else:
                self.heap[f] = (lambda F, g: lambda e, *x: L.If(
                    old['alloc'](e), g(e, *x), F(e, *[self.as_term(y) for y in x])))(F, old[f])

    def havoc_links(self, monotone=True):
        """Link memory becomes arbitrary, subject to being correct; more events
        may be linked than before."""
        L = self.L
        old = dict(self.heap)
        B = z3.BoolSort()
        HL = self.fresh_fun('lk', Ev, B)
        lp = self.fresh_fun('lkp', Ev, Ev, B)
        ls = self.fresh_fun('lks', Ev, Ev, B)
        self.heap['has_lprec'] = lambda c: HL(c)
        self.heap['has_lsucc'] = lambda c: HL(c)
        self.heap['lprec'] = lambda c, x: lp(c, x)
        self.heap['lsucc'] = lambda c, x: ls(c, x)
        hv = HeapView(self, dict(self.heap))
        for n, f in linkok(hv):
            self.assume_link(f)
        self.good_order(self.ORDER[1][1], self.ORDER[1][2])
        if monotone:
            self.assume_link(L.forall(lambda e: L.Implies(old['has_lprec'](e), HL(e))))
        self.link_lazy = True

    def assume_link(self, f):
        self.linkfacts.add(f.get_id())
        self.linkkeep.append(f)
        self.assume(f)

    def detach(self, f, e):
        """The object stored in field f of e is replaced: sets obtained from the
        attribute before keep the old object."""
        L = self.L
        old = self.heap[f]
        for m in self.mut:
            if isinstance(m, SetBox) and m.loc is not None and m.loc[0] == f:
                le = m.loc[1]
                if le.eq(e):
                    m._mem = (lambda le: lambda x: old(le, x))(le)
                    m.loc = None
                    m.owner = 'stale'
                elif not self.distinct_events(le, e):
                    m._mem = (lambda le: lambda x: L.If(L.Eq(le, e), old(le, x),
                                                        self.heap[f](le, x)))(le)
                    m.loc = None
                    m.frozen_alias = True

    def distinct_events(self, a, b):
        ne = self.L.Not(self.L.Eq(a, b))
        return any(en[0] in ('cond', 'fact') and en[1].eq(ne) for en in self.trace)

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, 'x_' + s.__class__.__name__, None)
        if m is None:
            raise Unsupported('statement ' + s.__class__.__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Assert(self, s, env):
        v = self.truth(self.eval(s.test, env))
        if not self.choose(v):
            raise RaiseEx('AssertionError')

    def x_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else None)

    def x_Global(self, s, env):
        env.globalnames = getattr(env, 'globalnames', set()) | set(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def x_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name.split('.')[0]] = ModV(a.name)

    def x_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.import_name(s.module, a.name)

    def x_FunctionDef(self, s, env):
        cls = getattr(env, 'cls', None)
        fv = FuncV(s, env, env.mod, '%s.<local>.%s' % (self.verifying, s.name))
        fv.cls = cls
        env.vars[s.name] = fv

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                self.del_attr(self.eval(t.value, env), t.attr)
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def set_name(self, name, v, env):
        if name in env.nonlocals:
            e = env.parent.find(name) if env.parent else None
            if e is None:
                raise Unsupported('nonlocal ' + name)
            e.vars[name] = v
            return
        if name in getattr(env, 'globalnames', ()):
            self.set_global(env.mod, name, v)
            return
        env.vars[name] = v

    def set_global(self, mod, name, v):
        me = self.module_env(mod)
        if me not in self.mut:
            self.mut.append(me)
        me.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for tt, vv in zip(t.elts, items):
                self.assign(tt, vv, env)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.set_item(o, self.eval_index(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            v = list(v)
        elif isinstance(v, ListV):
            v = list(v.items)
        if isinstance(v, list):
            if len(v) != n:
                raise RaiseEx('ValueError')
            return v
        raise Unsupported('unpacking %r' % (v,))

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            r = self.eval(s.value, env)
            nv = self.inplace(s.op, cur, r)
            if nv is not cur:
                self.set_name(t.id, nv, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.get_attr(o, t.attr)
            r = self.eval(s.value, env)
            nv = self.inplace(s.op, cur, r)
            if nv is not cur:
                self.set_attr(o, t.attr, nv)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ix = self.eval_index(t.slice, env)
            cur = self.get_item(o, ix)
            r = self.eval(s.value, env)
            nv = self.inplace(s.op, cur, r)
            self.set_item(o, ix, nv)
        else:
            raise Unsupported('augmented assignment target')

    SETOPS = {ast.BitOr: 'or', ast.BitAnd: 'and', ast.Sub: 'sub', ast.BitXor: 'xor'}

    def inplace(self, op, cur, r):
        if isinstance(cur, SetBox) and type(op) in self.SETOPS:
            rb = self.as_setbox_operand(r)
            if rb is not None:
                m = self.set_op(self.SETOPS[type(op)], cur.cur(), rb.cur())
                cur.set(m)
                return cur
        if isinstance(cur, ListV) and isinstance(op, ast.Add) and not cur.tup:
            if isinstance(r, ListV):
                cur.items.extend(r.items)
                return cur
        if isinstance(cur, SymList) and cur.kind == 'list' and isinstance(op, ast.Add) and \
                isinstance(r, (SymList, ListV)):
            from .arrays import concat
            if self.loopdepth:
                raise NeedInvariant('list extended in a loop')
            nv = concat(self, cur, r)
            cur.length, cur.get, cur.bag, cur.esort, cur.info = \
                nv.length, nv.get, nv.bag, nv.esort, nv.info
            return cur
        if isinstance(cur, SymMat) and isinstance(op, ast.BitOr):
            nv = self.binop(op, cur, r)
            cur.get = nv.get
            return cur
        if isinstance(cur, (SymList, SymMat)) and getattr(cur, 'kind', 'array') == 'array':
            nv = self.binop(op, cur, r)
            cur.get = nv.get
            return cur
        return self.binop(op, cur, r)

    def x_If(self, s, env):
        if self.decide(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Raise(self, s, env):
        if s.exc is None:
            if self.current_exc:
                raise RaiseEx(self.current_exc)
            raise Unsupported('bare raise')
        e = s.exc
        if isinstance(e, ast.Call):
            for a in e.args:
                try:
                    self.eval(a, env)
                except Unsupported:
                    pass
            e = e.func
        if isinstance(e, ast.Name):
            raise RaiseEx(e.id, s)
        raise Unsupported('raise')

    EXC_PARENTS = {'KeyError': ['LookupError'], 'IndexError': ['LookupError'],
                   'ZeroDivisionError': ['ArithmeticError'], 'OverflowError': ['ArithmeticError'],
                   'NotImplementedError': ['RuntimeError']}

    def x_Try(self, s, env):
        try:
            self.exec_block(s.body, env)
            self.exec_block(s.orelse, env)
        except RaiseEx as r:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ['Exception']
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                elif isinstance(h.type, ast.Tuple):
                    names = [e.id for e in h.type.elts]
                else:
                    raise Unsupported('except clause')
                if r.etype in names or 'Exception' in names or 'BaseException' in names or \
                        any(p in names for p in self.EXC_PARENTS.get(r.etype, [])):
                    if h.name:
                        env.vars[h.name] = StrV()
                    prev = self.current_exc
                    self.current_exc = r.etype
                    try:
                        self.exec_block(h.body, env)
                    finally:
                        self.current_exc = prev
                    break
            else:
                if s.finalbody:
                    self.exec_block(s.finalbody, env)
                raise
        if s.finalbody:
            self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        raise Unsupported('with')

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    # --------------------------------------------------------------- loops
    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        broke = self.for_loop(it, lambda v: self.assign(s.target, v, env),
                              lambda: self.exec_block(s.body, env), env, node=s)
        if s.orelse and not broke:
            self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        from .loops import while_loop
        broke = while_loop(self, s, env)
        if s.orelse and not broke:
            self.exec_block(s.orelse, env)

    def for_loop(self, it, bind, body, env, node=None):
        from .loops import for_loop
        return for_loop(self, it, bind, body, env, node)

    # --------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression ' + e.__class__.__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, (int, float, str, bool, type(None))):
            return e.value
        raise Unsupported('constant %r' % (e.value,))

    def load_name(self, name, env):
        sc = env.find(name)
        if sc is not None:
            v = sc.vars[name]
            if v is POISON:
                raise Unsupported('use of a loop variable after the loop: ' + name)
            return v
        return self.load_global(name, env.mod)

    def load_global(self, name, mod):
        me = self.module_env(mod)
        if name in me.vars:
            return me.vars[name]
        if (mod, name) in self.prog.funcs:
            return FuncV(self.prog.funcs[(mod, name)], me, mod, '%s.%s' % (mod, name))
        if name in self.prog.classes and (self.prog.classes[name]['mod'] == mod or
                                          self.imports_name(mod, name)):
            return ClassV(name)
        if mod in self.prog.mods:
            for st in self.prog.mods[mod].body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)):
                    tg = st.targets[0] if isinstance(st, ast.Assign) else st.target
                    if isinstance(tg, ast.Name) and tg.id == name and st.value is not None:
                        v = self.eval(st.value, me)
                        return v
                elif isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        if (a.asname or a.name) == name:
                            return self.import_name(st.module, a.name)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if (a.asname or a.name.split('.')[0]) == name:
                            return ModV(a.name)
        from .builtins_model import BUILTINS
        if name in BUILTINS:
            return Builtin(name, BUILTINS[name])
        raise Unsupported('name ' + name)

    def imports_name(self, mod, name):
        for st in self.prog.mods[mod].body:
            if isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if (a.asname or a.name) == name:
                        return True
        return False

    def import_name(self, module, name):
        short = (module or '').split('.')[-1]
        if name in self.prog.classes:
            return ClassV(name)
        if (short, name) in self.prog.funcs:
            return FuncV(self.prog.funcs[(short, name)], self.module_env(short), short,
                         '%s.%s' % (short, name))
        if name in self.prog.mods:
            return ModV(name)
        from .builtins_model import module_attr
        return module_attr(self, module or '', name)

    def e_Name(self, e, env):
        if e.id in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[e.id]
        return self.load_name(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.eval(x, env) for x in self.nostar(e.elts))

    def nostar(self, elts):
        if any(isinstance(x, ast.Starred) for x in elts):
            raise Unsupported('starred')
        return elts

    def e_List(self, e, env):
        return ListV(self, [self.eval(x, env) for x in self.nostar(e.elts)])

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.eval(k, env)
            if not isinstance(kk, (str, int)):
                raise Unsupported('dict key')
            d[kk] = self.eval(v, env)
        return DictV(self, d)

    def e_Set(self, e, env):
        vals = [self.eval(x, env) for x in self.nostar(e.elts)]
        return self.set_of(vals)

    def set_of(self, vals):
        if all(isinstance(v, (str, int, float, bool)) for v in vals):
            return frozenset(vals)
        if all(is_ev(v) for v in vals):
            L = self.L
            return SetBox(self, lambda x: L.Or(*[L.Eq(x, v) for v in vals]))
        raise Unsupported('set display')

    def e_Lambda(self, e, env):
        return FuncV(e, env, env.mod, '<lambda>')

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        r = self.try_merge(c, lambda: self.eval(e.body, env), lambda: self.eval(e.orelse, env))
        if r is not None:
            return r[0]
        if self.choose(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def try_merge(self, c, fa, fb):
        """Merge two pure branches into one value when both are bool/num."""
        if not z3.is_expr(c) or z3.is_true(c) or z3.is_false(c):
            return None
        va = self.pure_value(c, fa)
        if va is None:
            return None
        vb = self.pure_value(self.L.Not(c), fb)
        if vb is None:
            return None
        (a, fa_), (b, fb_) = va, vb
        if is_bool(a) and is_bool(b):
            v = self.L.If(c, self.L.B(a), self.L.B(b))
        elif isinstance(a, ExtV) or isinstance(b, ExtV):
            if not all(isinstance(q, ExtV) or is_num(q) for q in (a, b)):
                return None
            v = ext_if(self, c, a, b)
        elif is_num(a) and is_num(b) and not isinstance(a, bool):
            if (isinstance(a, float) and math.isinf(a)) or (isinstance(b, float) and math.isinf(b)):
                return None
            a, b = self.num_coerce(a, b)
            v = z3.If(c, a, b)
        elif is_ev(a) and is_ev(b):
            v = z3.If(c, a, b)
        elif z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            v = z3.If(c, a, b)
        else:
            return None
        self.trace.extend(fa_)
        self.trace.extend(fb_)
        return (v,)

    def pure_value(self, cond, thunk):
        """Evaluate thunk under cond; (value, facts) if it is a single pure
        exception-free path (or several boolean/number paths merged)."""
        mark = len(self.trace)
        snap = self.snapshot()

        def run():
            self.assume_cond(cond)
            return thunk()
        try:
            rs = self.explore(run)
        except NeedInvariant:
            raise
        if not rs:
            return None
        vals = []
        for r in rs:
            if r['out'][0] != 'ok' or r['emits']:
                return None
            h2, m2 = r['state']
            if any(h2[f] is not snap[0][f] for f in h2):
                return None
            for m, d in snap[1]:
                if not same_dump(m2[id(m)][1], d):
                    return None
            v = r['out'][1]
            if not (is_bool(v) or is_num(v) or is_ev(v) or
                    (z3.is_expr(v))):
                return None
            vals.append(v)
        entries = []
        L = self.L
        acc = None
        for r, v in zip(rs, vals):
            conds = []
            for en in r['entries']:
                if en[0] == 'cond':
                    conds.append(en[1])
                elif en[0] == 'fact':
                    entries.append(('fact', L.Implies(L.And(*conds), en[1])))
                else:
                    entries.append(en)
            g = L.And(*conds[1:]) if conds and conds[0].eq(cond) else L.And(*conds)
            if acc is None:
                acc = v
            else:
                if is_bool(acc) and is_bool(v):
                    acc = L.If(g, L.B(v), L.B(acc))
                elif isinstance(acc, ExtV) or isinstance(v, ExtV):
                    if not all(isinstance(q, ExtV) or is_num(q) for q in (acc, v)):
                        return None
                    acc = ext_if(self, g, v, acc)
                elif is_num(acc) and is_num(v):
                    if any(isinstance(q, float) and math.isinf(q) for q in (acc, v)):
                        return None
                    a, b = self.num_coerce(v, acc)
                    acc = z3.If(g, a, b)
                elif z3.is_expr(acc) and z3.is_expr(v) and acc.sort() == v.sort():
                    acc = z3.If(g, v, acc)
                else:
                    return None
        return acc, entries

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values, env)

    def boolop(self, isand, values, env):
        v = self.eval(values[0], env)
        if len(values) == 1:
            return v
        t = self.truth(v)
        if not z3.is_expr(t) or z3.is_true(t) or z3.is_false(t):
            t = t if isinstance(t, bool) else z3.is_true(t)
            if isand:
                return v if not t else self.boolop(isand, values[1:], env)
            return v if t else self.boolop(isand, values[1:], env)
        if is_bool(v):
            r = self.pure_value(t if isand else self.L.Not(t),
                                lambda: self.boolop(isand, values[1:], env))
            if r is not None and is_bool(r[0]):
                self.trace.extend(r[1])
                return self.L.And(t, self.L.B(r[0])) if isand else self.L.Or(t, self.L.B(r[0]))
        if self.choose(t):
            if isand:
                return self.boolop(isand, values[1:], env)
            return True if is_bool(v) else v
        if isand:
            return False if is_bool(v) else v
        return self.boolop(isand, values[1:], env)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else self.L.Not(t)
        if isinstance(e.op, ast.USub):
            if is_num(v):
                return -v
            if isinstance(v, SymList):
                g = v.get
                return SymList(self, v.length, lambda i: -g(i), kind='array', esort=v.esort)
        if isinstance(e.op, ast.UAdd) and is_num(v):
            return v
        if isinstance(e.op, ast.Invert) and z3.is_expr(v) and z3.is_bool(v):
            return self.L.Not(v)
        raise Unsupported('unary')

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op, a, b)

    def num_coerce(self, a, b):
        """Bring two numbers to common z3 sorts (or python)."""
        def conv(x):
            if isinstance(x, bool):
                return z3.IntVal(int(x))
            if isinstance(x, int):
                return z3.IntVal(x)
            if isinstance(x, float):
                return self.real_val(x)
            return x
        if not z3.is_expr(a) and not z3.is_expr(b):
            return a, b
        a, b = conv(a), conv(b)
        if z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a.sort() != b.sort():
            if a.sort() == z3.IntSort():
                a = z3.ToReal(a)
            if b.sort() == z3.IntSort():
                b = z3.ToReal(b)
        return a, b

    def real_val(self, x):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('infinite float in symbolic arithmetic')
        from fractions import Fraction
        f = Fraction(repr(x)) if 'e' not in repr(x) else Fraction(x).limit_denominator(10**15)
        f = Fraction(str(x))
        return z3.RealVal(str(f.numerator) + '/' + str(f.denominator))

    def exact(self, t, a, b):
        """Constant arithmetic on floats as on reals."""
        from fractions import Fraction
        x, y = [Fraction(repr(q)) if isinstance(q, float) else Fraction(q) for q in (a, b)]
        if t is ast.Div and y == 0:
            raise RaiseEx('ZeroDivisionError')
        r = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y,
             ast.Div: lambda: x / y}[t]()
        f = float(r)
        if Fraction(repr(f)) == r:
            return f
        return z3.RealVal('%d/%d' % (r.numerator, r.denominator))

    def set_op(self, op, a, b):
        L = self.L
        if op == 'or':
            return lambda x: L.Or(a(x), b(x))
        if op == 'and':
            return lambda x: L.And(a(x), b(x))
        if op == 'sub':
            return lambda x: L.And(a(x), L.Not(b(x)))
        return lambda x: L.Not(L.Iff(a(x), b(x)))

    def as_setbox_operand(self, v):
        if isinstance(v, SetBox):
            return v
        return None

    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, SetBox) and isinstance(b, SetBox) and t in self.SETOPS:
            return SetBox(self, self.set_op(self.SETOPS[t], a.cur(), b.cur()))
        if isinstance(a, ExtV) and (isinstance(b, ExtV) or is_num(b)) or isinstance(b, ExtV) and is_num(a):
            return self.arith(t, a, b)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            names = {ast.BitOr: 'or', ast.BitAnd: 'and', ast.Sub: 'sub', ast.BitXor: 'xor',
                     ast.Add: 'add', ast.Mult: 'mul'}
            nm = names.get(t)
            if nm and isinstance(a, ObjV) and self.prog.lookup(a.cls, '__%s__' % nm):
                return self.call_method(a, a.cls, '__%s__' % nm, [b], {})
            if nm and isinstance(b, ObjV) and self.prog.lookup(b.cls, '__r%s__' % nm):
                return self.call_method(b, b.cls, '__r%s__' % nm, [a], {})
            raise RaiseEx('TypeError')
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, StrV) or isinstance(b, StrV):
            if isinstance(a, str) and isinstance(b, str) and t is ast.Add:
                return a + b
            if isinstance(a, str) and t is ast.Mod:
                return StrV()
            if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)) and t is ast.Add:
                return StrV()
            raise Unsupported('string operation')
        if isinstance(a, ListV) and isinstance(b, ListV) and t is ast.Add:
            return ListV(self, a.items + b.items, tup=a.tup)
        if t is ast.Add and isinstance(a, (SymList, ListV)) and isinstance(b, (SymList, ListV)) and \
                getattr(a, 'kind', 'list') == 'list' and getattr(b, 'kind', 'list') == 'list':
            from .arrays import concat
            return concat(self, a, b)
        if isinstance(a, ListV) and t is ast.Mult and isinstance(b, int):
            return ListV(self, a.items * b)
        if isinstance(a, ListV) and t is ast.Mult and z3.is_expr(b) and len(a.items) == 1:
            it = a.items[0]
            n = z3.If(b > 0, b, z3.IntVal(0))
            return SymList(self, n, lambda i: it)
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        if is_num(a) and is_num(b) or (is_bool(a) and is_num(b)) or (is_num(a) and is_bool(b)):
            return self.arith(t, a, b)
        if is_bool(a) and is_bool(b):
            if t is ast.BitAnd:
                return self.L.And(a, b)
            if t is ast.BitOr:
                return self.L.Or(a, b)
            if t is ast.BitXor:
                return self.L.Not(self.L.Iff(a, b))
            return self.arith(t, a, b)
        from .builtins_model import array_binop
        r = array_binop(self, t, a, b)
        if r is not None:
            return r
        raise Unsupported('binary %s on %s, %s' % (t.__name__, type(a).__name__, type(b).__name__))

    def arith(self, t, a, b):
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            if t is ast.Sub and isinstance(b, ExtV) or t not in (ast.Add, ast.Sub):
                raise Unsupported('inf arithmetic')
            x, y = ext_of(self, a), ext_of(self, b)
            return ExtV(self.L.Or(x.inf, y.inf), x.val + y.val if t is ast.Add else x.val - y.val)
        if not z3.is_expr(a) and not z3.is_expr(b):
            if (isinstance(a, float) or isinstance(b, float) or t is ast.Div) and \
                    t in (ast.Add, ast.Sub, ast.Mult, ast.Div) and not any(
                        isinstance(q, float) and (math.isinf(q) or math.isnan(q)) for q in (a, b)):
                return self.exact(t, a, b)
            try:
                if t is ast.Add: return a + b
                if t is ast.Sub: return a - b
                if t is ast.Mult: return a * b
                if t is ast.Div: return a / b
                if t is ast.FloorDiv: return a // b
                if t is ast.Mod: return a % b
                if t is ast.Pow: return a ** b
                if t is ast.BitAnd: return a & b
                if t is ast.BitOr: return a | b
            except ZeroDivisionError:
                raise RaiseEx('ZeroDivisionError')
            raise Unsupported('arith')
        if t is ast.Pow:
            from .builtins_model import sym_pow
            return sym_pow(self, a, b)
        if any(isinstance(x, float) and math.isinf(x) for x in (a, b)):
            # inf +- finite
            if t is ast.Add:
                return a if isinstance(a, float) and math.isinf(a) else b
            if t is ast.Sub:
                return a if isinstance(a, float) and math.isinf(a) else -b
            raise Unsupported('inf arithmetic')
        a, b = self.num_coerce(a, b)
        if t is ast.Add: return a + b
        if t is ast.Sub: return a - b
        if t is ast.Mult: return a * b
        if t is ast.Div:
            if self.choose(b == 0):
                raise RaiseEx('ZeroDivisionError')
            if a.sort() == z3.IntSort():
                a = z3.ToReal(a)
            if b.sort() == z3.IntSort():
                b = z3.ToReal(b)
            return a / b
        if t is ast.FloorDiv:
            if a.sort() == z3.IntSort():
                if self.choose(b == 0):
                    raise RaiseEx('ZeroDivisionError')
                if z3.is_int_value(b) and b.as_long() > 0:
                    return a / b
        if t is ast.Mod:
            if a.sort() == z3.IntSort() and z3.is_int_value(b) and b.as_long() > 0:
                return a % b
        raise Unsupported('arith %s' % t.__name__)

    # comparisons
    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            res = v if res is None else self.L.And(self.L.B(res) if is_bool(res) else res,
                                                   self.L.B(v))
            left = right
        if z3.is_true(res):
            return True
        if z3.is_false(res):
            return False
        return res

    def py(self, t):
        if z3.is_expr(t) and z3.is_true(t):
            return True
        if z3.is_expr(t) and z3.is_false(t):
            return False
        return t

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = self.identical(a, b)
            return r if t is ast.Is else self.py(self.L.Not(r))
        if t is ast.In or t is ast.NotIn:
            r = self.contains(b, a)
            return self.py(r) if t is ast.In else self.py(self.L.Not(r))
        if t is ast.Eq or t is ast.NotEq:
            r = self.equal(a, b)
            return self.py(r) if t is ast.Eq else self.py(self.L.Not(r))
        names = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
        refl = {ast.Lt: '__gt__', ast.LtE: '__ge__', ast.Gt: '__lt__', ast.GtE: '__le__'}
        if is_ev(a) and is_ev(b):
            if self.prog.lookup('CausetEvent', names[t]):
                return self.call_method(a, 'CausetEvent', names[t], [b], {})
            if self.prog.lookup('CausetEvent', refl[t]):
                return self.call_method(b, 'CausetEvent', refl[t], [a], {})
            raise RaiseEx('TypeError')
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            if not z3.is_expr(a) and not z3.is_expr(b):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
            for x, y, flip in ((a, b, False), (b, a, True)):
                if isinstance(x, float) and math.isinf(x):
                    big = x > 0
                    tt = t
                    # x is +-inf, the other finite
                    if not flip:
                        return {ast.Lt: not big, ast.LtE: not big, ast.Gt: big, ast.GtE: big}[tt]
                    return {ast.Lt: big, ast.LtE: big, ast.Gt: not big, ast.GtE: not big}[tt]
            a, b = self.num_coerce(a, b)
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            if t in (ast.Gt, ast.GtE):
                a, b = b, a
            return self.py(ext_less(self, a, b, t in (ast.Lt, ast.Gt)))
        if isinstance(a, SetBox) and isinstance(b, SetBox):
            x = self.L.fresh_ev()
            ca, cb = a.cur(), b.cur()
            sub = z3.ForAll([x], self.L.Implies(ca(x), cb(x)))
            sup = z3.ForAll([x], self.L.Implies(cb(x), ca(x)))
            return {ast.LtE: sub, ast.GtE: sup, ast.Lt: z3.And(sub, z3.Not(sup)),
                    ast.Gt: z3.And(sup, z3.Not(sub))}[t]
        from .builtins_model import array_compare
        r = array_compare(self, t, a, b)
        if r is not None:
            return r
        raise Unsupported('comparison')

    def identical(self, a, b):
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if z3.is_expr(o) and o.sort() == Val:
                return o == Val.vnone
            return False
        if is_ev(a) and is_ev(b):
            return self.py(self.L.Eq(a, b))
        if isinstance(a, (ObjV, SetBox, ListV, SymList)) or isinstance(b, (ObjV, SetBox, ListV)):
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return self.equal(a, b)
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a.name == b.name
        raise Unsupported('is')

    def to_val(self, v):
        if v is None:
            return Val.vnone
        if z3.is_expr(v):
            if v.sort() == Val:
                return v
            if z3.is_int(v):
                return Val.vint(v)
        if isinstance(v, bool):
            raise Unsupported('bool label')
        if isinstance(v, int):
            return Val.vint(z3.IntVal(v))
        if isinstance(v, str):
            return Val.vstr(self.strconst(v))
        if isinstance(v, LabFmt):
            return Val.vstr(v.term)
        if isinstance(v, StrV):
            return Val.vstr(self.fresh('lab', LabStr))
        raise Unsupported('label value %r' % (v,))

    def strconst(self, s):
        d = self.globals.setdefault('strs', {})
        if s not in d:
            d[s] = z3.Const('str_' + (s if s else 'empty'), LabStr)
        return d[s]

    def equal(self, a, b):
        if a is None or b is None:
            return self.identical(a, b)
        if isinstance(a, ExtV) or isinstance(b, ExtV):
            if not all(isinstance(q, ExtV) or is_num(q) for q in (a, b)):
                raise Unsupported('comparison with a number')
            return self.py(ext_equal(self, a, b))
        if isinstance(a, FmtStr) and b == '' or isinstance(b, FmtStr) and a == '':
            return False
        if is_ev(a) and is_ev(b):
            if self.prog.lookup('CausetEvent', '__eq__') or \
                    self.prog.lookup('CausetEvent', '__hash__'):
                raise Unsupported('user-defined event equality')
            return self.py(self.L.Eq(a, b))
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            if not z3.is_expr(a) and not z3.is_expr(b):
                return a == b
            if is_bool(a) and is_bool(b):
                return self.py(self.L.Iff(self.L.B(a), self.L.B(b)))
            for x in (a, b):
                if isinstance(x, float) and math.isinf(x):
                    return False
            a, b = self.num_coerce(a, b)
            return self.py(z3.simplify(a == b)) if (z3.is_int_value(a) and z3.is_int_value(b)) else a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if z3.is_expr(a) and a.sort() == Val or z3.is_expr(b) and b.sort() == Val:
            return self.to_val(a) == self.to_val(b)
        if isinstance(a, str) and not isinstance(b, (StrV, LabFmt)) or \
                isinstance(b, str) and not isinstance(a, (StrV, LabFmt)):
            if z3.is_expr(a) or z3.is_expr(b):
                raise Unsupported('string equality')
            return False
        if isinstance(a, SetBox) and isinstance(b, SetBox):
            return a.view().eq(b.view())
        if isinstance(a, ListV) and isinstance(b, ListV) or isinstance(a, tuple) and isinstance(b, tuple):
            ia = a.items if isinstance(a, ListV) else a
            ib = b.items if isinstance(b, ListV) else b
            if len(ia) != len(ib):
                return False
            return self.py(self.L.And(*[self.L.B(self.equal(x, y)) for x, y in zip(ia, ib)]))
        from .builtins_model import array_compare
        r = array_compare(self, ast.Eq, a, b)
        if r is not None:
            return r
        raise Unsupported('== on %s, %s' % (type(a).__name__, type(b).__name__))

    def contains(self, s, x):
        L = self.L
        if isinstance(s, SetBox):
            if is_ev(x) and s.sort == Ev:
                return s.mem(x)
            if z3.is_expr(x) and x.sort() == s.sort:
                return s.mem(x)
            if s.sort == Ev:
                return False
        if isinstance(s, frozenset):
            if not z3.is_expr(x) and not isinstance(x, (StrV, LabFmt)):
                return x in s
            return L.Or(*[L.B(self.equal(x, c)) for c in sorted(s, key=str)])
        if isinstance(s, (ListV, tuple)):
            items = s.items if isinstance(s, ListV) else s
            return L.Or(*[L.B(self.equal(x, c)) for c in items])
        if isinstance(s, SymList):
            if s.bag is not None:
                return s.bag(x)
            i = z3.Const(self.fresh_name('i'), z3.IntSort())
            v = s.get(i)
            return z3.Exists([i], z3.And(i >= 0, i < s.length, L.B(self.equal(v, x))))
        if isinstance(s, DictV):
            return x in s.d
        if isinstance(s, dict):
            return x in s
        if isinstance(s, str) and isinstance(x, str):
            return x in s
        if isinstance(s, ObjV):
            if self.prog.lookup(s.cls, '__contains__'):
                r = self.call_method(s, s.cls, '__contains__', [x], {})
                return self.truth(r)
        raise Unsupported('in %s' % type(s).__name__)

    # attributes
    def e_Attribute(self, e, env):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and \
                e.value.func.id == 'super' and not e.value.args:
            sc = env
            while sc is not None and not hasattr(sc, 'selfname'):
                sc = sc.parent
            selfv = sc.vars[sc.selfname]
            return SuperV(selfv, sc.cls, e.attr)
        o = self.eval(e.value, env)
        return self.get_attr(o, e.attr)

    def get_attr(self, o, name):
        from .builtins_model import value_attr, module_attr
        if isinstance(o, ModV):
            short = o.name.split('.')[-1]
            if short in self.prog.mods:
                if name in self.prog.classes:
                    return ClassV(name)
                return self.load_global(name, short)
            return module_attr(self, o.name, name)
        if is_ev(o):
            return self.ev_attr(o, name)
        if isinstance(o, ObjV):
            if name in o.attrs:
                return o.attrs[name]
            r = self.prog.lookup(o.cls, name)
            if r is None:
                if name == '__class__':
                    return ClassV(o.cls)
                raise RaiseEx('AttributeError')
            c, kind, node = r
            mod = self.prog.classes[c]['mod']
            fv = FuncV(node, self.module_env(mod), mod, self.qualname(c, name), cls=c)
            if kind == 'property':
                return self.call(fv, [o], {})
            if kind == 'staticmethod':
                return fv
            if kind == 'classmethod':
                fv.bound = ClassV(o.cls)
                return fv
            if kind == 'method':
                fv.bound = o
                return fv
            if kind == 'const':
                return self.eval(node, self.module_env(mod))
            raise Unsupported('member ' + name)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            r = self.prog.lookup(o.name, name)
            if r is None:
                from .builtins_model import class_attr
                return class_attr(self, o.name, name)
            c, kind, node = r
            mod = self.prog.classes[c]['mod']
            fv = FuncV(node, self.module_env(mod), mod, self.qualname(c, name), cls=c)
            if kind == 'classmethod':
                fv.bound = o
            return fv
        return value_attr(self, o, name)

    def ev_attr(self, e, name):
        if name in FIELD_OF_ATTR:
            if name in FLAG_OF_ATTR:
                if not self.choose(self.heap[FLAG_OF_ATTR[name]](e)):
                    raise RaiseEx('AttributeError')
            return SetBox(self, None, loc=(FIELD_OF_ATTR[name], e), owner='heap')
        if name in SEQ_OF_ATTR:
            if not self.choose(self.heap[FLAG_OF_ATTR[name]](e)):
                raise RaiseEx('AttributeError')
            ln, gt = SEQ_OF_ATTR[name]
            hl, hg = self.heap[ln], self.heap[gt]
            r = SymList(self, hl(e), lambda i: hg(e, i), esort=z3.RealSort(), owner='heap')
            r.info['live'] = (name, e)
            return r
        if name == 'Label':
            return self.heap['label'](e)
        if name == '__class__':
            return ClassV('CausetEvent')
        r = self.prog.lookup('CausetEvent', name)
        if r is None:
            raise RaiseEx('AttributeError')
        c, kind, node = r
        mod = self.prog.classes[c]['mod']
        fv = FuncV(node, self.module_env(mod), mod, self.qualname(c, name), cls=c)
        if kind == 'property':
            return self.call(fv, [e], {})
        if kind == 'staticmethod':
            return fv
        if kind == 'classmethod':
            fv.bound = ClassV('CausetEvent')
            return fv
        if kind == 'method':
            fv.bound = e
            return fv
        raise Unsupported('event attribute ' + name)

    def set_attr(self, o, name, v):
        if is_ev(o):
            if name in FIELD_OF_ATTR:
                if isinstance(v, frozenset) and not v:
                    v = SetBox(self, lambda x: self.L.false)
                if not isinstance(v, SetBox):
                    raise Unsupported('event set attribute := %s' % type(v).__name__)
                f = FIELD_OF_ATTR[name]
                if v.loc is not None:
                    if v.loc[0] == f and v.loc[1].eq(o):
                        return
                    self.oblige('%s/set-not-shared(%s)' % (self.verifying, name),
                                self.L.false)
                elif v.owner != 'fresh':
                    self.oblige('%s/set-not-shared(%s)' % (self.verifying, name),
                                self.L.false)
                self.detach(f, o)
                self.heap_write_rel(f, o, v.cur())
                if v.loc is None and v.owner == 'fresh':
                    v.loc = (f, o)
                if name in FLAG_OF_ATTR:
                    self.heap_write_flag(FLAG_OF_ATTR[name], o, True)
                return
            if name in SEQ_OF_ATTR:
                from .builtins_model import as_seq
                s = as_seq(self, v)
                if getattr(s, 'owner', 'fresh') != 'fresh':
                    self.oblige('%s/list-not-shared(%s)' % (self.verifying, name), self.L.false)
                ln, gt = SEQ_OF_ATTR[name]
                L = self.L
                ol, og = self.heap[ln], self.heap[gt]
                n, g = s.length, s.get
                if isinstance(n, int):
                    n = z3.IntVal(n)
                self.heap[ln] = lambda c: L.If(L.Eq(c, o), n, ol(c))

                def rg(i):
                    r = g(i)
                    if not z3.is_expr(r):
                        r = self.real_val(float(r))
                    return z3.ToReal(r) if z3.is_int(r) else r
                self.heap[gt] = lambda c, i: L.If(L.Eq(c, o), rg(i), og(c, i))
                self.heap_write_flag(FLAG_OF_ATTR[name], o, True)
                return
            if name == 'Label':
                val = self.to_val(v)
                old = self.heap['label']
                L = self.L
                self.heap['label'] = lambda c: L.If(L.Eq(c, o), val, old(c))
                return
            r = self.prog.lookup('CausetEvent', name + '=')
            if r is not None:
                c, kind, node = r
                mod = self.prog.classes[c]['mod']
                fv = FuncV(node, self.module_env(mod), mod, self.qualname(c, name + '='), cls=c)
                self.call(fv, [o, v], {})
                return
            raise Unsupported('new event attribute ' + name)
        if isinstance(o, ObjV):
            r = self.prog.lookup(o.cls, name + '=')
            if r is not None:
                raise Unsupported('setter')
            o.attrs[name] = v
            if isinstance(v, SetBox) and v.owner == 'fresh' and v.loc is None:
                pass
            return
        raise Unsupported('setattr on %s' % type(o).__name__)

    def has_attr(self, o, name):
        if is_ev(o):
            if name in FLAG_OF_ATTR:
                return self.heap[FLAG_OF_ATTR[name]](o)
            if name in FIELD_OF_ATTR or name == 'Label':
                return True
            return self.prog.lookup('CausetEvent', name) is not None
        if isinstance(o, ObjV):
            return name in o.attrs or self.prog.lookup(o.cls, name) is not None
        raise Unsupported('hasattr')

    def del_attr(self, o, name):
        if is_ev(o):
            if name in FLAG_OF_ATTR:
                if not self.choose(self.heap[FLAG_OF_ATTR[name]](o)):
                    raise RaiseEx('AttributeError')
                self.heap_write_flag(FLAG_OF_ATTR[name], o, False)
                return
            raise Unsupported('del event attribute')
        if isinstance(o, ObjV):
            if name not in o.attrs:
                raise RaiseEx('AttributeError')
            del o.attrs[name]
            return
        raise Unsupported('delattr')

    # subscripts
    def eval_index(self, sl, env):
        if isinstance(sl, ast.Slice):
            return ('slice', self.eval(sl.lower, env) if sl.lower else None,
                    self.eval(sl.upper, env) if sl.upper else None,
                    self.eval(sl.step, env) if sl.step else None)
        if isinstance(sl, ast.Tuple):
            return ('tuple',) + tuple(self.eval_index(x, env) for x in sl.elts)
        return self.eval(sl, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.get_item(o, self.eval_index(e.slice, env))

    def get_item(self, o, ix):
        from .builtins_model import get_item
        return get_item(self, o, ix)

    def set_item(self, o, ix, v):
        from .builtins_model import set_item
        return set_item(self, o, ix, v)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            elif isinstance(v, ast.FormattedValue):
                try:
                    x = self.eval(v.value, env)
                except RaiseEx:
                    raise
                except Unsupported:
                    x = StrV()
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                    parts.append(str(x))
                elif z3.is_expr(x) and x.sort() == Val and len(e.values) == 1:
                    return LabFmt(self.str_of_val(x))
                else:
                    parts.append(None)
        if any(p is None for p in parts):
            return StrV()
        return ''.join(parts)

    def str_of_val(self, v):
        """str(label): identity on string labels, an uninterpreted string otherwise."""
        S = z3.Function('str_of', Val, LabStr)
        return z3.If(Val.is_vstr(v), Val.sval(v), S(v))

    # comprehensions
    def e_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def e_SetComp(self, e, env):
        return self.comp(e, env, 'set')

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, 'gen')

    def e_DictComp(self, e, env):
        raise Unsupported('dict comprehension')

    def comp(self, e, env, kind):
        cenv = Env(self, env, env.mod)
        gens = e.generators
        first = self.eval(gens[0].iter, env)
        if kind == 'list' and len(gens) == 1 and not gens[0].ifs and isinstance(first, SetBox) \
                and self.ctx is not None and self.ctx.ct.opts.get('ordered_lists'):
            from .builtins_model import list_of_set
            first = list_of_set(self, first)
        if kind in ('list', 'set') and len(gens) == 1 and not gens[0].ifs and \
                self.ctx is not None and self.ctx.ct.opts.get('creating') and (
                    isinstance(first, RangeV) and not first.concrete() or
                    isinstance(first, EnumV) and isinstance(first.inner, SymList)):
            from .builtins_model import to_set
            r = self.creating(e, first, cenv)
            if kind == 'list':
                return r
            box, n = to_set(self, r), self.as_term(r.length)
            i, j = z3.Consts('ds_i ds_j', z3.IntSort())
            if self.prove(z3.ForAll([i, j], z3.Implies(z3.And(
                    0 <= i, i < n, 0 <= j, j < n, r.get(i) == r.get(j)), i == j))):
                self.assume(self.L.card(box.cur()) == n)     # as many members as values
            return box
        self.emits.append([])

        def rec(k, it):
            g = gens[k]

            def body():
                for c in g.ifs:
                    if not self.decide(self.eval(c, cenv)):
                        raise ContinueEx()
                if k + 1 < len(gens):
                    rec(k + 1, self.eval(gens[k + 1].iter, cenv))
                else:
                    self.emits[-1].append(((), self.L.true, self.eval(e.elt, cenv)))
            self.for_loop(it, lambda v: self.assign(g.target, v, cenv), body, cenv, node=e)
        try:
            rec(0, first)
        finally:
            br = self.emits.pop()
        cv = CompV(br)
        if kind == 'gen':
            return cv
        from .builtins_model import to_list, to_set
        if kind == 'list':
            return to_list(self, cv)
        return to_set(self, cv)

    def creating(self, e, it, cenv):
        """A list comprehension executed as a loop that appends to a list."""
        lst = ListV(self, [])
        cenv.vars['@list'] = lst
        self.for_loop(it, lambda v: self.assign(e.generators[0].target, v, cenv),
                      lambda: lst.append(self.eval(e.elt, cenv)), cenv, node=None)
        from .invariants import list_fun
        n, f = list_fun(self, lst, lst.base.elem if lst.base is not None else None)
        return SymList(self, n, f, kind='list', esort=lst.base.elem if lst.base else Ev)

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        self.emits[-1].append(((), self.L.true, v))
        return None

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        if isinstance(v, CompV):
            self.emits[-1].extend(v.branches)
            return None
        raise Unsupported('yield from')

    # calls
    def e_Call(self, e, env):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'hasattr' and env.find('hasattr') is None:
            o = self.eval(e.args[0], env)
            n = self.eval(e.args[1], env)
            return self.py(self.has_attr(o, n))
        fv = self.eval(f, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, (ListV,)):
                    args.extend(v.items)
                elif isinstance(v, tuple):
                    args.extend(v)
                else:
                    args.append(StarV(v))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, env)
                if isinstance(v, DictV):
                    kwargs.update(v.d)
                elif isinstance(v, dict):
                    kwargs.update(v)
                else:
                    raise Unsupported('**kwargs')
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if isinstance(fv, SuperV):
            return self.call_super(fv, args, kwargs)
        return self.call(fv, args, kwargs)

    def call_super(self, sv, args, kwargs):
        o = sv.selfv
        cls = o.cls if isinstance(o, ObjV) else 'CausetEvent'
        r = self.prog.lookup(cls, sv.name, after=sv.cls)
        if r is None:
            if sv.name == '__init__':
                return None
            raise RaiseEx('AttributeError')
        return self.call_method(o, cls, sv.name, args, kwargs, after=sv.cls)

    def instantiate(self, cname, args, kwargs):
        if cname == 'CausetEvent':
            n = self.new_event()
            ct = self.find_contract('CausetEvent.__init__')
            self.call_method(n, 'CausetEvent', '__init__', args, kwargs)
            return n
        if cname in self.prog.classes:
            o = ObjV(self, cname)
            if self.prog.lookup(cname, '__init__'):
                self.call_method(o, cname, '__init__', args, kwargs)
            return o
        raise Unsupported('class ' + cname)


class SuperV:
    def __init__(self, selfv, cls, name):
        self.selfv = selfv
        self.cls = cls
        self.name = name


class StarV:
    def __init__(self, v):
        self.v = v


class DictV:
    def __init__(self, eng, d):
        self.d = d
        eng.mut.append(self)

    def dump(self):
        return dict(self.d)

    def load(self, d):
        self.d = dict(d)


class LabFmt:
    """A string value with a known LabStr term."""

    def __init__(self, term):
        self.term = term


class Live:
    """Contract result: the live set attribute of an event."""

    def __init__(self, field, ev):
        self.field = field
        self.ev = ev


class NoSpec:
    """Contract result built by a function (engine level)."""

    def __init__(self, make):
        self.make = make


class ObjView:
    def __init__(self, eng, o):
        self.eng = eng
        self.cls = o.cls
        self.obj = o
        self.snap = {k: (eng.wrap(v) if not isinstance(v, ObjV) else ObjView(eng, v))
                     for k, v in o.attrs.items()}

    def __getattr__(self, name):
        if name == 'events':
            return self.snap['_events']
        if name in self.snap:
            return self.snap[name]
        raise AttributeError(name)


def x_in(eng, v, x):
    if isinstance(v, frozenset) and not v:
        return eng.L.false
    return v.mem(x)


class SeqView:
    def __init__(self, eng, v):
        self.eng = eng
        self.L = eng.L
        self.obj = v if isinstance(v, (SymList, SymMat)) else None
        if isinstance(v, ListV) and v.base is not None:
            from .invariants import list_fun
            self.elem = v.base.elem
            self.len, self._at = list_fun(eng, v, self.elem)
            self.get = self.at
            self.bag = None
            self.kind = 'sets' if isinstance(self.elem, str) else 'sym'
            if not isinstance(self.elem, str):
                self.get = self._at
        elif isinstance(v, ListV):
            items = list(v.items)
            self.items = items
            self.len = len(items)
            self.kind = 'concrete'
        elif isinstance(v, SymMat):
            self.rows, self.cols, self.get2 = v.rows, v.cols, v.get
            self.kind = 'mat'
        else:
            self.len, self.get, self.bag = v.length, v.get, v.bag
            self.kind = 'sym'

    def at(self, i):
        if self.kind == 'concrete':
            return self.items[i]
        if self.kind == 'sets':
            return SetC(self.L, lambda x: self._at(i, x))
        return self.get(i)

    def get(self, i):
        if isinstance(i, int):
            return self.items[i]
        items = [self.eng.as_term(v) for v in self.items]
        if not items:
            return z3.RealVal(0)
        if any(z3.is_real(v) for v in items):
            items = [z3.ToReal(v) if z3.is_int(v) else v for v in items]
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = z3.If(i == k, items[k], r)
        return r

    def has(self, i, x):
        """x is in the i-th set of a list of sets"""
        if self.kind == 'concrete':
            L = self.L
            return L.Or(*[L.And(i == k, L.B(x_in(self.eng, v, x)))
                          for k, v in enumerate(self.items)])
        if self.kind == 'sets':
            return self._at(i, x)
        return self.get(i).mem(x)

    def toset(self):
        L = self.L
        if self.kind == 'concrete':
            return SetC(L, lambda x: L.Or(*[L.Eq(x, v) for v in self.items]))
        if self.bag is not None:
            return SetC(L, self.bag)

        def mem(x):
            i = z3.Const(self.eng.fresh_name('i'), z3.IntSort())
            return z3.Exists([i], z3.And(i >= 0, i < self.len, L.Eq(self.get(i), x)))
        return SetC(L, mem)


class Ctx:
    """What a contract sees."""
    at_call = False          # whether the contract stands for a call

    def __init__(self, eng, ct, vals):
        self.eng = eng
        self.L = eng.L
        self.ct = ct
        self.vals = vals
        self.a = ArgNS({k: eng.wrap(v) for k, v in vals.items()})
        self.old = HeapView(eng, dict(eng.heap))
        self.h = self.old
        self.new = None
        self.result = None
        self.symbolic = True

    @property
    def proving(self):
        """the contract is that of the function being verified, not of a callee"""
        return self.eng.ctx is self

    def event_sequence(self):
        """(length, i -> event): a witness for "there is a sequence of events": when proving,
        the sequence last made into a set by the code; for a caller, an arbitrary one"""
        eng = self.eng
        if self.proving:
            if not eng.setseqs:
                return z3.IntVal(-1), z3.Function('no_sequence', z3.IntSort(), Ev)
            n, g = eng.setseqs[-1]
            return eng.as_term(n), lambda i: g(eng.as_term(i))
        F = eng.fresh_fun('seq', z3.IntSort(), Ev)
        n = eng.fresh('seqlen', z3.IntSort())
        g = lambda i: F(eng.as_term(i))
        eng.setseqs.append((n, g))
        return n, g

    SORTS = {'int': z3.IntSort(), 'real': z3.RealSort(), 'event': Ev, 'bool': z3.BoolSort()}

    def arbitrary(self, name, sorts):
        F = self.eng.fresh_fun(name, *[self.SORTS[s] for s in sorts])
        return lambda *x: F(*[self.eng.as_term(y) for y in x])

    def tracked(self, st, name, sorts, init, step):
        """A function updated by each iteration of a loop: init before the loop, step(f) after
        an iteration that began with f."""
        eng = self.eng
        if st.phase == 'step':
            return step(eng.ghosts.funs[name])
        f = eng.ghosts.funs[name] = init if st.phase == 'entry' else \
            self.arbitrary('ghost_' + name, sorts)
        return f

    def locals_of(self, st):
        """The variables in the scope of a loop."""
        out, env = {}, st.env
        while env is not None:
            out = {**env.vars, **out}
            env = env.parent
        return out

    def sampled(self):
        """(points, shape, stream): a witness for "points were sampled": when proving, the last
        ones sampled; for a caller, arbitrary ones"""
        eng, I = self.eng, z3.IntSort()
        if self.proving and eng.samples:
            M, shape, rng = eng.samples[-1]
            return SeqView(eng, M), shape, rng
        F = eng.fresh_fun('points', I, I, z3.RealSort())
        n, d = (z3.IntVal(-1),) * 2 if self.proving else (eng.fresh('rows', I), eng.fresh('cols', I))
        return SeqView(eng, SymMat(eng, n, d, lambda i, j: F(eng.as_term(i), eng.as_term(j)),
                                   esort=z3.RealSort())), None, None

    def in_file(self, name, delimiter=','):
        """The matrix in the file given as an argument."""
        return SeqView(self.eng, self.vals[name].matrix(delimiter))

    def restricted(self, rows, cols, get):
        """The relation given by a matrix: its entries that are not zero."""
        eng = self.eng

        def r(i, j):
            i, j = eng.as_term(i), eng.as_term(j)
            return z3.And(0 <= i, i < rows, 0 <= j, j < cols, eng.L.B(eng.truth(get(i, j))))
        return r

    def closure(self, rows, cols, get):
        """The transitive closure of the relation given by a matrix: a transitive relation that
        contains it (`least` adds that there is no smaller one)."""
        eng, I = self.eng, z3.IntSort()
        rows, cols = eng.as_term(rows), eng.as_term(cols)
        i, j, k = z3.Ints('tc_i tc_j tc_k')
        R0 = self.restricted(rows, cols, get)
        key = z3.simplify(R0(i, j)).sexpr()
        if key not in eng.closures:
            T = z3.Function('closure_%d' % len(eng.closures), I, I, z3.BoolSort())
            eng.closures[key] = T, [
                z3.ForAll([i, j], z3.Implies(R0(i, j), T(i, j))),
                z3.ForAll([i, j, k], z3.Implies(z3.And(T(i, j), T(j, k)), T(i, k))),
                z3.ForAll([i, j], z3.Implies(T(i, j), z3.And(
                    0 <= i, i < rows, 0 <= j, j < cols)))]
            inside = lambda A, B: z3.ForAll([i, j], z3.Implies(A(i, j), B(i, j)))
            # it is the least: within the relation itself, if that is transitive, and within
            # every other closure that contains the relation
            eng.closures[key][1].append(z3.Implies(z3.ForAll([i, j, k], z3.Implies(z3.And(
                R0(i, j), R0(j, k)), R0(i, k))), inside(T, R0)))
            for R1, T1, _ in eng.closures_made:
                eng.closures[key][1].extend([z3.Implies(inside(R0, T1), inside(T, T1)),
                                             z3.Implies(inside(R1, T), inside(T1, T))])
            eng.closures_made.append((R0, T, rows))
        T, facts = eng.closures[key]
        known = {e[1].get_id() for e in eng.trace if e[0] == 'fact'}
        for f in facts:
            if f.get_id() not in known:
                eng.assume(f)
        return lambda a, b: T(eng.as_term(a), eng.as_term(b))

    def least(self, T, R0, P, m):
        """A transitive relation P on 0, .., m - 1 that contains R0 contains its closure T."""
        i, j, k = z3.Ints('tc_i tc_j tc_k')
        at = lambda *v: z3.And(*[z3.And(0 <= x, x < m) for x in v])
        self.eng.assume(z3.Implies(z3.And(
            z3.ForAll([i, j], z3.Implies(R0(i, j), z3.And(at(i, j), P(i, j)))),
            z3.ForAll([i, j, k], z3.Implies(z3.And(at(i, j, k), P(i, j), P(j, k)), P(i, k)))),
            z3.ForAll([i, j], z3.Implies(T(i, j), P(i, j)))))

    def number_pairs(self, k, m, f):
        """f(n, i, j) for all 0 <= n < k and 0 <= i, j < m"""
        n, i, j = z3.Ints('np_n np_i np_j')
        return z3.ForAll([n, i, j], z3.Implies(z3.And(
            0 <= n, n < k, 0 <= i, i < m, 0 <= j, j < m), f(n, i, j)))

    def witness(self):
        """Functions that are said to exist: when proving, those tracked; for a caller,
        arbitrary ones, which it may give in turn."""
        funs = self.eng.ghosts.funs
        if not self.proving:
            for name, sorts in self.ct.opts['witness'].items():
                funs[name] = self.arbitrary('some_' + name, sorts)
        return dict(funs)

    def listing(self):
        """(length, i -> event): a witness for "there is a listing of events": when proving, the
        list last returned by a call; for a caller, an arbitrary one"""
        eng = self.eng
        if self.proving:
            if not eng.evlists:
                return z3.IntVal(-1), z3.Function('no_sequence', z3.IntSort(), Ev)
            n, g = eng.evlists[-1]
            return eng.as_term(n), lambda i: g(eng.as_term(i))
        F = eng.fresh_fun('seq', z3.IntSort(), Ev)
        n = eng.fresh('seqlen', z3.IntSort())
        g = lambda i: F(eng.as_term(i))
        eng.evlists.append((n, g))
        return n, g

    def is_matrix_of(self, M, dtype):
        """the entries of the matrix are of type bool or int"""
        from .arrays import dtype_sort
        return self.L.B(isinstance(M.obj, SymMat) and M.obj.esort is not None and
                        M.obj.esort == dtype_sort(dtype))

    def states(self, entry, formula):
        """the entry is true (1) exactly if the formula holds, else false (0)"""
        L = self.L
        entry, formula = self.eng.as_term(entry), L.B(formula)
        if z3.is_bool(entry):
            return L.Iff(entry, formula)
        return entry == z3.If(formula, z3.IntVal(1), z3.IntVal(0))

    def number_of(self, name):
        """any number"""
        return z3.Real(name)

    def any_field(self, f):
        """A field that the postconditions describe"""
        if self.proving:
            return self.eng.heap[f]
        from .loops import arg_sorts
        F = self.eng.fresh_fun('any_' + f, *(arg_sorts(f) + [z3.BoolSort()]))
        return lambda *x: F(*x)

    def any_label(self):
        """labels that the postconditions speak about"""
        if self.proving:
            return self.eng.heap['label']
        F = self.eng.fresh_fun('label', Ev, Val)
        return lambda e: F(e)

    def is_int(self, v):
        return Val.is_vint(v)

    def int_value(self, i):
        return Val.vint(self.eng.as_term(i))

    def int_label(self, v):
        return Val.ival(v)

    def local_lists(self, st):
        """the lists and arrays held by local variables"""
        out, env = [], st.env
        while env is not None:
            out += [SeqView(self.eng, v) for v in env.vars.values() if isinstance(v, SymList)
                    and v.get is not None]
            env = env.parent
        return out

    def occurs(self, R, x):
        """the sequence R has the value x somewhere: at a known place when proving"""
        L = self.L
        inv = self.inverse(R) if self.proving else None
        if inv is None:
            return self.some_int(0, R.len, lambda i: L.Eq(R.get(i), x))
        i = inv(x)
        return L.And(0 <= i, i < self.eng.as_term(R.len), L.Eq(R.get(i), x))

    def label_le(self, a, b):
        from .arrays import label_order
        return label_order(self.eng)(a, b)

    def formatted(self, fmt, i):
        """label number i"""
        if fmt is None:
            return Val.vint(self.eng.as_term(i))
        if fmt == '':
            return Val.vnone
        if isinstance(fmt, FmtStr):
            return Val.vstr(fmt.F(Val.vint(self.eng.as_term(i))))
        raise Unsupported('label format')

    def inverse(self, v):
        """position of a value in a list of integers, where that is known"""
        return v.obj.info.get('inv') if isinstance(v, SeqView) and \
            isinstance(v.obj, SymList) else None

    def asset(self, v):
        """The set of events of a collection argument."""
        if isinstance(v, SetC):
            return v
        if isinstance(v, SeqView):
            return v.toset()
        if isinstance(v, ObjView):
            return v.events
        if isinstance(v, frozenset) and not v:
            return self.L.emptyset()
        raise Unsupported('collection %r' % (v,))

    def lab(self, v):
        return self.eng.to_val(v)

    def seq_effect(self, which, s, seq):
        """Effect: the coordinates (position) of s become the given sequence."""
        L, h, eng = self.L, self.old, self.eng
        flag, ln, gt = {'coords': ('has_coords', 'clen', 'cget'),
                        'pos': ('has_pos', 'plen', 'pget')}[which]
        n = eng.as_term(seq.len)
        oh = h.h

        def g(i):
            t = eng.as_term(seq.at(i))
            return z3.ToReal(t) if z3.is_int(t) else t
        return {flag: lambda e: L.Or(L.Eq(e, s), oh[flag](e)),
                ln: lambda e: L.If(L.Eq(e, s), n, oh[ln](e)),
                gt: lambda e, i: L.If(L.Eq(e, s), g(i), oh[gt](e, i))}

    # ---- lists of sets
    def _ix(self, name='i'):
        return z3.Const(self.eng.fresh_name(name), z3.IntSort())

    def _rng(self, R, i):
        return z3.And(0 <= i, i < R.len)

    def _q(self, f, n_int, n_ev, Q, guard=None):
        eng = self.eng
        xs = [self._ix() for _ in range(n_int)] + \
             [z3.Const(eng.fresh_name('x'), Ev) for _ in range(n_ev)]
        self.bound = getattr(self, 'bound', ()) + tuple(x.decl().name() for x in xs)
        mark, fm = len(eng.trace), len(eng.freshlog)
        b = self.L.B(f(*xs))
        if len(eng.trace) > mark:
            b = eng.lift_terms(xs, b, mark, fm)
        if z3.is_true(b) or z3.is_false(b):
            return b
        return Q(xs, b)

    def union_of(self, R):
        L = self.L
        return SetC(L, lambda x: self._q(
            lambda i: L.And(self._rng(R, i), L.B(R.has(i, x))), 1, 0, z3.Exists))

    def each(self, R, f):
        L = self.L
        return self._q(lambda i, x: L.Implies(L.And(self._rng(R, i), L.B(R.has(i, x))), f(i, x)),
                       1, 1, z3.ForAll)

    def each_set(self, R, f):
        L = self.L
        return self._q(lambda i: L.Implies(self._rng(R, i), f(i)), 1, 0, z3.ForAll)

    def each2(self, R, f):
        L = self.L
        return self._q(lambda i, j, x: L.Implies(L.And(
            self._rng(R, i), self._rng(R, j), i != j, L.B(R.has(i, x))), f(i, j, x)),
            2, 1, z3.ForAll)

    def in_last(self, R, x):
        return self.L.And(R.len > 0, self.L.B(R.has(R.len - 1, x)))

    def in_nth(self, R, k, x):
        return self.L.And(R.len > k, self.L.B(R.has(z3.IntVal(k), x)))

    def ne(self, i, k):
        return self.L.B(i != k)

    def eqn(self, i, k):
        return self.L.B(i == k)

    def pred(self, i):
        return i - 1

    def ints(self, lo, hi, f):
        """for all lo <= i < hi"""
        L = self.L
        return self._q(lambda i: L.Implies(z3.And(lo <= i, i < hi), L.B(f(i))), 1, 0, z3.ForAll)

    def pairs(self, n, f):
        """for all 0 <= i, j < n"""
        L = self.L
        return self._q(lambda i, j: L.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n),
                                              L.B(f(i, j))), 2, 0, z3.ForAll)

    def pairs_of(self, m, f):
        """for all 0 <= i < m and all j"""
        L = self.L
        return self._q(lambda i, j: L.Implies(z3.And(0 <= i, i < m), L.B(f(i, j))), 2, 0,
                       z3.ForAll)

    def cells(self, m, n, f):
        """for all 0 <= g < m, 0 <= i < n"""
        L = self.L
        return self._q(lambda g, i: L.Implies(z3.And(0 <= g, g < m, 0 <= i, i < n),
                                              L.B(f(g, i))), 2, 0, z3.ForAll)

    def cell_pairs(self, m, n, f):
        """for all 0 <= g, h < m, 0 <= i, j < n"""
        L = self.L
        return self._q(lambda g, i, h, j: L.Implies(z3.And(
            0 <= g, g < m, 0 <= h, h < m, 0 <= i, i < n, 0 <= j, j < n),
            L.B(f(g, i, h, j))), 4, 0, z3.ForAll)

    def number_and_event(self, n, f):
        """for all 0 <= i < n and all events"""
        L = self.L
        return self._q(lambda i, x: L.Implies(z3.And(0 <= i, i < n), L.B(f(i, x))), 1, 1,
                       z3.ForAll)

    def some_int(self, lo, hi, f):
        L = self.L
        return self._q(lambda i: L.And(lo <= i, i < hi, L.B(f(i))), 1, 0, z3.Exists)

    # ---- numbers
    def close(self, a, b):
        """Equality of reals (up to rounding at run time)."""
        a, b = self.eng.num_coerce(self.eng.as_term(a), self.eng.as_term(b))
        return a == b

    def fn(self, name, *args):
        """Elementary function, as the code sees it."""
        from .arrays import elementary, sym_pow
        if name == 'pow':
            return sym_pow(self.eng, *args)
        return elementary(self.eng, name, list(args))

    def near(self, a, b):
        return self.close(a, b)

    def upto(self, a, b):
        a, b = self.eng.num_coerce(self.eng.as_term(a), self.eng.as_term(b))
        return a <= b

    def same(self, a, b):
        if z3.is_expr(a) or z3.is_expr(b):
            return a == b
        return bool(a == b)

    def prod(self, lo, hi, f):
        return self.eng.prod_term(lo, hi, f)

    def items(self, v, n):
        v = list(getattr(v, 'items', v))
        if len(v) != n:
            raise Unsupported('%d items instead of %d' % (len(v), n))
        return [self.eng.wrap(x) for x in v]

    def abs(self, x):
        x = self.eng.as_term(x)
        return z3.If(x >= 0, x, -x)

    def R(self, k):
        k = self.eng.as_term(k)
        return z3.ToReal(k) if z3.is_int(k) else k

    def call(self, f, *args):
        return f.F(*[self.eng.to_z3num(a, True) for a in args])

    def calls(self, f, n):
        return True

    def some_real(self, p, f=None):
        x = z3.Const(self.eng.fresh_name('r'), z3.RealSort())
        return z3.Exists([x], self.L.B(p(x)))

    @property
    def pi(self):
        from .arrays import PI
        return PI

    @property
    def euler_gamma(self):
        from .arrays import GAMMA
        return GAMMA

    def sum(self, lo, hi, f, real=True):
        from .loops import sum_over
        i = z3.Const(self.eng.fresh_name('si'), z3.IntSort())
        t = self.eng.to_z3num(f(i), real)
        return sum_over(self.eng, [i], z3.And(self.eng.as_term(lo) <= i, i < self.eng.as_term(hi)),
                        z3.simplify(t), real)

    def ghost(self, name, sorts, py, unfold):
        """A recursively defined specification function: py at run time; to the
        solver an uninterpreted function whose defining equation (unfold) is
        given for every term of it that a contract mentions."""
        smap = self.SORTS
        F = z3.Function('ghost_' + name, *[smap[q] for q in sorts])

        def g(*a):
            a = [self.eng.as_term(x) for x in a]
            t = F(*a)
            from .loops import consts_in
            if not any(k in consts_in(t) for k in getattr(self, 'bound', ())):
                for fa in unfold(lambda *b: F(*[self.eng.as_term(x) for x in b]), *a):
                    if not any(e[0] == 'fact' and e[1].eq(fa) for e in self.eng.trace):
                        self.eng.assume(fa)
            return t
        return g

    def simple_label(self, v):
        return z3.Or(Val.is_vnone(v), Val.is_vint(v), Val.is_vstr(v))

    def connected_any(self, S, P):
        """every T closed under being related within S that meets P contains P"""
        L, h = self.L, self.h
        T = z3.Function('T_any', Ev, z3.BoolSort())
        Tc = SetC(L, lambda x: T(x))
        a, b = z3.Consts('cc_a cc_b', Ev)
        closed = z3.ForAll([a, b], L.Implies(L.And(
            T(a), S.has(b), S.has(a), L.Or(h.prec(a).has(b), h.succ(a).has(b))), T(b)))
        return L.Implies(L.And(self._named(closed), (P & Tc).nonempty()), P.sub(Tc))

    def link_distance(self, a, b):
        """number of links on a shortest link path from a to b (for a <= b), a function of the
        order"""
        eng = self.eng
        order = eng.heap['prec'], eng.heap['succ']
        if eng.distheap is None:
            eng.distheap = order
        if eng.distheap != order:
            raise Unsupported('link distances in a changed order')
        return z3.Function('link_distance', Ev, Ev, z3.IntSort())(a, b)

    def link_distance_recursion(self):
        """assumed facts: the link distance is the least solution of the recursions at both ends"""
        eng, h, L = self.eng, self.h, self.L
        d = self.link_distance
        x, y, z = z3.Consts('ld_x ld_y ld_z', Ev)
        le = lambda p, q: L.Or(p == q, h.prec(q).has(p))
        eng.trace.extend(('fact', f) for f in [
            z3.ForAll([x], d(x, x) == 0),
            z3.ForAll([x, y], z3.Implies(L.B(h.prec(y).has(x)), d(x, y) >= 1)),
            z3.ForAll([x, z, y], z3.Implies(L.B(L.And(h.cover(x, z), le(z, y))),
                                            d(x, y) <= d(z, y) + 1)),
            z3.ForAll([x, z, y], z3.Implies(L.B(L.And(le(x, z), h.cover(z, y))),
                                            d(x, y) <= d(x, z) + 1))])

    def shortest_step(self, a, b, first):
        """x, and the fact: if a < b, x is the second (last but one) event of a shortest path"""
        eng, h, L = self.eng, self.h, self.L
        d = self.link_distance
        w = z3.Function('next_on_path' if first else 'last_on_path', Ev, Ev, Ev)(a, b)
        le = lambda p, q: L.Or(p == q, h.prec(q).has(p))
        f = L.And(h.cover(a, w), le(w, b), d(a, b) == d(w, b) + 1) if first else \
            L.And(h.cover(w, b), le(a, w), d(a, b) == d(a, w) + 1)
        eng.trace.append(('fact', L.B(L.Implies(h.prec(b).has(a), f))))
        return w

    def infinite(self, v):
        return ext_of(self.eng, v).inf

    def number(self, v):
        return ext_of(self.eng, v).val

    def finite(self, S):
        """S is finite: if it is not empty, it has minimal and maximal events (an axiom)"""
        L, h = self.L, self.h
        x, y = z3.Consts('fin_x fin_y', Ev)
        t = L.B(S.has(x))
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return          # a named set only
        some = z3.Exists([x], t)
        for r in (lambda a, b: h.prec(b).has(a), lambda a, b: h.prec(a).has(b)):
            w = z3.Const(self.eng.fresh_name('extreme'), Ev)
            f = z3.Implies(some, L.B(L.And(S.has(w), z3.ForAll([y], L.B(L.Implies(
                S.has(y), L.Not(r(y, w))))))))
            self.eng.trace.append(('fact', f))

    def _named(self, formula):
        """A propositional name for a closed formula (a definition)."""
        eng = self.eng
        key = formula.get_id()
        if key not in eng.propnames:
            eng.propnames[key] = (z3.Const(eng.fresh_name('prop'), z3.BoolSort()), formula)
        p = eng.propnames[key][0]
        d = p == formula
        if not any(e[0] == 'fact' and e[1].eq(d) for e in eng.trace):
            eng.trace.append(('fact', d))
        return p

    def named(self, formula):
        f = self.L.B(formula)
        return f if z3.is_true(f) or z3.is_false(f) else self._named(f)

    def split_witness(self, S):
        """one of the known lists of sets has a member that splits S"""
        L, h = self.L, self.h
        alts = []
        for R in self.eng.setlists:
            R = SeqView(self.eng, R)

            def part(i, R=R):
                P = SetC(L, lambda x: R.has(i, x))
                return L.And(self._rng(R, i), (S & P).nonempty(), (S - P).nonempty(),
                             L.forall2(lambda x, y: L.Implies(L.And(
                                 P.has(x), S.has(y), L.Or(h.prec(x).has(y), h.succ(x).has(y))),
                                 P.has(y))))
            alts.append(self._q(part, 1, 0, z3.Exists))
        return L.Or(*alts)

    def least_closed(self, ev, S, h):
        """ev lies inside every set T that contains S, its pasts and its futures.
        T is one arbitrary predicate, the same everywhere, so the statement is
        proved for every T and may be assumed for this T."""
        L = self.L
        T = z3.Function('T_any', Ev, z3.BoolSort())
        Tc = SetC(L, lambda x: T(x))
        closed = L.forall2(lambda a, b: L.Implies(
            L.And(T(a), L.Or(h.prec(a).has(b), h.succ(a).has(b))), T(b)))
        return L.Implies(L.And(S.sub(Tc), closed), ev.sub(Tc))

    def __getattr__(self, n):
        raise AttributeError(n)


class ArgNS:
    def __init__(self, d):
        self.__dict__.update(d)


def same_dump(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_val(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return same_val(a, b)


def same_val(x, y):
    if x is y:
        return True
    if z3.is_expr(x) and z3.is_expr(y):
        return x.eq(y)
    if isinstance(x, (bool, int, float, str)) and type(x) is type(y):
        return x == y
    if isinstance(x, (list, tuple)) and type(x) is type(y):
        return len(x) == len(y) and all(same_val(p, q) for p, q in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return same_dump(x, y)
    return False


# ------------------------------------------------------ heap invariants
def wf(h):
    """Strict partial order with matching pasts and futures, no dangling events."""
    L = h.L
    return [
        ('converse', L.forall2(lambda a, b: L.Iff(h.prec(a).has(b), h.succ(b).has(a)))),
        ('irreflexive', L.forall(lambda a: L.Not(h.prec(a).has(a)))),
        ('transitive', L.forall3(lambda a, b, c: L.Implies(
            L.And(h.prec(b).has(a), h.prec(c).has(b)), h.prec(c).has(a)))),
        ('closed', L.forall2(lambda a, b: L.Implies(
            h.prec(a).has(b), L.And(h.alloc(a), h.alloc(b))))),
    ]


def linkok(h):
    """Link memory, where present, is the covering relation."""
    L = h.L
    return [
        ('link-flags', L.forall(lambda e: L.And(
            L.Iff(h.has_lprec(e), h.has_lsucc(e)), L.Implies(h.has_lprec(e), h.alloc(e))))),
        ('link-past', L.forall2(lambda e, x: L.Implies(
            h.has_lprec(e), L.Iff(h.lprec(e).has(x), h.cover(x, e))))),
        ('link-future', L.forall2(lambda e, x: L.Implies(
            h.has_lsucc(e), L.Iff(h.lsucc(e).has(x), h.cover(e, x))))),
    ]
