"""Model of the numpy / math / itertools subset (trusted).

Arrays are functions of the index with a symbolic size; floats are mathematical
reals; elementary functions are uninterpreted with the axioms listed in AXIOMS,
instantiated at every call.  numpy integer arrays: the no-overflow condition of
64-bit arithmetic is an obligation.
"""
import ast
import math
import z3
from .engine import (Unsupported, RaiseEx, NeedInvariant, SymList, SymMat, ListV, RangeV, CompV, FileV, Builtin,
                     is_num, is_bool)

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
UF = {}
PI = z3.Real('pi')
GAMMA = z3.Real('euler_gamma')


def ufun(name, n=1):
    if name not in UF:
        UF[name] = z3.Function('fn_' + name, *([R] * (n + 1)))
    return UF[name]


def real(eng, v):
    return eng.to_z3num(v, True)


# ------------------------------------------------------------ scalar functions
def facts_of(name, a, y):
    x = a[0]
    if name == 'sqrt':
        return [z3.Implies(x >= 0, z3.And(y >= 0, y * y == x))]
    if name == 'exp':
        return [y > 0, z3.Implies(x == 0, y == 1), z3.Implies(x < 0, y < 1),
                z3.Implies(x > 0, y > 1)]
    if name == 'cosh':
        s = ufun('sinh')(x)
        return [y >= 1, y * y == 1 + s * s]
    if name == 'sinh':
        c = ufun('cosh')(x)
        return [c >= 1, c * c == 1 + y * y]
    if name in ('sin', 'cos'):
        s, c = ufun('sin')(x), ufun('cos')(x)
        return [s * s + c * c == 1, y <= 1, y >= -1]
    if name == 'gamma':
        return [z3.Implies(x > 0, y > 0)]
    if name == 'log':
        return [z3.Implies(x == 1, y == 0)]
    return []


def elementary(eng, name, args, domain=None):
    """Value of an elementary function; domain: (condition, exception)."""
    if all(not z3.is_expr(a) for a in args):
        fn = {'square': lambda x: x * x, 'arctan2': math.atan2, 'arctan': math.atan,
              'arctanh': math.atanh, 'arcsin': math.asin, 'arccos': math.acos,
              'cbrt': lambda x: x ** (1.0 / 3)}.get(name) or getattr(math, name, None)
        if name in ('sqrt', 'exp', 'log') and args[0] in (0, 1) and not (name == 'log' and args[0] == 0):
            return fn(args[0])
        args = [eng.real_val(float(a)) for a in args]
    a = [real(eng, v) for v in args]
    y = ufun(name, len(a))(*a)
    for f in facts_of(name, a, y):
        note(eng, f)
    return y


def note(eng, f):
    """Assume a fact; under a bound index it is asserted for all indices."""
    b = eng.__dict__.setdefault('bound_ix', [])
    if b:
        eng.side_facts.append(f)
        return
    if not any(e[0] == 'fact' and e[1].eq(f) for e in eng.trace):
        eng.assume(f)


def elementwise(eng, f, v):
    """f on every element of an array (or on a scalar)."""
    if isinstance(v, ListV):
        v = to_array(eng, v)
    if isinstance(v, SymList):
        g = v.get
        t = under(eng, f, g, v.length)
        return SymList(eng, v.length, t, kind='array', esort=R)
    if isinstance(v, SymMat):
        g = v.get
        return SymMat(eng, v.rows, v.cols, lambda i, j: f(g(i, j)), esort=R)
    return f(v)


def under(eng, f, g, n):
    """Elements f(g(i)); the facts of f are assumed for every index once."""
    i = z3.Const(eng.fresh_name('ix'), I)
    eng.__dict__.setdefault('bound_ix', []).append(i)
    old = eng.__dict__.get('side_facts')
    eng.side_facts = []
    try:
        t = f(g(i))
        facts = eng.side_facts
    finally:
        eng.bound_ix.pop()
        eng.side_facts = old
    for fa in facts:
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < eng.as_term(n)), fa)))
    t = eng.as_term(t)
    return lambda k: z3.substitute(t, (i, eng.as_term(k)))


def fun1(name):
    def scalar(eng, args, kw):
        return elementwise(eng, lambda x: elementary(eng, name, [x]), args[0])
    return scalar


def to_array(eng, v):
    """A 1-D array with the elements of v."""
    if isinstance(v, SymList):
        return SymList(eng, v.length, v.get, kind='array', esort=v.esort)
    if isinstance(v, RangeV):
        lo = eng.as_term(v.lo)
        return SymList(eng, z3.If(eng.as_term(v.hi) > lo, eng.as_term(v.hi) - lo, z3.IntVal(0)),
                       lambda i: lo + i, kind='array', esort=I)
    if isinstance(v, (ListV, tuple)):
        items = list(v.items) if isinstance(v, ListV) else list(v)
        if any(isinstance(x, (ListV, tuple, SymList)) for x in items):
            raise Unsupported('nested array')
        if any(isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)) for x in items):
            raise Unsupported('bool array')
        rl = any(isinstance(x, float) or (z3.is_expr(x) and z3.is_real(x)) for x in items) or not items
        ts = [eng.to_z3num(x, rl) for x in items]

        def get(i):
            if isinstance(i, int) or z3.is_int_value(i):
                k = i if isinstance(i, int) else i.as_long()
                if 0 <= k < len(ts):
                    return ts[k]
            r = ts[-1] if ts else z3.RealVal(0)
            for k in range(len(ts) - 2, -1, -1):
                r = z3.If(i == k, ts[k], r)
            return r
        return SymList(eng, z3.IntVal(len(ts)), get, kind='array', esort=R if rl else I)
    raise Unsupported('array of %s' % type(v).__name__)


def elem_is_int(eng, a):
    return z3.is_int(eng.as_term(a.get(z3.IntVal(0))))


def no_overflow(eng, t, n, what):
    """obligation: 64-bit integer elements do not overflow"""
    i = z3.Const(eng.fresh_name('ov'), I)
    x = t(i)
    eng.oblige('%s/no-int64-overflow:%s' % (eng.verifying, what), z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < eng.as_term(n)), z3.And(x < 2 ** 63, x >= -2 ** 63))))


def np_square(eng, args, kw):
    v = args[0]
    r = elementwise(eng, lambda x: eng.arith(ast.Mult, x, x), v)
    if isinstance(r, SymList) and elem_is_int(eng, r):
        no_overflow(eng, r.get, r.length, 'square')
    return r


def np_empty(eng, args, kw):
    shape = args[0]
    if isinstance(shape, (ListV, tuple)):
        sh = list(shape.items) if isinstance(shape, ListV) else list(shape)
    else:
        sh = [shape]
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    sort = dtype_sort(dt)
    for s in sh:
        if eng.choose(eng.as_term(s) < 0):
            raise RaiseEx('ValueError')
    if len(sh) == 1:
        F = eng.fresh_fun('raw', I, sort)
        return SymList(eng, eng.as_term(sh[0]), lambda i: F(eng.as_term(i)), kind='array', esort=sort)
    if len(sh) == 2:
        F = eng.fresh_fun('raw', I, I, sort)
        return SymMat(eng, eng.as_term(sh[0]), eng.as_term(sh[1]),
                      lambda i, j: F(eng.as_term(i), eng.as_term(j)), esort=sort)
    raise Unsupported('array shape')


def dtype_sort(dt):
    n = getattr(dt, 'name', getattr(dt, '__name__', dt))
    if dt is None:
        return R
    n = str(n).split('.')[-1]
    if n in ('float', 'float64', 'float32', 'double'):
        return R
    if n in ('int', 'int64', 'int32'):
        return I
    if n in ('bool', 'bool_'):
        return B
    if n in ('object', 'object_'):
        return R
    raise Unsupported('dtype %r' % (dt,))


def const_of(sort, v):
    if sort == B:
        return z3.BoolVal(bool(v))
    return z3.IntVal(v) if sort == I else z3.RealVal(v)


def np_filled(value):
    def f(eng, args, kw):
        args = list(args)
        val = value
        if value is None:
            fv = kw.pop('fill_value', None)
            if fv is None:
                fv = args.pop(1)
            val = fv
        r = np_empty(eng, args, kw)
        sort = r.esort
        t = const_of(sort, val) if isinstance(val, (int, bool)) else eng.to_z3num(val, sort == R)
        if isinstance(r, SymList):
            r.get = lambda i: t
        else:
            r.get = lambda i, j: t
        return r
    return f


def np_arange(eng, args, kw):
    lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
    lo, hi = eng.as_term(lo), eng.as_term(hi)
    if len(args) > 2 or not (z3.is_int(lo) and z3.is_int(hi)):
        raise Unsupported('arange with step')
    r = SymList(eng, z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda i: lo + eng.as_term(i),
                kind='array', esort=I)
    r.info = {'range': (lo, hi)}
    return r


def np_array(eng, args, kw):
    v = args[0]
    dt = kw.get('dtype', args[1] if len(args) > 1 else None)
    if isinstance(v, SymMat):
        return v
    if is_num(v) and not is_bool(v):       # 0-d array: treated as its element
        return real(eng, v) if dt is not None and dtype_sort(dt) == R else v
    r = to_array(eng, v)
    if dt is not None and dtype_sort(dt) == R and r.esort != R:
        g = r.get
        return SymList(eng, r.length, lambda i: real(eng, g(i)), kind='array', esort=R)
    return r


def m_prod(eng, args, kw):
    v = args[0]
    if not isinstance(v, (SymList, ListV, tuple)):
        raise Unsupported('math.prod of %s' % type(v).__name__)
    v = to_array(eng, v)
    return eng.prod_term(0, v.length, v.get)


def np_sign(eng, args, kw):
    def f(x):
        if not z3.is_expr(x):
            return 0 if x == 0 else (1 if x > 0 else -1)
        one = z3.RealVal(1) if z3.is_real(x) else z3.IntVal(1)
        return z3.If(x > 0, one, z3.If(x < 0, -one, one - one))
    return elementwise(eng, f, args[0])


def np_heaviside(eng, args, kw):
    def f(x):
        x = real(eng, x)
        return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(0), real(eng, args[1])))
    return elementwise(eng, f, args[0])


def np_abs(eng, args, kw):
    def f(x):
        if not z3.is_expr(x):
            return abs(x)
        return z3.If(x >= 0, x, -x)
    return elementwise(eng, f, args[0])


def np_maximum(ismax):
    def f(eng, args, kw):
        def g(x):
            a, b = eng.num_coerce(eng.as_term(x), eng.as_term(args[1]))
            return z3.If(a >= b, a, b) if ismax else z3.If(a <= b, a, b)
        return elementwise(eng, g, args[0])
    return f


def np_sum(eng, args, kw):
    from .builtins_model import b_sum
    if kw or len(args) > 1:
        raise Unsupported('np.sum with axis')
    v = args[0]
    if isinstance(v, SymMat):
        raise Unsupported('np.sum of a matrix')
    return b_sum(eng, [v], {})


def np_power(eng, args, kw):
    return elementwise(eng, lambda x: sym_pow(eng, x, args[1]), args[0])


def sym_pow(eng, a, b):
    if z3.is_expr(b) and z3.is_int_value(b):
        b = b.as_long()
    if isinstance(b, float) and b == int(b) and abs(b) <= 8:
        return sym_pow(eng, real(eng, a), int(b))
    if isinstance(b, int) and 0 <= b <= 8:
        r = None
        for _ in range(b):
            r = a if r is None else eng.arith(ast.Mult, r, a)
        if r is None:
            return 1.0 if z3.is_expr(a) and z3.is_real(a) else 1
        return r
    if isinstance(b, int) and -8 <= b < 0:
        return eng.arith(ast.Div, 1.0, sym_pow(eng, a, -b))
    if isinstance(a, (SymList, SymMat)):
        return elementwise(eng, lambda x: sym_pow(eng, x, b), a)
    x, y = real(eng, a), real(eng, b)
    if z3.is_to_real(y) and (z3.is_mul(x) or z3.is_div(x)):
        # integer exponent: power of a product (a quotient)
        fs = [sym_pow(eng, f, b) for f in x.children()]
        r = fs[0]
        for f in fs[1:]:
            r = eng.arith(ast.Mult if z3.is_mul(x) else ast.Div, r, f)
        return r
    p = ufun('pow', 2)(x, y)
    note(eng, z3.Implies(x > 0, p > 0))
    note(eng, z3.Implies(y == 0, p == 1))
    note(eng, z3.Implies(z3.And(x == 1), p == 1))
    return p


def no_errstate(eng, args, kw):
    return None


MATH = {n: fun1(n) for n in ('exp', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'atan', 'asin',
                             'acos', 'log10', 'log2')}


def guarded1(name, cond):
    def f(eng, args, kw):
        x = args[0]
        if z3.is_expr(x):
            if eng.choose(z3.Not(cond(x))):
                raise RaiseEx('ValueError')
        return elementary(eng, name, [x])
    return f


MATH['sqrt'] = guarded1('sqrt', lambda x: x >= 0)
MATH['log'] = guarded1('log', lambda x: x > 0)


def m_isinf(eng, args, kw):
    return isinstance(args[0], float) and math.isinf(args[0])


def m_gamma(eng, args, kw):
    x = args[0]
    if not z3.is_expr(x):
        if x > 0 and float(x) == int(x):
            return math.factorial(int(x) - 1)
        x = eng.real_val(float(x))
    return elementary(eng, 'gamma', [x])


def m_floor(up):
    def f(eng, args, kw):
        x = args[0]
        if not z3.is_expr(x):
            return math.ceil(x) if up else math.floor(x)
        if z3.is_int(x):
            return x
        return -z3.ToInt(-x) if up else z3.ToInt(x)
    return f


MATH['isinf'] = m_isinf
MATH['gamma'] = m_gamma
MATH['prod'] = m_prod
MATH['isnan'] = lambda eng, args, kw: isinstance(args[0], float) and math.isnan(args[0])
MATH['floor'] = m_floor(False)
MATH['ceil'] = m_floor(True)

NUMPY = {n: fun1(n) for n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh',
                              'arctan', 'arctanh', 'arcsin', 'arccos')}
NUMPY.update({
    'flip': lambda eng, a, k: np_flip(eng, a, k),
    'argsort': lambda eng, a, k: np_argsort(eng, a, k),
    'unique': lambda eng, a, k: np_unique(eng, a, k),
    'square': np_square, 'empty': np_empty, 'zeros': np_filled(0), 'ones': np_filled(1),
    'full': np_filled(None), 'arange': np_arange, 'array': np_array, 'asarray': np_array,
    'sign': np_sign, 'heaviside': np_heaviside, 'abs': np_abs, 'sum': np_sum, 'maximum': np_maximum(True), 'minimum': np_maximum(False), 'power': np_power,
    'pi': PI, 'inf': math.inf, 'PINF': math.inf, 'NINF': -math.inf, 'euler_gamma': GAMMA,
    'errstate': no_errstate, 'float32': Builtin('float', None), 'float64': Builtin('float', None), 'int64': Builtin('int', None),
    'bool_': Builtin('bool', None), 'object_': Builtin('object', None)})
ITER = {}


def np_outer(eng, args, kw):
    a, b = args
    if not (isinstance(a, SymList) and isinstance(b, SymList) and a.esort == B and b.esort == B):
        raise Unsupported('outer product')
    f, g = a.get, b.get
    return SymMat(eng, a.length, b.length, lambda i, j: z3.And(f(i), g(j)), esort=B)


def np_where(eng, args, kw):
    if len(args) != 1 or not (isinstance(args[0], SymList) and args[0].esort == B):
        raise Unsupported('where')
    f, n = args[0].get, eng.as_term(args[0].length)
    i = z3.Const(eng.fresh_name('w'), I)
    return (CompV([((i,), z3.And(0 <= i, i < n, f(i)), i)]),)


def np_savetxt(eng, args, kw):
    """Integers written with %d or %.0f are read back (assumed of numpy)."""
    kw = dict(kw)
    f, m = args
    fmt, d = kw.pop('fmt', None), kw.pop('delimiter', ' ')
    if kw or not isinstance(f, FileV) or not isinstance(m, SymMat) or m.esort not in (I, B) or \
            fmt not in ('%d', '%i', '%.0f') or not isinstance(d, str) or len(d) != 1 or d.isalnum():
        raise Unsupported('savetxt')
    f.write({d: mat_astype(eng, m, Builtin('int', None))})


def np_genfromtxt(eng, args, kw):
    kw = dict(kw)
    dt, d, nd = kw.pop('dtype', None), kw.pop('delimiter', None), kw.pop('ndmin', 0)
    if kw or len(args) != 1 or not isinstance(args[0], FileV) or dtype_sort(dt) != I or \
            nd != 2 or not isinstance(d, str):
        raise Unsupported('genfromtxt')
    m = args[0].matrix(d)
    r, c = eng.as_term(m.rows), eng.as_term(m.cols)
    if eng.choose(z3.Or(r == 0, c == 0)):          # an empty file: no certain shape
        r, c = eng.fresh('rows', I), eng.fresh('cols', I)
        eng.assume(z3.And(r >= 0, c >= 0, z3.Or(r == 0, c == 0)))
    return SymMat(eng, r, c, m.get, esort=I)


NUMPY.update({'savetxt': np_savetxt, 'genfromtxt': np_genfromtxt, 'loadtxt': np_genfromtxt})
NUMPY.update({'outer': np_outer, 'where': np_where, 'nonzero': np_where})


# ---------------------------------------------------------------- operations
def is_arr(v):
    return isinstance(v, SymMat) or isinstance(v, SymList) and v.kind == 'array'


OPS = (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)


def array_binop(eng, t, a, b):
    if not (is_arr(a) or is_arr(b)):
        return None
    if t not in OPS:
        if isinstance(a, SymMat) and isinstance(b, SymMat) and t in (ast.BitOr, ast.BitAnd):
            same_shape(eng, a, b)
            op = z3.Or if t is ast.BitOr else z3.And
            f, g = a.get, b.get
            return SymMat(eng, a.rows, a.cols, lambda i, j: op(eng.L.B(f(i, j)), eng.L.B(g(i, j))),
                          esort=B)
        return None
    if isinstance(a, ListV):
        a = to_array(eng, a)
    if isinstance(b, ListV):
        b = to_array(eng, b)
    if isinstance(a, SymMat) or isinstance(b, SymMat):
        return mat_binop(eng, t, a, b)
    n = a.length if is_arr(a) else b.length
    if isinstance(a, SymList) and isinstance(b, SymList):
        la, lb = eng.as_term(a.length), eng.as_term(b.length)
        if not la.eq(lb) and eng.choose(la != lb):
            if eng.choose(z3.Or(la == 1, lb == 1)):
                raise Unsupported('broadcast of arrays of different length')
            raise RaiseEx('ValueError')
    ga = a.get if isinstance(a, SymList) else (lambda i: a)
    gb = b.get if isinstance(b, SymList) else (lambda i: b)
    i = z3.Const(eng.fresh_name('ix'), I)
    x, y = ga(i), gb(i)
    if t is ast.Div:
        yy = eng.as_term(y)
        if not z3.is_expr(y):
            ok = y != 0
            if not ok:
                raise Unsupported('array division by zero')
        else:
            eng.oblige('%s/finite:no-division-by-zero' % eng.verifying, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < eng.as_term(n)), yy != 0)))
        v = real(eng, x) / real(eng, y)
    elif t is ast.Pow:
        v = None
        bb = b
        return elementwise(eng, lambda q: sym_pow(eng, q, bb), a)
    else:
        v = eng.arith(t, x, y)
    v = eng.as_term(v)
    get = lambda k: z3.substitute(v, (i, eng.as_term(k)))
    r = SymList(eng, n, get, kind='array', esort=v.sort())
    if z3.is_int(v):
        no_overflow(eng, get, n, t.__name__)
    return r


def same_shape(eng, a, b):
    c = z3.And(eng.as_term(a.rows) == eng.as_term(b.rows), eng.as_term(a.cols) == eng.as_term(b.cols))
    if eng.choose(z3.Not(c)):
        raise RaiseEx('ValueError')


def mat_binop(eng, t, a, b):
    if isinstance(a, SymMat) and isinstance(b, SymMat):
        same_shape(eng, a, b)
        ga, gb = a.get, b.get
    elif isinstance(a, SymMat) and not isinstance(b, SymList):
        ga, gb = a.get, lambda i, j: b
    elif isinstance(b, SymMat) and not isinstance(a, SymList):
        ga, gb = (lambda i, j: a), b.get
    elif isinstance(a, SymMat):          # matrix with a row vector
        if eng.choose(eng.as_term(a.cols) != eng.as_term(b.length)):
            raise Unsupported('broadcast')
        ga, g = a.get, b.get
        gb = lambda i, j: g(j)
    else:
        raise Unsupported('array operation')
    m = a if isinstance(a, SymMat) else b
    if t is ast.Pow:
        return SymMat(eng, m.rows, m.cols, lambda i, j: sym_pow(eng, ga(i, j), gb(i, j)), esort=R)
    if t is ast.Div:
        return SymMat(eng, m.rows, m.cols, lambda i, j: real(eng, ga(i, j)) / real(eng, gb(i, j)),
                      esort=R)
    return SymMat(eng, m.rows, m.cols, lambda i, j: eng.arith(t, ga(i, j), gb(i, j)), esort=m.esort)


def array_compare(eng, t, a, b):
    if not (is_arr(a) or is_arr(b)):
        return None
    if isinstance(a, SymMat) or isinstance(b, SymMat):
        raise Unsupported('matrix comparison')
    n = a.length if is_arr(a) else b.length
    ga = a.get if isinstance(a, SymList) else (lambda i: a)
    gb = b.get if isinstance(b, SymList) else (lambda i: b)

    def get(i):
        x, y = eng.num_coerce(ga(i), gb(i))
        return {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y,
                ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[t]()
    return SymList(eng, n, get, kind='array', esort=B)


def array_attr(eng, o, name):
    if isinstance(o, SymMat):
        if name == 'T':
            g = o.get
            return SymMat(eng, o.cols, o.rows, lambda i, j: g(j, i), esort=o.esort)
        if name == 'shape':
            return (o.rows, o.cols)
        if name == 'ndim':
            return 2
        if name == 'reshape':
            def shape(e, a, k):
                to = a[0] if len(a) == 1 else tuple(a)
                to = list(to.items) if isinstance(to, ListV) else list(to)
                if k or len(to) != 2 or any(not isinstance(x, int) or x < 0 for x in to) or \
                        to[0] * to[1]:
                    raise Unsupported('reshape')
                if eng.choose(z3.And(eng.as_term(o.rows) != 0, eng.as_term(o.cols) != 0)):
                    raise RaiseEx('ValueError')
                return SymMat(eng, z3.IntVal(to[0]), z3.IntVal(to[1]), o.get, esort=o.esort)
            return Builtin('reshape', shape)
        if name == 'size':
            return eng.arith(ast.Mult, o.rows, o.cols)
        if name == 'copy':
            return Builtin('copy', lambda e, a, k: SymMat(eng, o.rows, o.cols, o.get, o.esort))
        if name == 'astype':
            return Builtin('astype', lambda e, a, k: mat_astype(eng, o, a[0]))
        raise Unsupported('matrix attribute ' + name)
    if name in ('shape',):
        return (o.length,)
    if name == 'size' and o.kind == 'array':
        return o.length
    if name == 'ndim' and o.kind == 'array':
        return 1
    if name == 'copy':
        return Builtin('copy', lambda e, a, k: SymList(eng, o.length, o.get, o.kind, o.esort, o.bag))
    if name == 'astype' and o.kind == 'array':
        def f(e, a, k):
            s = dtype_sort(a[0])
            g = o.get
            if s == R:
                return SymList(eng, o.length, lambda i: real(eng, g(i)), kind='array', esort=R)
            raise Unsupported('astype')
        return Builtin('astype', f)
    if name == 'reverse' and o.kind == 'list' and o.get is not None:
        def back(e, a, k):
            g, n = o.get, eng.as_term(o.length)
            o.get = lambda i: g(n - 1 - eng.as_term(i))
            inv = o.info.get('inv')
            o.info = {} if inv is None else {'inv': lambda x: n - 1 - inv(x)}
            return None
        return Builtin('reverse', back)
    if name == 'index' and o.kind == 'list' and o.get is not None:
        def find(e, a, k):
            if len(a) != 1 or k:
                raise Unsupported('list.index with bounds')
            n, g, L = eng.as_term(o.length), o.get, eng.L
            j = z3.Const(eng.fresh_name('j'), I)
            same = lambda i: L.B(eng.equal(g(i), a[0]))
            inv = o.info.get('inv')
            if inv is not None:
                # an inverse, where it is one: no quantifiers needed
                once = z3.ForAll([j], L.Implies(z3.And(0 <= j, j < n), inv(g(j)) == j))
                if eng.prove(once, ms=2000):
                    r = inv(a[0])
                    if not eng.choose(z3.And(0 <= r, r < n, same(r))):
                        raise RaiseEx('ValueError')
                    return r
            if not eng.choose(z3.Exists([j], z3.And(0 <= j, j < n, same(j)))):
                raise RaiseEx('ValueError')
            r = eng.fresh('at', I)
            eng.assume(z3.And(0 <= r, r < n, same(r)))
            eng.assume(z3.ForAll([j], L.Implies(z3.And(0 <= j, j < r), L.Not(same(j)))))
            return r
        return Builtin('index', find)
    raise Unsupported('array attribute ' + name)


def mat_astype(eng, o, dt):
    s = dtype_sort(dt)
    g = o.get
    if s == R:
        return SymMat(eng, o.rows, o.cols, lambda i, j: real(eng, g(i, j)), esort=R)
    if s == I:
        def f(i, j):
            t = eng.as_term(g(i, j))
            if z3.is_bool(t):
                return z3.If(t, z3.IntVal(1), z3.IntVal(0))
            if z3.is_int(t):
                return t
            raise Unsupported('astype(int) of reals')
        return SymMat(eng, o.rows, o.cols, f, esort=I)
    if s == B:
        def h(i, j):
            t = eng.as_term(g(i, j))
            return t if z3.is_bool(t) else t != 0
        return SymMat(eng, o.rows, o.cols, h, esort=B)
    raise Unsupported('astype')


def scalar_attr(eng, o, name):
    raise Unsupported('attribute %s of %s' % (name, type(o).__name__))


def check_ix(eng, n, ix):
    """Index normalised as Python does; IndexError outside."""
    n = eng.as_term(n)
    if isinstance(ix, int):
        if ix >= 0:
            if eng.choose(n <= ix):
                raise RaiseEx('IndexError')
            return z3.IntVal(ix)
        if eng.choose(n < -ix):
            raise RaiseEx('IndexError')
        return z3.simplify(n + ix)
    if not eng.choose(z3.And(ix >= -n, ix < n)):
        raise RaiseEx('IndexError')
    if eng.choose(ix < 0):
        return ix + n
    return ix


def fancy(eng, o, ix):
    """o[r] with r = arange(lo, hi)"""
    lo, hi = ix.info['range']
    n = eng.as_term(o.length)
    if eng.choose(z3.And(lo < hi, z3.Or(lo < -n, hi > n))):
        raise RaiseEx('IndexError')
    if eng.choose(z3.And(lo < hi, lo < 0)):
        raise Unsupported('negative index array')
    return lo, hi


def slice_bounds(eng, n, ix):
    lo, hi, st = ix[1:]
    n = eng.as_term(n)
    if st is not None:
        raise Unsupported('slice step')

    def norm(v, default):
        if v is None:
            return default
        t = eng.as_term(v)
        if isinstance(v, int) and v >= 0:
            return z3.If(t > n, n, t)
        return z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
    a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
    return z3.simplify(a), z3.simplify(b)


def array_get(eng, o, ix):
    if isinstance(o, SymList):
        if o.get is None:
            raise Unsupported('index into a list of unknown order')
        if isinstance(ix, tuple) and ix and ix[0] == 'slice':
            a, b = slice_bounds(eng, o.length, ix)
            g = o.get
            return SymList(eng, z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))),
                           lambda i: g(z3.simplify(eng.as_term(i) + a)), kind=o.kind, esort=o.esort)
        if isinstance(ix, SymList) and 'range' in ix.info and o.kind == 'array':
            lo, hi = fancy(eng, o, ix)
            g = o.get
            return SymList(eng, ix.length, lambda i: g(lo + i), kind='array', esort=o.esort)
        if isinstance(ix, SymList) and ix.get is not None and o.kind == 'array' and \
                elem_is_int(eng, ix):
            h, g, n = ix.get, o.get, eng.as_term(o.length)
            i = z3.Const(eng.fresh_name('ix'), I)
            rng = z3.And(0 <= i, i < eng.as_term(ix.length))
            if not eng.choose(z3.ForAll([i], z3.Implies(rng, z3.And(h(i) >= -n, h(i) < n)))):
                raise RaiseEx('IndexError')
            return SymList(eng, ix.length, lambda k: g(z3.If(h(k) < 0, h(k) + n, h(k))),
                           kind='array', esort=o.esort)
        if isinstance(ix, CompV) and o.kind == 'array':
            from .loops import subst_value
            n, br = eng.as_term(o.length), []
            for vs, g, v in ix.branches:
                if not (z3.is_expr(v) and z3.is_int(v)):
                    raise Unsupported('index family')
                bad = z3.And(g, z3.Or(v < -n, v >= n))
                if eng.choose(z3.Exists(list(vs), bad) if vs else bad):
                    raise RaiseEx('IndexError')
                br.append((vs, g, o.get(z3.If(v < 0, v + n, v))))
            return CompV(br)
        if isinstance(ix, int) or (z3.is_expr(ix) and z3.is_int(ix)):
            return o.get(check_ix(eng, o.length, ix))
    if isinstance(ix, tuple) and len(ix) == 3 and ix[0] == 'tuple':
        ix = ix[1:]
    if isinstance(o, SymMat) and isinstance(ix, tuple) and len(ix) == 2:
        i, j = ix
        num = lambda v: isinstance(v, int) or (z3.is_expr(v) and z3.is_int(v))
        if num(i) and num(j):
            i, j = check_ix(eng, o.rows, i), check_ix(eng, o.cols, j)
            return o.get(i, j)
        full = lambda v: isinstance(v, tuple) and v == ('slice', None, None, None)
        g = o.get
        if num(i) and full(j):
            i = check_ix(eng, o.rows, i)
            return SymList(eng, o.cols, lambda k: g(i, k), kind='array', esort=o.esort)
        if full(i) and num(j):
            j = check_ix(eng, o.cols, j)
            return SymList(eng, o.rows, lambda k: g(k, j), kind='array', esort=o.esort)
    raise Unsupported('index of %s' % type(o).__name__)


def elem_term(eng, o, v):
    t = eng.as_term(v)
    if o.esort == R and not z3.is_real(t):
        t = real(eng, t)
    if o.esort == B and not z3.is_bool(t):
        t = eng.L.B(eng.truth(t))
    if o.esort == I and z3.is_bool(t):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if o.esort == I and z3.is_real(t):
        raise Unsupported('real stored in an integer array')
    return t


def array_set(eng, o, ix, v):
    if isinstance(o, SymList) and o.get is not None and o.kind in ('array', 'list'):
        if o.owner == 'arg' and o.kind == 'list':
            pass
        if isinstance(ix, SymList) and 'range' in ix.info:
            lo, hi = fancy(eng, o, ix)
            g = o.get
            if isinstance(v, SymList):
                if eng.choose(eng.as_term(v.length) != eng.as_term(ix.length)):
                    raise RaiseEx('ValueError')
                h = v.get
            else:
                h = lambda i: v
            o.get = lambda i: z3.If(z3.And(lo <= i, i < hi), elem_term(eng, o, h(eng.as_term(i) - lo)),
                                    g(i))
            return
        if isinstance(ix, int) or (z3.is_expr(ix) and z3.is_int(ix)):
            k = check_ix(eng, o.length, ix)
            g = o.get
            t = elem_term(eng, o, v)
            o.get = lambda i: z3.If(eng.as_term(i) == k, t, g(i))
            o.bag = None
            o.info = {}
            return
    if isinstance(ix, tuple) and len(ix) == 3 and ix[0] == 'tuple':
        ix = ix[1:]
    if isinstance(o, SymMat) and isinstance(ix, tuple) and len(ix) == 2:
        i, j = ix
        num = lambda q: isinstance(q, int) or (z3.is_expr(q) and z3.is_int(q))
        g = o.get
        if num(i) and num(j):
            i, j = check_ix(eng, o.rows, i), check_ix(eng, o.cols, j)
            t = elem_term(eng, o, v)
            o.get = lambda a, b: z3.If(z3.And(eng.as_term(a) == i, eng.as_term(b) == j), t, g(a, b))
            return
        sl = lambda q: isinstance(q, tuple) and q and q[0] == 'slice'
        if sl(i) and sl(j) and isinstance(v, SymMat):
            (a0, a1), (b0, b1) = slice_bounds(eng, o.rows, i), slice_bounds(eng, o.cols, j)
            size = lambda lo, hi: z3.If(hi > lo, hi - lo, z3.IntVal(0))
            vr, vc = eng.as_term(v.rows), eng.as_term(v.cols)
            if not eng.choose(z3.And(size(a0, a1) == vr, size(b0, b1) == vc)):
                if eng.choose(z3.Or(vr == 1, vc == 1)):
                    raise Unsupported('broadcast into a part of a matrix')
                raise RaiseEx('ValueError')
            h = v.get

            def put(a, b):
                a, b = eng.as_term(a), eng.as_term(b)
                return z3.If(z3.And(a0 <= a, a < a1, b0 <= b, b < b1),
                             elem_term(eng, o, h(z3.simplify(a - a0), z3.simplify(b - b0))),
                             g(a, b))
            o.get = put
            return
    raise Unsupported('item assignment on %s with index %r' % (type(o).__name__, ix))


def concat(eng, a, b):
    """a + b"""
    from .builtins_model import as_seq
    a, b = as_seq(eng, a), as_seq(eng, b)
    n, m, f, g = eng.as_term(a.length), eng.as_term(b.length), a.get, b.get

    def get(i):
        i = eng.as_term(i)
        x, y = eng.as_term(f(i)), eng.as_term(g(i - n))
        if x.sort() != y.sort():
            raise Unsupported('list of mixed values')
        return z3.If(i < n, x, y)
    r = SymList(eng, n + m, get, esort=a.esort if a.esort == b.esort else None)
    p, q = a.info.get('inv'), b.info.get('inv')
    r.info['parts'] = (f, n), (g, m)
    if p is not None and q is not None:
        r.info['inv'] = lambda x: z3.If(z3.And(0 <= p(x), p(x) < n, f(p(x)) == x), p(x), n + q(x))
    return r


def np_flip(eng, a, k):
    o = a[0]
    if len(a) != 1 or k or not isinstance(o, SymList) or o.get is None:
        raise Unsupported('flip of %s' % type(o).__name__)
    g, n, inv = o.get, eng.as_term(o.length), o.info.get('inv')
    r = SymList(eng, n, lambda i: g(n - 1 - eng.as_term(i)), kind=o.kind, esort=o.esort)
    if inv is not None:
        r.info['inv'] = lambda x: n - 1 - inv(x)
    return r


def np_unique(eng, a, k):
    """the values that occur, strictly increasing"""
    if len(a) != 1 or k or not isinstance(a[0], SymList) or a[0].get is None:
        raise Unsupported('unique of %s' % type(a[0]).__name__)
    v = a[0]
    n, L = eng.as_term(v.length), eng.L
    at = lambda i: eng.as_term(v.get(i))
    i, j = z3.Const(eng.fresh_name('i'), I), z3.Const(eng.fresh_name('j'), I)
    sort = at(i).sort()
    if sort not in (I, R):
        raise Unsupported('unique of values of sort %s' % sort)
    U = eng.fresh_fun('unique', I, sort)
    place, src = eng.fresh_fun('uplace', I, I), eng.fresh_fun('usource', I, I)
    m = eng.fresh('nunique', I)
    ok = lambda i, n: z3.And(0 <= i, i < n)
    eng.assume(z3.And(0 <= m, m <= n))
    eng.assume(z3.ForAll([i], z3.Implies(ok(i, n), z3.And(
        ok(place(i), m), U(place(i)) == at(i)))))
    eng.assume(z3.ForAll([i], z3.Implies(ok(i, m), z3.And(
        ok(src(i), n), at(src(i)) == U(i)))))
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), U(i) < U(j))))
    r = SymList(eng, m, lambda i: U(eng.as_term(i)), kind='array', esort=sort)
    eng.uniques.append((v, r, place))
    return r


def np_argsort(eng, a, k):
    """some permutation of the places that sorts the values; labels have an order of their own"""
    if len(a) != 1 or k or not isinstance(a[0], SymList) or a[0].get is None:
        raise Unsupported('argsort of %s' % type(a[0]).__name__)
    v = a[0]
    n, L = eng.as_term(v.length), eng.L
    P, Q = eng.fresh_fun('argsort', I, I), eng.fresh_fun('argsortinv', I, I)
    i, j = z3.Const(eng.fresh_name('i'), I), z3.Const(eng.fresh_name('j'), I)
    ok = lambda i: z3.And(0 <= i, i < n)
    eng.assume(z3.ForAll([i], z3.Implies(ok(i), z3.And(ok(P(i)), Q(P(i)) == i))))
    eng.assume(z3.ForAll([i], z3.Implies(ok(i), z3.And(ok(Q(i)), P(Q(i)) == i))))
    key = lambda i: eng.as_term(v.get(P(i)))
    le = (lambda a, b: a <= b) if z3.is_arith(key(i)) else label_order(eng)
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), le(key(i), key(j)))))
    r = SymList(eng, n, lambda i: P(eng.as_term(i)), kind='array', esort=I)
    r.info['inv'] = Q
    eng.inverses[P.name()] = Q
    return r


def label_order(eng):
    """the order of labels: what numpy sorts by (reflexive, transitive and total for the labels
    of one kind; nothing of this is needed)"""
    from .engine import Val
    return z3.Function('label_le', Val, Val, B)
