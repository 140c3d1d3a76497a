"""Contracts of colorschemes.py and of the fading functions (C21)."""
from .common import *

FADE = '''
def fade(function, dim, timedepth, alpha_max, value):
    return dynamic_parameter(function, dim, timedepth, alpha_max)(value)
'''


@contract('causetplotting.fade', 'C21', dict(
    function=[('lit', 'linear'), ('lit', 'exponential'), ('lit', 'intensity')], dim='nat',
    timedepth='real', alpha_max='real', value='real'))
class _:
    opts = {'world': False, 'client': FADE}

    def requires(c):
        a, L = c.a, c.L
        return [('dimension', a.dim >= 1),
                ('exp does not overflow a float', L.And(
                    L.Implies(a.timedepth == 0, a.value >= 0),
                    L.Implies(a.timedepth > 0, lambda: a.value >= -700 * a.timedepth),
                    L.Implies(a.timedepth < 0, lambda: a.value <= -700 * a.timedepth)))]

    def ensures(c):
        L, a, r = c.L, c.a, c.result
        depth, v = a.timedepth, a.value
        rate = L.If(depth == 0, lambda: 1.0e10, lambda: 1 / depth)
        wrong = L.Or(L.And(depth > 0, v < 0), L.And(depth < 0, v > 0))
        law = {'linear': lambda: 1 - rate * v,
               'exponential': lambda: c.fn('exp', -rate * v),
               'intensity': lambda: 1 / c.fn('pow', L.If(v > 0, v, 0.0) + 1, c.R(a.dim - 1))}
        return [('maximum at 0', L.Implies(v == 0, lambda: c.close(r, a.alpha_max))),
                ('vanishes on the wrong side', L.Implies(wrong, lambda: c.eqn(r, 0))),
                ('follows the law', L.Implies(L.Not(wrong), lambda: c.close(
                    r, a.alpha_max * law[a.function]())))]


# ------------------------------------------------------------ colour schemes
def schemes():
    from causets import colorschemes
    return colorschemes.ColorSchemes


def scheme_name(rng, w):
    return rng.choice(sorted(schemes()) + ['no scheme', '', 'Matplotlib'])


def colour(rng, w):
    pal = schemes()[rng.choice(sorted(schemes()))]
    return rng.choice(['cs:' + rng.choice(sorted(pal)), 'cs:' + rng.choice(sorted(pal)),
                       rng.choice(sorted(pal)), 'CS:' + rng.choice(sorted(pal)), 'cs:none such',
                       'red', '', 'cs', 'cs:', ' cs:core', '#123456', 'xcs:core'])


def anything(rng, w):
    return rng.choice([colour(rng, w)] * 6 + [None, 1.5, 3, ('cs:core',), ['cs:core'], True])


def table(rng, w):
    return {rng.choice(['color', 'c', 'edgecolor', 'cs:core', 'label', 'x', 'y', 'z']):
            anything(rng, w) for _ in range(rng.randint(0, 6))}


SCHEME = ('sym', 'scheme', None, scheme_name)
COLOUR = ('sym', 'colour', None, colour)
TABLE = ('sym', 'parameters', None, table)
LIST = ('sym', 'colours', None, lambda rng, w: [colour(rng, w) for _ in range(rng.randint(0, 6))])
WHY = 'strings, dictionaries of unknown size and the module variable are outside the verifier'

# two requests for the global scheme, then the conversion
CLIENT = '''
def %s(first, second, scheme, value):
    setGlobalColorScheme(first)
    try:
        setGlobalColorScheme(second)
        refused = False
    except ValueError:
        refused = True
    G = getGlobalColorScheme()
    given = value
    try:
        R = %s(value, scheme)
        error = None
    except Exception as e:
        R, error = None, type(e).__name__
    return refused, G, R, error, getGlobalColorScheme() is G, R is given
'''


def _convert(name, fn, kind, leaves, rebuild):
    @contract('colorschemes.' + name, 'C21', dict(
        first=SCHEME, second=SCHEME, scheme=['none', SCHEME], value=kind))
    class _:
        opts = {'world': False, 'client': CLIENT % (name, fn)}
        bounded = WHY

        def call(fn, vals, c):
            import copy
            c.given = copy.deepcopy(vals['value'])
            try:
                return fn(**vals)
            finally:
                from causets import colorschemes
                colorschemes.setGlobalColorScheme('matplotlib')
        opts['call'] = call
        # the list or dictionary is converted in place
        opts['arguments_change'] = True

        def raises(c):
            return [('ValueError', c.vals['first'] not in schemes())]

        def ensures(c):
            refused, G, R, error, kept, same = c.raw
            v, S = c.vals, schemes()
            want_G = S[v['second']] if v['second'] in S else S[v['first']]
            out = [('unknown global scheme is refused', refused == (v['second'] not in S)),
                   ('global scheme', G is want_G),
                   ('conversion keeps the global scheme', kept)]
            if v['scheme'] is not None and v['scheme'] not in S:
                return out + [('unknown scheme is refused', error == 'ValueError')]
            pal = G if v['scheme'] is None else S[v['scheme']]
            cs = lambda x: isinstance(x, str) and x[:3] == 'cs:'
            if any(cs(x) and x[3:] not in pal for x in leaves(c.given)):
                return out + [('unknown colour is refused', error == 'KeyError')]
            want = rebuild(c.given, lambda x: pal[x[3:]] if cs(x) else x)
            return out + [('no error', error is None),
                          ('exactly the scheme colours are replaced', R == want and type(R) is
                           type(want) and list(R) == list(want))]


_convert('convert_one', 'getColor', COLOUR, lambda v: [v], lambda v, f: f(v))
_convert('convert_list', 'convertColorsInList', LIST, list, lambda v, f: [f(x) for x in v])
_convert('convert_dict', 'convertColorsInDict', TABLE, lambda v: list(v.values()),
         lambda v, f: {k: f(x) for k, x in v.items()})


@contract('colorschemes.palettes', 'C21', dict())
class _:
    opts = {'world': False, 'client': '''
def palettes():
    return ColorSchemes
'''}
    bounded = 'exhaustive over the colour tables; the oracle is the plotting library'

    def ensures(c):
        from matplotlib.colors import is_color_like
        S = c.raw
        return [('schemes', isinstance(S, dict) and len(S) > 0)] + [
            ('valid colour', all(isinstance(k, str) and is_color_like(v)
                                 for pal in S.values() for k, v in pal.items()))]
