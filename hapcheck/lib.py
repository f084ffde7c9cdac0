"""Models of the library functions used by the package (numpy, pandas, math, python)."""
from fractions import Fraction as F
from . import poly as P
from . import frames
from .poly import (Poly, IX, IXP, ZERO, ONE, NAN, INF, const, const_val, is_const, ap,
                   add, sub, mul, neg, select, subst, app, atom, ge, gt, eq, maxp, minp, absp,
                   b_and, b_or, b_not, single_atom, indicator, assign, div, ppow, power, scale, isnan)
from .values import *
from . import values as V

PI = ap(atom('pi', (), ('positive',)))
HALF = const(F(1, 2))


def constant(nm):
    if nm in ('numpy.pi', 'math.pi', 'scipy.pi'):
        return Sc(PI)
    if nm in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
        return Sc(NAN)
    if nm in ('numpy.inf', 'numpy.Inf', 'math.inf'):
        return Sc(INF)
    if nm == 'numpy.newaxis':
        return NONE
    return None


LOGS = ('logging.debug', 'logging.info', 'logging.warning', 'logging.error', 'logging.critical',
        'logging.log', 'logging.exception', 'builtins.print', 'logging.warn')


def is_log(nm):
    return nm in LOGS or nm.startswith('warnings.')


def is_log_obj(I, S, f):
    c = I.content(S, f.obj)
    if isinstance(c, Sc) and c.kind == 'o':
        a = single_atom(c.p)
        if a is not None and a.op == 'ext:call' and 'logging.' in str(a.args[0]):
            return f.attr in ('debug', 'info', 'warning', 'error', 'critical', 'log', 'exception')
    return False


# ------------------------------------------------------------------ pointwise functions
def fn1(op, flags=()):
    def f(p):
        return app(op, (p,), flags)
    return f


def odd(op):
    def f(p):
        r = P._lift1(f, p)
        if r is not None:
            return r
        if not p.terms:
            return ZERO
        if (p.terms[()] if is_const(p) else p.terms[P._lead(p)]) < 0:
            return neg(ap(atom(op, (neg(p),))))
        return ap(atom(op, (p,)))
    P.CTORS[op] = f
    return f


def even_(op, flags=()):
    def f(p):
        r = P._lift1(f, p)
        if r is not None:
            return r
        if not p.terms:
            return ONE
        if (p.terms[()] if is_const(p) else p.terms[P._lead(p)]) < 0:
            p = neg(p)
        return ap(atom(op, (p,), flags))
    P.CTORS[op] = f
    return f


_sin0, _cos0 = odd('sin'), even_('cos')


def _reduce_pi(p):
    """p -> (q, n) with p = q + n*pi/2, n integer, when p has such a constant part"""
    k = None
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'pi':
            k = c
    if k is None:
        return p, 0
    n2 = k * 2
    n = n2.__floor__()
    if n == 0:
        return p, 0
    return sub(p, scale(PI, F(n, 2))), n


def _bearing(p):
    """p = q + s*arctan2(y, x), s = 1 or -1  ->  (q, s*y/h, x/h): the angle is only ever its sine and cosine"""
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'arctan2' and abs(c) == 1:
            a = m[0][0]
            y, x = a.args
            if not (isinstance(y, P.Poly) and isinstance(x, P.Poly)):
                return None
            h = power(add(mul(x, x), mul(y, y)), F(-1, 2))
            return sub(p, scale(ap(a), c)), scale(mul(y, h), c), mul(x, h)
    return None


def f_sin(p):
    q, n = _reduce_pi(p)
    n %= 4
    b = _bearing(q) if n % 2 == 0 else None
    if b:
        r = add(mul(f_sin(b[0]), b[2]), mul(f_cos(b[0]), b[1]))
        return r if n == 0 else neg(r)
    return [_sin0, f_cos, lambda x: neg(_sin0(x)), lambda x: neg(f_cos(x))][n](q)


def f_cos(p):
    q, n = _reduce_pi(p)
    n %= 4
    b = _bearing(q) if n % 2 == 0 else None
    if b:
        r = sub(mul(f_cos(b[0]), b[2]), mul(f_sin(b[0]), b[1]))
        return r if n == 0 else neg(r)
    return [_cos0, lambda x: neg(f_sin(x)), lambda x: neg(_cos0(x)), f_sin][n](q)


def _tz(f):
    return lambda p: ZERO if not p.terms else f(p)


f_tan = odd('tan')
f_sinh, f_tanh, f_asin, f_atan = odd('sinh'), odd('tanh'), odd('arcsin'), odd('arctan')
f_cosh = even_('cosh', ('positive',))


def f_exp(p):
    return ppow(ap(atom('e', (), ('positive',))), p) if False else app('exp', (p,), ('positive',))


P.CTORS['exp'] = lambda p: ONE if not p.terms else None


def f_log(p):
    return app('ln', (p,))


P.CTORS['ln'] = lambda p: ZERO if p is ONE else None


def f_sign(p):
    return sub(gt(p), gt(neg(p)))


def f_sqrt(p):
    return power(p, F(1, 2))


def f_floor(p):
    return app('floor', (p,), ('int',))


def f_ceil(p):
    return neg(app('floor', (neg(p),), ('int',)))


def f_fix(p):
    return select(ge(p), f_floor(p), f_ceil(p))


def f_round(p):
    return app('round', (p,), ('int',))


P.CTORS['round'] = lambda p: p if P.is_int(p) else None


def f_isfinite(p):
    return app('isfin', (p,), ('bool',))


UNARY = {'sqrt': f_sqrt, 'abs': absp, 'fabs': absp, 'sin': f_sin, 'cos': f_cos, 'tan': f_tan,
         'sinh': f_sinh, 'cosh': f_cosh, 'tanh': f_tanh, 'arcsin': f_asin, 'arctan': f_atan,
         'arccos': lambda p: sub(scale(PI, F(1, 2)), f_asin(p)),
         'exp': f_exp, 'log': f_log, 'log10': lambda p: div(f_log(p), f_log(const(10))),
         'sign': f_sign, 'floor': f_floor, 'ceil': f_ceil, 'fix': f_fix, 'trunc': f_fix,
         'rint': f_round, 'square': lambda p: mul(p, p), 'negative': neg,
         'deg2rad': lambda p: div(mul(p, PI), const(180)), 'radians': lambda p: div(mul(p, PI), const(180)),
         'rad2deg': lambda p: div(mul(p, const(180)), PI), 'degrees': lambda p: div(mul(p, const(180)), PI),
         'reciprocal': lambda p: div(ONE, p), 'positive': lambda p: p, 'cbrt': lambda p: app('cbrt', (p,))}
UNARY['asin'], UNARY['atan'], UNARY['acos'] = UNARY['arcsin'], UNARY['arctan'], UNARY['arccos']
UNB = {'isnan': isnan, 'isfinite': f_isfinite, 'isinf': lambda p: app('isinf', (p,), ('bool',))}

from .interp import BINF, eqv, isnone, mod as p_mod, floordiv as p_fdiv
BINARY = {'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div,
          'power': ppow, 'float_power': ppow, 'maximum': maxp, 'minimum': minp, 'fmax': lambda a, b: fmax(a, b),
          'fmin': lambda a, b: fmin(a, b), 'mod': p_mod, 'remainder': p_mod, 'floor_divide': p_fdiv,
          'arctan2': lambda a, b: app('arctan2', (a, b)), 'atan2': lambda a, b: app('arctan2', (a, b)),
          'hypot': lambda a, b: f_sqrt(add(mul(a, a), mul(b, b))),
          'fmod': lambda a, b: app('fmod', (a, b)), 'copysign': lambda a, b: mul(absp(a), f_sign(b)),
          'pow': ppow}
BINB = {'greater': lambda a, b: gt(sub(a, b)), 'greater_equal': lambda a, b: ge(sub(a, b)),
        'less': lambda a, b: gt(sub(b, a)), 'less_equal': lambda a, b: ge(sub(b, a)),
        'equal': eqv, 'not_equal': lambda a, b: b_not(eqv(a, b)),
        'logical_and': b_and, 'logical_or': b_or, 'logical_xor': lambda a, b: sub(add(a, b), scale(mul(a, b), 2)),
        'bitwise_and': b_and, 'bitwise_or': b_or}


def fmax(a, b):
    return select(isnan(a), b, select(isnan(b), a, maxp(a, b)))


def fmin(a, b):
    return select(isnan(a), b, select(isnan(b), a, minp(a, b)))


def tob(I, x, kind):
    """truth of elements"""
    if kind == 'b':
        return x
    f = (lambda p: p if indicator(p) else b_not(eq(p)))
    return amap(x, f, 'b') if isinstance(x, Ar) else f(x)


def kind_of(I, S, v):
    c = I.content(S, v)
    return c.kind if isinstance(c, (Ar, Sc)) else 'n'


def ret(x, kind='n'):
    return x if isinstance(x, Ar) else Sc(x, kind)


def axis_of(I, S, kwargs, args, pos):
    v = kwargs.get('axis')
    if v is None and len(args) > pos:
        v = args[pos]
    if v is None:
        return None
    c = I.content(S, v)
    if isinstance(c, K):
        return None
    p = I.arr(S, c)
    return int(const_val(p)) if isinstance(p, Poly) and is_const(p) else 'sym'


def reduce_axis(a, axis, f):
    """f(body, n, var) over axis (or all axes)"""
    nd = a.nd
    if nd == 0:
        return a.el[()]
    axes = list(range(nd)) if axis is None else [axis % nd]
    cur = a
    for ax in sorted(axes, reverse=True):
        cur = reduce1(cur, ax, f)
        if isinstance(cur, Poly):
            return cur
    return cur


RV = atom('ix', (7,), ('int', 'nonneg'))


def reduce1(a, ax, f):
    dims = a.dims[:ax] + a.dims[ax + 1:]
    n = a.dims[ax]

    def g(idx):
        full = idx[:ax] + [ap(RV)] + idx[ax:]
        if ax in a.enum:
            # enumerate
            vals = [at(a, idx[:ax] + [const(k)] + idx[ax:]) for k in range(int(const_val(n)))]
            return f(vals, n, None)
        return f(at(a, full), n, RV)
    if not dims:
        return g([])
    return V.mk(dims, g, a.kind)


def red_fn(op):
    def f(body, n, var):
        if var is None:
            r = None
            for t in body:
                r = t if r is None else (add(r, t) if op == 'sum' else maxp(r, t) if op == 'max' else minp(r, t)
                                         if op == 'min' else mul(r, t))
            return r if r is not None else ZERO
        if op == 'prod':
            return V.reduce_('prod', body, n, var)
        return V.reduce_(op, body, n, var)
    return f


def nan_red(op):
    def f(body, n, var):
        if var is None:
            r = None
            for t in body:
                r = t if r is None else (fmax(r, t) if op == 'max' else fmin(r, t) if op == 'min' else
                                         add(select(isnan(r), ZERO, r), select(isnan(t), ZERO, t)))
            return r
        if op == 'sum':
            return V.reduce_('sum', select(isnan(body), ZERO, body), n, var)
        if isnan(body) is ZERO:
            return V.reduce_(op, body, n, var)
        return V.reduce_('nan' + op, body, n, var)
    return f


def any_fn(body, n, var):
    if var is None:
        r = ZERO
        for t in body:
            r = b_or(r, t)
        return r
    return V.b_any(body, n, var)


def all_fn(body, n, var):
    if var is None:
        r = ONE
        for t in body:
            r = b_and(r, t)
        return r
    return V.b_all(body, n, var)


def count_fn(body, n, var):
    if var is None:
        r = ZERO
        for t in body:
            r = add(r, t)
        return r
    return V.b_count(body, n, var)


def argred(op):
    def f(body, n, var, kind):
        if var is None:
            best, pos = body[0], ZERO
            for k, t in enumerate(body[1:], 1):
                c = gt(sub(t, best)) if op == 'max' else gt(sub(best, t))
                best, pos = select(c, t, best), select(c, const(k), pos)
            return pos
        if op == 'max' and (kind == 'b' or (body.terms and all(a._isb for m in body.terms for a, e in m))):
            return select(V.b_any(body, n, var), V.b_nth(body, n, ZERO, var), ZERO)
        if op == 'min' and kind == 'b':
            nb = b_not(body)
            return select(V.b_any(nb, n, var), V.b_nth(nb, n, ZERO, var), ZERO)
        o = 'arg' + op
        ld = body.terms[P._lead(body)] if body.terms else 1
        b2 = body
        if ld < 0:
            b2 = neg(body)
            o = 'arg' + ('min' if op == 'max' else 'max')
        if not (b2.deps & {var}):
            return ZERO
        # argmin |x - c| etc are shift invariant only inside abs: keep
        b, bd = V.close(b2, [var])
        return app('red', (b, o, bd, n), ('int', 'nonneg'), bound=b)
    return f


def flatnonzero(I, x):
    """indices where x"""
    if isinstance(x, Poly):
        return Ar((x,), (), {(): ZERO})
    x = V.unenum(x)
    body = x.el[()]
    n = x.dims[0]
    return V.mk((V.b_count(body, n),), lambda idx: V.b_nth(body, n, idx[0]), 'n', ())


def shape_arg(I, S, v):
    c = I.content(S, v)
    if isinstance(c, (Tup, LstC)):
        return [I.arr(S, x) for x in c.items]
    p = I.arr(S, c)
    if isinstance(p, Ar):
        n = int(const_val(p.dims[0]))
        return [at(p, [const(k)]) for k in range(n)]
    return [p]


def concat(I, S, arrs, axis=0):
    arrs = [x if isinstance(x, Ar) else Ar((ONE,), (0,), {(0,): x}) for x in arrs]
    arrs = [x for x in arrs if not (x.dims and x.dims[axis % x.nd] is ZERO)] or arrs[:1]
    if len(arrs) == 1:
        return arrs[0]
    nd = arrs[0].nd
    axis %= nd
    total = ZERO
    for a in arrs:
        total = add(total, a.dims[axis])
    dims = arrs[0].dims[:axis] + (total,) + arrs[0].dims[axis + 1:]

    def f(idx):
        i = idx[axis]
        off = ZERO
        offs = []
        for a in arrs:
            offs.append(off)
            off = add(off, a.dims[axis])
        r = None
        for a, o in reversed(list(zip(arrs, offs))):
            v = at(a, idx[:axis] + [sub(i, o)] + idx[axis + 1:])
            r = v if r is None else select(ge(sub(sub(add(o, a.dims[axis]), ONE), i)), v, r)
        return r
    return V.mk(dims, f, arrs[0].kind if all(a.kind == arrs[0].kind for a in arrs) else 'n')


def uninit(I, n):
    return app('uninit', (const(0),))


def linspace(I, a, b, n, endpoint=True):
    d = div(sub(b, a), sub(n, ONE) if endpoint else n)
    return V.mk((n,), lambda idx: add(a, mul(idx[0], d)))


def arange(I, a, b, s):
    n = div(sub(b, a), s)
    if not P.is_int(n):
        n = f_ceil(n)
    if is_const(n) and const_val(n) < 0:
        n = ZERO
    return V.mk((n,), lambda idx: add(a, mul(idx[0], s)))


def tofloat_arg(I, S, args, kwargs, name, pos):
    if name in kwargs:
        return kwargs[name]
    if len(args) > pos:
        return args[pos]
    return None


def is_none(v):
    return v is None or (isinstance(v, K) and v.v is None)


def length(I, S, v, n=None):
    c = I.content(S, v)
    if isinstance(c, (Tup, LstC)):
        return Sc(const(len(c.items)))
    if isinstance(c, Ar):
        return Sc(c.dims[0]) if c.nd else Sc(ONE)
    if isinstance(c, DctC) and c.base is None:
        return Sc(const(len(c.items)))
    if isinstance(c, K) and isinstance(c.v, str):
        return Sc(const(len(c.v)))
    if isinstance(c, Gv):
        a, b = length(I, S, c.a), length(I, S, c.b)
        return Sc(select(c.c, a.p, b.p))
    e = I.enc(S, c)
    return Sc(app('len', (e,), ('int', 'nonneg')))


def deftuple(x):
    return x if isinstance(x, tuple) else (x,)


def gam(I, S, v, f):
    """distribute a call over a guarded value"""
    c = I.content(S, v)
    if isinstance(c, Gv):
        a = I.bindable(S, gam(I, S, c.a, f))
        b = I.bindable(S, gam(I, S, c.b, f))
        return I.merge_val(S, c.c, a, b, S.heap, S.heap)
    return f(v)


# positional parameters of common library calls: a leading keyword is the same as giving it by position
SIGS = {k: v.split() for k, v in {
    'pandas.date_range': 'start end periods freq', 'pandas.Series': 'data index dtype name',
    'pandas.DataFrame': 'data index columns dtype', 'pandas.DatetimeIndex': 'data freq',
    'pandas.Timedelta': 'value unit', 'pandas.to_timedelta': 'arg unit', 'pandas.read_csv': 'filepath_or_buffer',
    'pandas.to_datetime': 'arg', 'pandas.concat': 'objs',
    'netCDF4.Dataset': 'filename mode', 'netCDF4.date2num': 'times units calendar', 'netCDF4.num2date': 'times units calendar',
    'builtins.open': 'file mode', 'os.path.isfile': 'path', 'os.remove': 'path',
    'numpy.full': 'shape fill_value', 'numpy.zeros': 'shape', 'numpy.ones': 'shape', 'numpy.empty': 'shape',
    'numpy.interp': 'x xp fp', 'numpy.clip': 'a a_min a_max', 'numpy.where': 'condition x y', 'numpy.asarray': 'a',
    'numpy.array': 'object', 'numpy.append': 'arr', 'numpy.insert': 'arr obj',
    'numpy.delete': 'arr obj', 'numpy.diff': 'a', 'numpy.repeat': 'a repeats', 'numpy.tile': 'A reps',
    'numpy.linspace': 'start stop num', 'numpy.flip': 'm', 'numpy.flipud': 'm', 'numpy.sum': 'a', 'numpy.max': 'a',
    'numpy.min': 'a', 'numpy.amax': 'a', 'numpy.amin': 'a', 'numpy.mean': 'a', 'numpy.nansum': 'a',
    'numpy.nanmean': 'a', 'numpy.any': 'a', 'numpy.all': 'a', 'numpy.isin': 'element test_elements',
    'scipy.linalg.solve_banded': 'l_and_u ab b', 'shapefile.Reader': 'shp', 'random.Random': 'x'}.items()}
METHOD_SIGS = {'createVariable': 'varname datatype dimensions'.split(), 'createDimension': 'dimname size'.split(),
               'resample': ['rule'], 'reindex': ['index'], 'interpolate': ['method']}


def by_position(sig, args, kwargs):
    """move keywords that continue the positional arguments"""
    if sig and kwargs and not any(type(a).__name__ == 'Star' for a in args):
        args, kwargs = list(args), dict(kwargs)
        while len(args) < len(sig) and sig[len(args)] in kwargs:
            args.append(kwargs.pop(sig[len(args)]))
    return args, kwargs


def call(I, S, name, args, kwargs, n):
    if kwargs and name in SIGS:
        args, kwargs = by_position(SIGS[name], args, kwargs)
    if I.frames_on:
        if name in frames.READERS:
            r = frames.make(I, S, name, args, kwargs, n)
            if r is not None:
                return r
        if name == 'pandas.to_datetime' and len(args) == 1 and frames.is_frame(I.content(S, args[0])):
            c = I.content(S, args[0])
            ks = frames.cols(I, S, c)
            if ks is not None:
                return Sc(app('datetime', tuple(('kw', k.lower().rstrip('s'), I.enc(S, frames.col(c, k))) for k in sorted(ks, key=str.lower))), 'n')
    for pre in ('numpy.', 'math.', 'numpy.ma.'):
        if name.startswith(pre):
            r = np_call(I, S, name[len(pre):], args, kwargs, n)
            if r is not None:
                return r
    if name.startswith('builtins.'):
        r = bi_call(I, S, name[9:], args, kwargs, n)
        if r is not None:
            return r
    if name.startswith('pandas.'):
        r = pd_call(I, S, name[7:], args, kwargs, n)
        if r is not None:
            return r
    if name in ('datetime.timedelta',):
        return timedelta(I, S, args, kwargs)
    if name in ('copy.copy', 'copy.deepcopy'):
        return copy_val(I, S, args[0])
    if name == 'netCDF4.date2num' or name == 'netCDF4.num2date':
        return I.opq('call:' + name, [I.enc(S, a) for a in args] + kwenc(I, S, kwargs))
    if name == 'scipy.linalg.solve_banded' and len(args) >= 3:
        b = I.arr(S, args[2])
        if isinstance(b, Ar) and b.nd == 1:
            p = ext_call(I, S, name, args, kwargs, n)
            q = p.p if isinstance(p, Sc) else I.content(S, p).p
            return V.mk(b.dims, lambda idx: app('rd', (q,) + tuple(idx)))
    return ext_call(I, S, name, args, kwargs, n)


PURE_EXT = ('numpy.', 'math.', 'pandas.', 'scipy.', 'os.path.', 'datetime.', 'time.', 'builtins.', 'netCDF4.date2num',
            'netCDF4.num2date')
IMPURE_BI = ('builtins.open', 'builtins.input', 'builtins.exec', 'builtins.eval', 'builtins.setattr')


def kwenc(I, S, kwargs):
    return [('kw', k, I.enc(S, v)) for k, v in sorted(kwargs.items())]


def ext_call(I, S, name, args, kwargs, n):
    enc = [I.enc(S, a) for a in args] + kwenc(I, S, kwargs)
    if not name.startswith(PURE_EXT) or name in IMPURE_BI or 'random' in name or name.startswith('time.') or \
            name in ('pandas.Timestamp.now', 'datetime.datetime.now', 'numpy.save', 'numpy.savetxt'):
        I.event(S, 'call', (name,) + tuple(enc), n)
    if 'random' in name:
        I.event(S, 'random', (name,), n)
        if n is not None:
            enc = enc + [('draw', len([e for e in I.events if e.kind == 'random']))]
    if name == 'builtins.input' and 'input' in I.cfg:
        return K(I.cfg['input'])
    return I.opq('call:' + name, enc)


def copy_val(I, S, v):
    c = I.content(S, v)
    if isinstance(c, Sc):
        return c
    if isinstance(c, (Ar, LstC, DctC, ObjC)):
        if isinstance(c, LstC):
            return LstC(c.items)
        if isinstance(c, DctC):
            return DctC(c.base, c.items, c.removed)
        return c
    if isinstance(c, Gv):
        return Gv(c.c, I.bindable(S, copy_val(I, S, c.a)), I.bindable(S, copy_val(I, S, c.b)))
    return v


def one_case(I, S, v, depth=0):
    """(condition, value if it holds, value otherwise) for the first list in v whose items depend on a condition"""
    c = I.content(S, v)
    if type(c).__name__ == 'SeqG':
        return c.c, c.a, c.b
    if isinstance(c, (LstC, Tup)) and depth < 2:
        for k, x in enumerate(c.items):
            r = one_case(I, S, x, depth + 1)
            if r is not None:
                its = list(c.items)
                return (r[0],) + tuple(type(c)(its[:k] + [y] + its[k + 1:]) for y in r[1:])
    return None


def np_call(I, S, f, args, kwargs, n):
    for k, x in enumerate(args):
        r = one_case(I, S, x)
        if r is not None:
            ys = [np_call(I, S, f, list(args[:k]) + [y] + list(args[k + 1:]), kwargs, n) for y in r[1:]]
            if None in ys:
                return None
            ys = [I.bindable(S, y) for y in ys]
            return I.merge_val(S, r[0], ys[0], ys[1], S.heap, S.heap)
    A = lambda i: I.arr(S, args[i])
    dt = None
    if f in UNARY and args:
        if 'where' in kwargs or 'out' in kwargs:
            return masked_ufunc(I, S, f, UNARY[f], args[:1], kwargs, n, 'n')
        x = A(0)
        return amap(x, UNARY[f], 'n') if isinstance(x, Ar) else Sc(UNARY[f](x))
    if f in UNB and args:
        x = A(0)
        return amap(x, UNB[f], 'b') if isinstance(x, Ar) else Sc(UNB[f](x), 'b')
    if f in BINARY and len(args) >= 2:
        if 'where' in kwargs or 'out' in kwargs:
            return masked_ufunc(I, S, f, BINARY[f], args[:2], kwargs, n, 'n')
        return ret(V.elementwise(BINARY[f], [A(0), A(1)]))
    if f in BINB and len(args) >= 2:
        g = BINB[f]
        if 'where' in kwargs or 'out' in kwargs or len(args) > 2:
            return masked_ufunc(I, S, f, g, args[:2], dict(kwargs, **({'out': args[2]} if len(args) > 2 else {})), n, 'b')
        x, y = A(0), A(1)
        if f.startswith(('logical', 'bitwise')):
            x, y = tob(I, x, kind_of(I, S, args[0])), tob(I, y, kind_of(I, S, args[1]))
        return ret(V.elementwise(g, [x, y], 'b'), 'b')
    if f in ('logical_not', 'invert', 'bitwise_not'):
        x = tob(I, A(0), kind_of(I, S, args[0]))
        return amap(x, b_not, 'b') if isinstance(x, Ar) else Sc(b_not(x), 'b')
    if f in ('any', 'all'):
        return gam(I, S, args[0], lambda v: red_bool(I, S, f, v, args, kwargs))
    if f in ('sum', 'nansum', 'amax', 'max', 'amin', 'min', 'nanmax', 'nanmin', 'prod'):
        return gam(I, S, args[0], lambda v: red_num(I, S, f, v, args, kwargs))
    if f in ('mean', 'nanmean', 'average'):
        x = A(0)
        if not isinstance(x, Ar) or f == 'nanmean' or 'weights' in kwargs:
            if isinstance(x, Poly):
                return Sc(x)
            if f == 'nanmean':
                ax = axis_of(I, S, kwargs, args, 1)
                if ax == 'sym':
                    return None
                s = reduce_axis(x, ax, nan_red('sum'))
                c = reduce_axis(amap(x, lambda p: b_not(isnan(p)), 'b'), ax, count_fn)
                return ret(V.elementwise(div, [s, c]))
            return None
        ax = axis_of(I, S, kwargs, args, 1)
        if ax == 'sym':
            return None
        s = reduce_axis(x, ax, red_fn('sum'))
        nn = V.full_len(x) if ax is None else x.dims[ax]
        return ret(V.elementwise(div, [s, nn]))
    if f == 'count_nonzero':
        x = tob(I, A(0), kind_of(I, S, args[0]))
        ax = axis_of(I, S, kwargs, args, 1)
        if isinstance(x, Poly):
            return Sc(x)
        if ax == 'sym':
            return None
        return ret(reduce_axis(x, ax, count_fn))
    if f in ('argmax', 'argmin', 'nanargmax', 'nanargmin'):
        return gam(I, S, args[0], lambda v: red_arg(I, S, f, v, args, kwargs))
    if f in ('flatnonzero',):
        return flatnonzero(I, tob(I, A(0), kind_of(I, S, args[0])))
    if f in ('nonzero', 'argwhere') or f == 'where' and len(args) == 1:
        x = tob(I, A(0), kind_of(I, S, args[0]))
        if isinstance(x, Ar) and x.nd == 1:
            r = flatnonzero(I, x)
            if f == 'argwhere':
                return V.mk((r.dims[0], ONE), lambda idx: at(r, [idx[0]]))
            return Tup([I.bindable(S, r)])
        return None
    if f == 'where':
        c = tob(I, A(0), kind_of(I, S, args[0]))
        ks = [kind_of(I, S, args[1]), kind_of(I, S, args[2])]
        k = 'b' if ks == ['b', 'b'] else 'n'
        return ret(V.elementwise(select, [c, A(1), A(2)], k), k)
    if f in ('zeros', 'ones', 'full', 'empty'):
        dims = shape_arg(I, S, args[0])
        kind = dtype_kind(I, S, kwargs.get('dtype', args[1] if f != 'full' and len(args) > 1 else None))
        if f == 'full':
            v = A(1) if len(args) > 1 else I.arr(S, kwargs['fill_value'])
            k = kind_of(I, S, args[1]) if len(args) > 1 else 'n'
            if kind == 'b':
                k = 'b'
            if isinstance(v, Ar):
                return V.mk(dims, lambda idx: bat(v, idx), k)
            return V.mk(dims, lambda idx: v, k)
        if f == 'empty':
            u = uninit(I, n)
            return V.mk(dims, lambda idx: app('uninit', tuple(idx)), kind)
        v = ZERO if f == 'zeros' else ONE
        return V.mk(dims, lambda idx: v, kind)
    if f in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
        x = A(0)
        kind = kind_of(I, S, args[0])
        if 'dtype' in kwargs:
            kind = dtype_kind(I, S, kwargs['dtype'])
        if f == 'full_like':
            v = A(1)
        else:
            v = {'zeros_like': ZERO, 'ones_like': ONE}.get(f)
        if not isinstance(x, Ar):
            return Sc(v if v is not None else app('uninit', ()), kind)
        if v is None:
            return V.mk(x.dims, lambda idx: app('uninit', tuple(idx)), kind)
        return V.mk(x.dims, lambda idx: v if isinstance(v, Poly) else bat(v, idx), kind)
    if f in ('array', 'asarray', 'copy', 'atleast_1d', 'asanyarray', 'ascontiguousarray', 'squeeze', 'float64', 'float32',
             'int64', 'int32', 'int_', 'float_', 'bool_', 'ravel'):
        if f in ('float64', 'float_', 'float32', 'int64', 'int32', 'int_'):
            return gam(I, S, args[0], lambda v: ret(I.arr(S, v)))
        c = I.content(S, args[0])
        if isinstance(c, Gv):
            return gam(I, S, args[0], lambda v: np_call(I, S, f, [v] + list(args[1:]), kwargs, n))
        if isinstance(c, Ar):
            if f in ('asarray', 'atleast_1d', 'asanyarray'):
                return args[0]
            if f == 'squeeze':
                return squeeze(c)
            if f == 'ravel' and c.nd != 1:
                return None
            k = dtype_kind(I, S, kwargs.get('dtype')) if 'dtype' in kwargs else c.kind
            if k == 'b' and c.kind != 'b':
                return tob(I, c, c.kind)
            return Ar(c.dims, c.enum, c.el, k if 'dtype' in kwargs else c.kind)
        if isinstance(c, (Tup, LstC)):
            r = I.seq_to_ar(S, c.items)
            return r
        if type(c).__name__ == "SeqG":
            return None
        if isinstance(c, Sc):
            if f == 'atleast_1d':
                return Ar((ONE,), (0,), {(0,): c.p}, c.kind)
            if c.kind == 'o':
                return Sc(c.p, 'o')
            return c
        return None
    if f in ('arange',):
        ps = [A(i) for i in range(len(args))]
        if not all(isinstance(p, Poly) for p in ps):
            return None
        if len(ps) == 1:
            return arange(I, ZERO, ps[0], ONE)
        if len(ps) == 2:
            return arange(I, ps[0], ps[1], ONE)
        return arange(I, ps[0], ps[1], ps[2])
    if f == 'linspace':
        nn = A(2) if len(args) > 2 else (I.arr(S, kwargs['num']) if 'num' in kwargs else const(50))
        a, b = A(0), A(1)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return linspace(I, a, b, nn)
        return None
    if f == 'diff':
        x = A(0)
        ax = axis_of(I, S, kwargs, args, 2)
        if not isinstance(x, Ar):
            return None
        ax = x.nd - 1 if ax is None else ax
        if ax == 'sym':
            return None
        ax %= x.nd
        dims = x.dims[:ax] + (sub(x.dims[ax], ONE),) + x.dims[ax + 1:]
        return V.mk(dims, lambda idx: sub(at(x, idx[:ax] + [add(idx[ax], ONE)] + idx[ax + 1:]), at(x, idx)))
    if f == 'cumsum':
        x = A(0)
        if not isinstance(x, Ar) or x.nd != 1:
            return None
        x2 = V.unenum(x)
        body = x2.el[()]
        return V.mk(x.dims, lambda idx: V.reduce_('sum', subst(body, {IX[0]: ap(RV)}), add(idx[0], ONE), RV), 'n', ())
    if f in ('concatenate', 'hstack', 'append', 'r_', 'vstack', 'column_stack', 'stack'):
        return np_concat(I, S, f, args, kwargs, n)
    if f in ('flip', 'flipud', 'fliplr'):
        x = A(0)
        if not isinstance(x, Ar):
            return None
        ax = axis_of(I, S, kwargs, args, 1)
        ax = {'flipud': 0, 'fliplr': 1}.get(f, 0 if x.nd == 1 else ax)
        if ax is None or ax == 'sym':
            return None
        sels = [('rng', ZERO, 1, d) for d in x.dims]
        sels[ax] = ('rng', sub(x.dims[ax], ONE), -1, x.dims[ax])
        c = args[0]
        if isinstance(c, Ref):
            return Ref(c.cell, c.views + (tuple(sels),))
        return V.sel_read(x, sels)
    if f == 'tile':
        x, m = A(0), A(1)
        if isinstance(x, Poly) and isinstance(m, Poly):
            return V.mk((m,), lambda idx: x, kind_of(I, S, args[0]))
        if isinstance(x, Poly) and isinstance(m, Ar):
            return V.mk(shape_arg(I, S, args[1]), lambda idx: x)
        return None
    if f == 'repeat':
        x, m = A(0), A(1)
        if isinstance(x, Poly) and isinstance(m, Poly):
            return V.mk((m,), lambda idx: x, kind_of(I, S, args[0]))
        return None
    if f == 'clip':
        lo, hi = (args[1] if len(args) > 1 else kwargs.get('a_min', NONE), args[2] if len(args) > 2 else kwargs.get('a_max', NONE))
        no = [isinstance(x, K) and x.v is None for x in (I.content(S, lo), I.content(S, hi))]
        if all(no):
            return None
        if any(no):
            return ret(V.elementwise(minp if no[0] else maxp, [A(0), I.arr(S, hi if no[0] else lo)]))
        return ret(V.elementwise(lambda x, lo, hi: minp(maxp(x, lo), hi), [A(0), A(1), A(2)]))
    if f == 'isin' or f == 'in1d':
        x, y = A(0), A(1)
        if isinstance(y, Ar) and y.nd == 1:
            def g(p):
                if y.enum:
                    r = ZERO
                    for q in y.el.values():
                        r = b_or(r, eqv(p, q))
                    return r
                c, pos = V.invert(y, p, ap(atom('size', ('*',), ('int', 'positive'))))
                return c
            return amap(x, g, 'b') if isinstance(x, Ar) else Sc(g(x), 'b')
        return None
    if f in ('setdiff1d',):
        x, y = A(0), A(1)
        if isinstance(x, Ar) and isinstance(y, Ar):
            m = np_call(I, S, 'isin', [args[0], args[1]], {}, n)
            return V.sel_read(x, [('msk', amap(m, b_not, 'b'))])
        return None
    if f == 'interp':
        x, xp, fp = A(0), A(1), A(2)
        e = [V.lam_arg(xp), V.lam_arg(fp)] + kwenc(I, S, kwargs)
        g = lambda p: app('interp', (p,) + tuple(e))
        return amap(x, g, 'n') if isinstance(x, Ar) else Sc(g(x))
    if f == 'dot' or f == 'matmul':
        x, y = A(0), A(1)
        if isinstance(x, Ar) and isinstance(y, Ar) and x.nd == 1 and y.nd == 1:
            return ret(reduce_axis(V.elementwise(mul, [x, y]), None, red_fn('sum')))
        return None
    if f in ('outer',):
        x, y = A(0), A(1)
        return V.mk((x.dims[0], y.dims[0]), lambda idx: mul(at(x, [idx[0]]), at(y, [idx[1]])))
    if f in ('transpose',):
        return transpose(A(0))
    if f == 'reshape':
        return reshape(I, S, A(0), shape_arg(I, S, args[1]))
    if f == 'expand_dims':
        x = A(0)
        ax = axis_of(I, S, kwargs, args, 1)
        if isinstance(x, Ar) and ax in (0, 1):
            dims = x.dims[:ax] + (ONE,) + x.dims[ax:]
            return V.mk(dims, lambda idx: at(x, idx[:ax] + idx[ax + 1:]))
        return None
    if f == 'logical_and.reduce' or f == 'logical_or.reduce':
        c = I.content(S, args[0])
        if isinstance(c, (LstC, Tup)):
            r = None
            g = b_and if 'and' in f else b_or
            for it in c.items:
                x = tob(I, I.arr(S, it), kind_of(I, S, it))
                r = x if r is None else V.elementwise(g, [r, x], 'b')
            return ret(r, 'b')
        return None
    if f in ('maximum.reduce', 'minimum.reduce'):
        return red_num(I, S, 'max' if f[1] == 'a' else 'min', args[0], [args[0], num(0)], {})
    if f == 'round' or f == 'around' or f == 'round_':
        if len(args) > 1 or 'decimals' in kwargs:
            d = I.enc(S, args[1] if len(args) > 1 else kwargs['decimals'])
            g = lambda p: app('roundd', (p, d))
        else:
            g = f_round
        x = A(0)
        return amap(x, g) if isinstance(x, Ar) else Sc(g(x))
    if f in ('shape', 'size', 'ndim'):
        c = I.content(S, args[0])
        return attribute(I, S, args[0], c, f, n)
    if f == 'isscalar':
        c = I.content(S, args[0])
        return FALSE if isinstance(c, Ar) else TRUE
    if f == 'nan_to_num':
        x = A(0)
        g = lambda p: select(isnan(p), ZERO, p)
        return amap(x, g) if isinstance(x, Ar) else Sc(g(x))
    if f == 'array_equal':
        x, y = A(0), A(1)
        r = V.elementwise(eqv, [x, y], 'b')
        return Sc(reduce_axis(r, None, all_fn) if isinstance(r, Ar) else r, 'b')
    if f == 'errstate' or f == 'seterr' or f == 'set_printoptions':
        return Sc(ap(atom('npstate')), 'o')
    if f == 'putmask' or f == 'place' or f == 'copyto':
        if f == 'copyto':
            m = kwargs.get('where')
            if m is None:
                I.store_index(S, args[0], [Slc(None, None, None)], args[1], n)
                return NONE
            x = A(1)
            mm = I.content(S, m)
            v = V.sel_read(x, [('msk', mm)]) if isinstance(x, Ar) else Sc(x)
            I.store_index(S, args[0], [m], v, n)
            return NONE
        if f == 'putmask':
            x = A(2)
            m = I.content(S, args[1])
            v = V.sel_read(x, [('msk', m)]) if isinstance(x, Ar) else Sc(x)
            I.store_index(S, args[0], [args[1]], v, n)
            return NONE
        return None
    if f == 'add.at' or f == 'subtract.at':
        return None
    if f == 'vectorize':
        return args[0]
    if f in ('trapz',):
        return None
    if f == 'unique':
        return None
    return None


def squeeze(c):
    keep = [k for k in range(c.nd) if c.dims[k] is not ONE]
    if len(keep) == c.nd:
        return c
    sels = [('rng', ZERO, 1, c.dims[k]) if k in keep else ('at', ZERO) for k in range(c.nd)]
    r = V.sel_read(c, sels)
    return r if isinstance(r, Ar) else Sc(r, c.kind)


def transpose(x):
    if not isinstance(x, Ar) or x.nd != 2:
        return x if isinstance(x, Ar) else None
    return V.mk((x.dims[1], x.dims[0]), lambda idx: at(x, [idx[1], idx[0]]), x.kind)


def reshape(I, S, x, dims):
    if not isinstance(x, Ar):
        return None
    if len(dims) == 1 and x.nd == 1:
        return x
    if len(dims) == 2 and x.nd == 1:
        if dims[1] is ONE:
            return V.mk((x.dims[0], ONE), lambda idx: at(x, [idx[0]]), x.kind)
        if dims[0] is ONE:
            return V.mk((ONE, x.dims[0]), lambda idx: at(x, [idx[1]]), x.kind)
    return None


def masked_ufunc(I, S, f, g, args, kwargs, n, kind):
    xs = [I.arr(S, a) for a in args]
    if f.startswith(('logical', 'bitwise')):
        xs = [tob(I, x, kind_of(I, S, a)) for x, a in zip(xs, args)]
    r = V.elementwise(g, xs, kind)
    w = kwargs.get('where')
    o = kwargs.get('out')
    if o is not None:
        oc = I.content(S, o)
        if isinstance(oc, Tup):
            o = oc.items[0]
            oc = I.content(S, o)
    if w is not None and not (isinstance(w, Sc) and w.p is ONE):
        wp = tob(I, I.arr(S, w), kind_of(I, S, w))
        if o is None or is_none(o):
            I.event(S, 'uninit', (f,), n)
            base = lambda idx: app('uninit', tuple(idx), ('bool',) if kind == 'b' else ())
            dims = V.bshape([x for x in [r, wp] if isinstance(x, Ar)])
            r = V.mk(dims, lambda idx: select(bat(wp, idx), bat(r, idx), base(idx)), kind)
        else:
            oa = I.arr(S, o)
            r = V.elementwise(select, [wp, r, oa], kind)
    if o is not None and not is_none(o):
        if isinstance(o, Ref):
            I.write_ref(S, o, r, n)
            return o
    return ret(r, kind)


def red_bool(I, S, f, v, args, kwargs):
    c = I.content(S, v)
    if isinstance(c, (Tup, LstC)) and not all(isinstance(I.content(S, x), (Sc, K)) for x in c.items):
        r = ZERO if f == 'any' else ONE
        for it in c.items:
            t = red_bool(I, S, f, it, [it], {}).p
            r = b_or(r, t) if f == 'any' else b_and(r, t)
        return Sc(r, 'b')
    x = tob(I, I.arr(S, v), kind_of(I, S, v)) if kind_of(I, S, v) != 'o' else I.truth_o(I.arr(S, v))
    if isinstance(x, Poly):
        return Sc(x, 'b')
    ax = axis_of(I, S, kwargs, args, 1)
    if ax == 'sym':
        return None
    return ret(reduce_axis(x, ax, any_fn if f == 'any' else all_fn), 'b')


def red_num(I, S, f, v, args, kwargs):
    x = I.arr(S, v)
    f = f.replace('amax', 'max').replace('amin', 'min')
    k = kind_of(I, S, v)
    if isinstance(x, Poly):
        if k == 'o':
            return I.opq('call:numpy.' + f, [x])
        return Sc(x)
    ax = axis_of(I, S, kwargs, args, 1)
    if ax == 'sym':
        return None
    if 'where' in kwargs or 'initial' in kwargs:
        return None
    if f == 'sum' and k == 'b':
        return ret(reduce_axis(x, ax, count_fn))
    if f.startswith('nan'):
        return ret(reduce_axis(x, ax, nan_red(f[3:])))
    return ret(reduce_axis(x, ax, red_fn(f)))


def red_arg(I, S, f, v, args, kwargs):
    x = I.arr(S, v)
    k = kind_of(I, S, v)
    if isinstance(x, Poly):
        return I.opq('call:numpy.' + f, [x])
    if x.nd != 1:
        return I.opq('call:numpy.' + f, [V.lam_arg(x)], 'n')
    if f.startswith('nan'):
        if isnan(V.unenum(x).el[()]) is not ZERO:
            return I.opq('call:numpy.' + f, [V.lam_arg(x)], 'n', ('int',))
        f = f[3:]
    g = argred(f[3:])
    return Sc(reduce1(x, 0, lambda b, n, var: g(b, n, var, k)))


def dtype_kind(I, S, v):
    if v is None:
        return 'n'
    c = I.content(S, v)
    if isinstance(c, Ext) and c.name in ('builtins.bool', 'numpy.bool_', 'numpy.bool'):
        return 'b'
    if isinstance(c, K) and c.v in ('bool', '?', 'b'):
        return 'b'
    return 'n'


def np_concat(I, S, f, args, kwargs, n):
    if f == 'append':
        items = [args[0], args[1]]
    else:
        c = I.content(S, args[0])
        if not isinstance(c, (Tup, LstC)):
            return None
        items = c.items
    arrs = []
    for it in items:
        c = I.content(S, it)
        x = I.arr(S, it)
        arrs.append(x)
    if f in ('vstack', 'stack'):
        if all(isinstance(x, Ar) and x.nd == 1 for x in arrs):
            return V.mk((const(len(arrs)),) + arrs[0].dims, lambda idx: at(arrs[int(const_val(idx[0]))], idx[1:]))
        if f == 'stack':
            return None
    if f == 'column_stack':
        if all(isinstance(x, Ar) and x.nd == 1 for x in arrs):
            return V.mk((arrs[0].dims[0], const(len(arrs))), lambda idx: at(arrs[int(const_val(idx[1]))], idx[:1]))
        return None
    ax = axis_of(I, S, kwargs, args, 2 if f == 'append' else 1)
    if ax == 'sym':
        return None
    if ax is None:
        ax = 1 if f == 'hstack' and any(isinstance(x, Ar) and x.nd > 1 for x in arrs) else 0
    return concat(I, S, arrs, ax)


# ------------------------------------------------------------------ python builtins
def bi_call(I, S, f, args, kwargs, n):
    A = lambda i: I.arr(S, args[i])
    if f == 'len':
        c = I.content(S, args[0])
        if isinstance(c, Sc) and I.time_axis(c.p):
            return Sc(app('attr', (c.p, 'size')), 'o')
        return length(I, S, args[0], n)
    if f == 'abs':
        x = A(0)
        return amap(x, absp) if isinstance(x, Ar) else Sc(absp(x))
    if f in ('max', 'min', 'sum'):
        if len(args) == 1:
            c = I.content(S, args[0])
            if isinstance(c, (Tup, LstC)):
                if f == 'sum':
                    r = Sc(ZERO)
                    for it in c.items:
                        r = I.binop('Add', r, it, S, n)
                    return r
                args = list(c.items)
                if 'key' in kwargs or 'default' in kwargs and not args:
                    return None
            elif isinstance(c, Ar):
                return red_num(I, S, f, args[0], [args[0]], {})
            else:
                return None
        if f == 'sum':
            return None
        if 'key' in kwargs or not args:
            return None
        # the builtin compares truth values: its arguments are scalars or arrays of one element
        A1 = lambda i: (lambda x: at(x, [ZERO] * x.nd) if isinstance(x, Ar) else x)(A(i))
        r = A1(0)
        g = maxp if f == 'max' else minp
        for i in range(1, len(args)):
            r = g(r, A1(i))
            if I.cfg.get('adef') and not r.deps:
                r = I.name_body(r)
        return ret(r)
    if f in ('any', 'all'):
        return red_bool(I, S, f, args[0], [args[0]], {})
    if f == 'float':
        c = I.content(S, args[0])
        if isinstance(c, K) and isinstance(c.v, str) and c.v.lower() in ('nan', 'inf'):
            return Sc(NAN if c.v.lower() == 'nan' else INF)
        x = I.arr(S, c)
        if isinstance(x, Ar):
            return Sc(at(x, [ZERO] * x.nd))
        return Sc(x, 'n')
    if f == 'int':
        x = A(0)
        if isinstance(x, Ar):
            x = at(x, [ZERO] * x.nd)
        return Sc(x if P.is_int(x) else f_fix(x))
    if f == 'bool':
        return Sc(I.truth(S, args[0]), 'b')
    if f == 'round':
        if len(args) > 1:
            return Sc(app('roundd', (A(0), A(1))))
        return Sc(f_round(A(0)))
    if f == 'pow':
        return ret(V.elementwise(ppow, [A(0), A(1)]))
    if f == 'range':
        ps = [A(i) for i in range(len(args))]
        a, b, s = (ZERO, ps[0], ONE) if len(ps) == 1 else (ps[0], ps[1], ps[2] if len(ps) > 2 else ONE)
        if is_const(s) and abs(const_val(s)) == 1:
            nn = mul(sub(b, a), s)
        else:
            nn = f_ceil(div(sub(b, a), s))
        if is_const(nn) and const_val(nn) < 0:
            nn = ZERO
        return V.mk((nn,), lambda idx: add(a, mul(idx[0], s)))
    if f in ('list', 'tuple', 'sorted', 'set', 'frozenset'):
        if not args:
            return LstC([]) if f != 'tuple' else Tup([])
        c = I.content(S, args[0])
        if f == 'sorted':
            return None
        if isinstance(c, (Tup, LstC)):
            return LstC(c.items) if f != 'tuple' else Tup(c.items)
        if isinstance(c, Ar):
            return c
        if isinstance(c, DctC) and c.base is None:
            return LstC([K(k) if isinstance(k, str) else num(k) for k in c.items])
        return None
    if f == 'dict':
        if args:
            c = I.content(S, args[0])
            if isinstance(c, DctC):
                it = dict(c.items)
                it.update({k: v for k, v in kwargs.items()})
                return DctC(c.base, it, c.removed)
            return None
        return DctC(None, dict(kwargs))
    if f == 'zip':
        seqs = [iter_items(I, S, a) for a in args]
        if all(s is not None for s in seqs):
            return LstC([Tup(list(t)) for t in zip(*seqs)])
        return SeqIter('zip', args)
    if f == 'enumerate':
        s = iter_items(I, S, args[0])
        st = A(1) if len(args) > 1 else (I.arr(S, kwargs['start']) if 'start' in kwargs else ZERO)
        if s is not None:
            return LstC([Tup([Sc(add(st, const(i))), x]) for i, x in enumerate(s)])
        return SeqIter('enumerate', args[:1], st)
    if f == 'reversed':
        c = I.content(S, args[0])
        if isinstance(c, (Tup, LstC)):
            return LstC(list(reversed(c.items)))
        if isinstance(c, Ar) and c.nd == 1:
            return V.sel_read(c, [('rng', sub(c.dims[0], ONE), -1, c.dims[0])])
        return None
    if f == 'isinstance':
        return Sc(app('instance', (I.enc(S, args[0]), I.enc(S, args[1]))), 'b')
    if f == 'str':
        c = I.content(S, args[0]) if args else K('')
        if isinstance(c, K) and isinstance(c.v, str):
            return c
        return Sc(app('ext:str', (I.enc(S, c),)), 'o')
    if f == 'slice':
        a = [None if is_none(x) else x for x in args]
        if len(a) == 1:
            return Slc(None, a[0], None)
        return Slc(a[0], a[1], a[2] if len(a) > 2 else None)
    if f == 'setattr' and len(args) == 3 and isinstance(I.content(S, args[1]), K) and isinstance(I.content(S, args[1]).v, str):
        I.setattr_(S, args[0], I.content(S, args[1]).v, args[2], n)
        return NONE
    if f == 'getattr' and len(args) >= 2:
        k = I.content(S, args[1])
        if isinstance(k, K):
            return I.getattr_(S, args[0], k.v, n)
    if f == 'type':
        return Sc(app('ext:type', (I.enc(S, args[0]),)), 'o')
    if f == 'divmod':
        return Tup([Sc(p_fdiv(A(0), A(1))), Sc(p_mod(A(0), A(1)))])
    return None


class SeqIter(Val):
    """lazy zip/enumerate of symbolic sequences"""
    def __init__(self, op, args, start=None):
        self.op, self.args, self.start = op, args, start


def iter_items(I, S, v):
    """python list of item values when the length is statically known"""
    c = I.content(S, v)
    if isinstance(c, (Tup, LstC)):
        return list(c.items)
    if isinstance(c, K) and isinstance(c.v, str):
        return [K(x) for x in c.v]
    if isinstance(c, Ar) and is_const(c.dims[0]) and const_val(c.dims[0]) <= 16:
        return [I.bindable(S, I.wrap(S, V.sel_read(c, [('at', const(i))] + I.full_sels(c, 1)), c.kind))
                for i in range(int(const_val(c.dims[0])))]
    if isinstance(c, DctC) and c.base is None and all(isinstance(k, (str, int)) for k in c.items):
        return [K(k) if isinstance(k, str) else num(k) for k in c.items]
    return None


# ------------------------------------------------------------------ pandas / time
UNIT_S = {'s': 1, 'sec': 1, 'second': 1, 'seconds': 1, 'm': 60, 'min': 60, 'minute': 60, 'minutes': 60,
          'h': 3600, 'hour': 3600, 'hours': 3600, 'd': 86400, 'D': 86400, 'day': 86400, 'days': 86400, 'hr': 3600,
          'ms': F(1, 1000), 'W': 604800, 'weeks': 604800, 'T': 60, 'H': 3600, 'S': 1,
          'milliseconds': F(1, 1000), 'microseconds': F(1, 10**6), 'us': F(1, 10**6), 'ns': F(1, 10**9)}


def timedelta(I, S, args, kwargs):
    if kwargs and not args and all(k in UNIT_S for k in kwargs):
        r = ZERO
        for k, v in kwargs.items():
            p = I.arr(S, v)
            if not isinstance(p, Poly):
                return None
            r = add(r, scale(p, UNIT_S[k]))
        return Sc(r)
    if args:
        u = kwargs.get('unit', args[1] if len(args) > 1 else None)
        c = I.content(S, args[0])
        if isinstance(c, K) and isinstance(c.v, str):
            return None
        if u is not None:
            uc = I.content(S, u)
            if isinstance(uc, K) and uc.v in UNIT_S:
                p = I.arr(S, c)
                return ret(V.elementwise(lambda q: scale(q, UNIT_S[uc.v]), [p]))
        elif isinstance(c, Sc) and not is_const(c.p):
            return Sc(c.p)
    return None


def pd_call(I, S, f, args, kwargs, n):
    if f in ('Timedelta', 'to_timedelta'):
        r = timedelta(I, S, args, kwargs)
        if r is not None:
            return r
        if args and len(args) == 1 and not kwargs:
            return Sc(app('timedelta', (I.enc(S, args[0]),)))
        return None
    if f in ('Timestamp', 'to_datetime') and len(args) == 1 and not kwargs:
        c = I.content(S, args[0])
        if isinstance(c, Sc):
            return Sc(app('timestamp', (c.p,)), 'o')
    if f == 'isnull' or f == 'isna':
        x = I.arr(S, args[0])
        return amap(x, isnan, 'b') if isinstance(x, Ar) else Sc(isnan(x), 'b')
    return None


P.CTORS['timestamp'] = lambda p: None


TDPARTS = ('seconds', 'days', 'microseconds', 'nanoseconds')


def tdpart(p, attr):
    """the parts datetime.timedelta and pandas.Timedelta split a duration (in seconds) into"""
    days = f_floor(scale(p, F(1, 86400)))
    if attr == 'days':
        return days
    if attr == 'seconds':
        return sub(f_floor(p), scale(days, 86400))
    if attr == 'microseconds':
        return scale(sub(p, f_floor(p)), 10**6)
    return app('tdpart', (p, attr), ('int',))


# ------------------------------------------------------------------ attributes and methods
def attribute(I, S, obj, c, attr, n):
    if isinstance(c, Ar):
        if attr == 'size':
            return Sc(V.full_len(c))
        if attr == 'shape':
            return Tup([Sc(d) for d in c.dims])
        if attr == 'ndim':
            return num(c.nd)
        if attr == 'T':
            return transpose(c)
        if attr in ('values', 'array'):
            return obj
        if attr in ('real',):
            return obj
        if attr == 'flat' and isinstance(obj, Ref):
            if c.nd == 0:
                return Ref(obj.cell, obj.views + ([('new',)],))
            if c.nd == 1:
                return obj
        return None
    if isinstance(c, Sc):
        if c.kind in ('n', 'b'):
            if attr == 'size':
                return num(1)
            if attr in TDPARTS:
                return Sc(tdpart(c.p, attr))
            if attr == 'value':
                return Sc(scale(c.p, 10**9))
            if attr == 'shape':
                return Tup([])
            if attr == 'ndim':
                return num(0)
            return None
        if attr in ('seconds', 'days', 'microseconds'):
            return Sc(tdpart(c.p, attr))
        return None
    if isinstance(c, (Tup, LstC)) and attr == 'size':
        return num(len(c.items))
    if isinstance(c, Gv) and attr in ('size', 'shape'):
        a = I.getattr_(S, c.a, attr, n)
        b = I.getattr_(S, c.b, attr, n)
        return I.merge_val(S, c.c, a, b, S.heap, S.heap)
    return None


NP_METHODS = {'sum', 'max', 'min', 'any', 'all', 'mean', 'argmax', 'argmin', 'cumsum', 'copy', 'flatten',
              'round', 'nonzero', 'clip', 'repeat', 'prod', 'squeeze', 'ravel', 'dot', 'reshape', 'transpose'}


def method(I, S, obj, attr, args, kwargs, n):
    if attr == 'setncattr' and len(args) == 2 and not kwargs:
        k = I.content(S, args[0])
        if isinstance(k, K) and isinstance(k.v, str):
            I.setattr_(S, obj, k.v, args[1], n)
            return NONE
    if kwargs and attr in METHOD_SIGS:
        args, kwargs = by_position(METHOD_SIGS[attr], args, kwargs)
    if I.frames_on:
        r = frames.method(I, S, obj, attr, args, kwargs, n)
        if r is not None:
            return r
    c = I.content(S, obj)
    if isinstance(c, (Ar,)) or (isinstance(c, Sc) and c.kind in ('n', 'b')):
        if attr == 'copy':
            return copy_val(I, S, obj)
        if attr in ('flatten', 'ravel') and isinstance(c, Ar) and c.nd == 1:
            return Ar(c.dims, c.enum, c.el, c.kind)
        if attr in ('astype',):
            k = dtype_kind(I, S, args[0])
            e = I.content(S, args[0])
            if k == 'b':
                r = tob(I, I.arr(S, c), c.kind)
                return ret(r, 'b')
            isint = isinstance(e, Ext) and e.name in ('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.int_') or \
                isinstance(e, K) and str(e.v).startswith('int')
            x = I.arr(S, c)
            if isint:
                g = lambda p: p if P.is_int(p) else f_fix(p)
                return amap(x, g, 'n') if isinstance(x, Ar) else Sc(g(x))
            return Ar(x.dims, x.enum, x.el, 'n') if isinstance(x, Ar) else Sc(x)
        if attr in ('tolist',):
            return obj if isinstance(c, Sc) else c
        if attr == 'item':
            if isinstance(c, Sc):
                return c
            return Sc(at(c, [ZERO if not args else I.arr(S, args[0])] * c.nd) if c.nd <= 1 else app('ext:item', (V.lam_arg(c),)), c.kind)
        if attr == 'total_seconds':
            return obj if isinstance(obj, Sc) else ret(I.arr(S, obj))
        if attr == 'fill':
            I.store_index(S, obj, [Slc(None, None, None)], args[0], n)
            return NONE
        if attr in ('to_pytimedelta', 'to_pydatetime', 'to_numpy', 'to_timedelta64', 'view', 'isoformat') and attr not in ('view', 'isoformat'):
            return obj
        if attr in ('filled',):
            x = I.arr(S, c)
            fv = I.arr(S, args[0]) if args else None
            return ret(x)
        if attr == 'isna' or attr == 'isnull':
            x = I.arr(S, c)
            return amap(x, isnan, 'b') if isinstance(x, Ar) else Sc(isnan(x), 'b')
        if attr in NP_METHODS:
            r = np_call(I, S, attr, [obj] + list(args), kwargs, n)
            if r is not None:
                return r
        if attr == 'strftime':
            return I.opq('strftime', [I.enc(S, c)] + [I.enc(S, a) for a in args])
    if isinstance(c, Gv):
        a = I.bindable(S, method(I, S, c.a, attr, args, kwargs, n))
        b = I.bindable(S, method(I, S, c.b, attr, args, kwargs, n))
        return I.merge_val(S, c.c, a, b, S.heap, S.heap)
    if isinstance(obj, Ref) and (type(c).__name__ == 'SeqG' or isinstance(c, LstC) and attr == 'extend' and args and
                                 type(I.content(S, args[0])).__name__ == 'SeqG'):
        o = I.content(S, args[0]) if attr == 'extend' and args else None
        split = c if type(c).__name__ == 'SeqG' else o
        if attr in ('append', 'extend', 'insert', 'reverse'):
            out = []
            for x in (split.a, split.b):
                t = Ref(I.newcell(S, x if split is c else c))
                method(I, S, t, attr, args if split is c else [x], kwargs, n)
                out.append(S.heap[t.cell])
            m = I.merge_content(S, split.c, out[0], out[1], S.heap, S.heap)
            S.heap[obj.cell] = m if m is not None else type(split)(split.c, out[0], out[1])
            return NONE
    if isinstance(c, LstC) and isinstance(obj, Ref):
        if attr == 'append':
            S.heap[obj.cell] = LstC(c.items + [args[0]])
            return NONE
        if attr == 'extend':
            o = iter_items(I, S, args[0])
            if o is not None:
                S.heap[obj.cell] = LstC(c.items + o)
                return NONE
        if attr == 'insert':
            p = I.arr(S, args[0])
            if is_const(p):
                it = list(c.items)
                it.insert(int(const_val(p)), args[1])
                S.heap[obj.cell] = LstC(it)
                return NONE
        if attr == 'pop' and (not args or is_const(I.arr(S, args[0]))):
            it = list(c.items)
            k = int(const_val(I.arr(S, args[0]))) if args else -1
            if it:
                r = it.pop(k)
                S.heap[obj.cell] = LstC(it)
                return r
        if attr == 'reverse':
            S.heap[obj.cell] = LstC(list(reversed(c.items)))
            return NONE
        if attr == 'copy':
            return LstC(c.items)
    if isinstance(c, DctC):
        if attr == 'get':
            k = I.key(S, args[0])
            d = args[1] if len(args) > 1 else NONE
            if k in c.items and not isinstance(c.items[k], (Gv, Undef)):
                return c.items[k]
            t = I.contains(S, c, args[0], n)
            if is_const(t):
                return I.index(S, obj, [args[0]], n) if const_val(t) else d
            v = I.index(S, obj, [args[0]], n)
            return I.merge_val(S, t, v, d, S.heap, S.heap)
        if attr in ('keys',) and c.base is None:
            return LstC([K(k) if isinstance(k, str) else num(k) for k in c.items])
        if attr == 'values' and c.base is None:
            return LstC(list(c.items.values()))
        if attr == 'items' and c.base is None:
            return LstC([Tup([K(k) if isinstance(k, str) else num(k), v]) for k, v in c.items.items()])
        if attr == 'keys' and c.base is not None:
            return obj
        if attr == 'copy':
            return DctC(c.base, c.items, c.removed)
        if attr == 'update' and isinstance(obj, Ref):
            o = I.content(S, args[0]) if args else DctC(None, {})
            if isinstance(o, DctC) and o.base is None:
                it = dict(c.items)
                it.update(o.items)
                it.update(kwargs)
                S.heap[obj.cell] = DctC(c.base, it, c.removed - set(o.items))
                return NONE
        if attr == 'pop' and isinstance(obj, Ref):
            k = I.key(S, args[0])
            v = I.index(S, obj, [args[0]], n)
            it = dict(c.items)
            it.pop(k, None)
            S.heap[obj.cell] = DctC(c.base, it, c.removed | {k})
            return v
        if attr == 'setdefault' and isinstance(obj, Ref):
            k = I.key(S, args[0])
            t = I.contains(S, c, args[0], n)
            v = args[1] if t is ZERO else (I.index(S, obj, [args[0]], n) if t is ONE else
                                          I.merge_val(S, t, I.index(S, obj, [args[0]], n), args[1], S.heap, S.heap))
            it = dict(c.items)
            it[k] = v
            S.heap[obj.cell] = DctC(c.base, it, c.removed - {k})
            return v
    if isinstance(c, K) and isinstance(c.v, str):
        if attr == 'format':
            return Sc(app('ext:strfmt', (I.enc(S, c),) + tuple(I.enc(S, a) for a in args) + tuple(kwenc(I, S, kwargs))), 'o')
        if attr in STR_PURE and not kwargs and all(isinstance(I.content(S, a), K) for a in args):
            try:
                v = getattr(c.v, attr)(*[I.content(S, a).v for a in args])
            except Exception:
                v = None
            if isinstance(v, str):
                return K(v)
            if isinstance(v, bool):
                return boolean(ONE if v else ZERO)
        if attr == 'join':
            return I.opq('strjoin', [I.enc(S, c)] + [I.enc(S, a) for a in args])
        if attr in ('startswith', 'endswith') and isinstance(I.content(S, args[0]), K):
            return boolean(ONE if getattr(c.v, attr)(I.content(S, args[0]).v) else ZERO)
    if isinstance(c, Sc) and attr == 'total_seconds':
        return Sc(c.p, 'n')
    if isinstance(c, Sc) and attr in ('to_pydatetime', 'to_pytimedelta'):
        return c
    if attr == 'add_argument':
        kwargs = {k: v for k, v in kwargs.items() if k not in ('help', 'metavar')}
    enc = [I.enc(S, c)] + [I.enc(S, a) for a in args] + kwenc(I, S, kwargs)
    first = enc[0] if isinstance(enc[0], Poly) else app('ext:tuple', (enc[0],))
    impure = attr not in PURE_METHODS
    r = app('ext:m:' + attr, (first,) + tuple(enc[1:]))
    if impure:
        I.event(S, 'call', ('.' + attr,) + tuple(enc), n)
        if isinstance(c, ObjC) and isinstance(obj, Ref) and attr not in ('close',):
            pass
    return Sc(r, 'o')


STR_PURE = ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'casefold', 'capitalize', 'swapcase', 'replace', 'isalpha',
            'startswith', 'endswith', 'isdigit', 'isspace')
PURE_METHODS = {'total_seconds', 'strftime', 'lower', 'upper', 'strip', 'split', 'format', 'copy', 'keys', 'values', 'items',
                'get', 'isna', 'isnull', 'notna', 'astype', 'to_pydatetime', 'sum', 'max', 'min', 'mean', 'any', 'all',
                'tolist', 'to_numpy', 'iloc', 'loc', 'diff', 'shift', 'resample', 'interpolate', 'reindex', 'join', 'merge',
                'set_index', 'reset_index', 'startswith', 'endswith', 'rename', 'unique', 'to_julian_date', 'get_loc',
                'as_float', 'as_int', 'as_bool', 'as_list', 'isoformat', 'searchsorted', 'argsort', 'argmin', 'argmax',
                'to_timestamp', 'floor', 'ceil', 'round', 'abs', 'head', 'tail', 'dropna', 'sort_index', 'sort_values',
                'duplicated', 'index', 'count', 'date', 'time', 'timestamp', 'toordinal', 'tostring', 'filled', 'ncattrs',
                'squeeze', 'flatten', 'groupby', 'apply', 'eq', 'combine_first', 'solve', 'dot', 'tocsr', 'tocsc', 'toarray'}


def index_special(I, S, c, idx, n):
    if isinstance(c, Ext) and c.name in ('numpy.r_', 'numpy.c_'):
        arrs = []
        for i in idx:
            if isinstance(i, Slc):
                return I.opq('npr', [I.enc(S, i)])
            arrs.append(I.arr(S, i))
        if c.name == 'numpy.r_':
            return concat(I, S, arrs, 0)
    e = I.enc(S, c)
    if isinstance(e, tuple):
        e = app('ext:tuple', (e,))
    return Sc(app('item', (e,) + tuple(I.enc(S, i) for i in idx)), 'o')


def index_obj(I, S, c, idx, n):
    return None


def store_obj(I, S, obj, c, idx, v, n):
    return False
