"""Abstract values: symbolic scalars, index-function arrays, heap references.

An array is its shape (symbolic sizes) plus, for every element, the canonical
scalar value at symbolic indices i, j (poly.IX).  Short constant axes (for
example the five columns of a shore table) are enumerated, so that each column
has a value of its own.
"""
from . import poly as P
from .poly import (Poly, IX, IXP, ZERO, ONE, NAN, const, const_val, is_const, ap,
                   add, sub, mul, neg, select, subst, app, atom, ge, gt, eq,
                   b_and, b_or, b_not, single_atom, atoms_of, fresh_bv, is_int,
                   known_sign, scale, CTORS, isnan, minp, maxp, absp, div, power,
                   _mk, indicator, assign)
from fractions import Fraction as F

ENUM_MAX = 8


class Val(object):
    pass


class Sc(Val):
    """symbolic scalar; kind n number, b bool, o opaque object"""
    __slots__ = ('p', 'kind')

    def __init__(self, p, kind='n'):
        self.p = p
        self.kind = kind

    def __repr__(self):
        return 'Sc(%r)' % (self.p,)


class K(Val):
    """python constant that is not a number: None, str, bytes, Ellipsis, type"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'K(%r)' % (self.v,)


NONE = K(None)


class Ar(Val):
    __slots__ = ('dims', 'enum', 'el', 'kind')

    def __init__(self, dims, enum, el, kind='n'):
        self.dims = tuple(dims)
        self.enum = tuple(enum)
        self.el = el
        self.kind = kind

    @property
    def nd(self):
        return len(self.dims)

    def __repr__(self):
        return 'Ar(%s,%s)' % (list(self.dims), self.el)


class Ref(Val):
    """reference to a heap cell, through a basic-slice view (or whole)"""
    __slots__ = ('cell', 'views')

    def __init__(self, cell, views=()):
        self.cell = cell
        self.views = tuple(views)

    def __repr__(self):
        return 'Ref(%s%s)' % (self.cell, '/view' if self.views else '')


class Tup(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class LstC(object):
    """heap content of a list: known items, or a symbolic sequence (an Ar)"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class DctC(object):
    """heap content of a dict: base opaque poly (or None) plus known items"""
    __slots__ = ('base', 'items', 'removed')

    def __init__(self, base, items, removed=()):
        self.base = base
        self.items = dict(items)
        self.removed = frozenset(removed)


class ObjC(object):
    """heap content of an opaque mutable object: poly describing its state"""
    __slots__ = ('p', 'attrs')

    def __init__(self, p, attrs=None):
        self.p = p
        self.attrs = dict(attrs or {})


class Fn(Val):
    def __init__(self, node, mod, name, closure=None):
        self.node, self.mod, self.name, self.closure = node, mod, name, closure


class Cls(Val):
    def __init__(self, node, mod, name):
        self.node, self.mod, self.name = node, mod, name


class Mod(Val):
    def __init__(self, mod):
        self.mod = mod


class Ext(Val):
    """external name such as numpy.where"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Bound(Val):
    __slots__ = ('obj', 'attr')

    def __init__(self, obj, attr):
        self.obj, self.attr = obj, attr


class Slc(Val):
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Gv(Val):
    """if c then a else b for values that cannot be merged into one"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Gv(%r,%r,%r)' % (self.c, self.a, self.b)


class Undef(Val):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def num(c):
    return Sc(const(c))


def boolean(p):
    return Sc(p, 'b')


TRUE = Sc(ONE, 'b')
FALSE = Sc(ZERO, 'b')


# ------------------------------------------------------------------ arrays
def at(a, idx):
    """element of Ar a at index polys idx (one per axis)"""
    return at_el(a, idx, a.el)


def big(p):
    if len(p.terms) > 60:
        return True
    x = P.single_atom(p)
    return x is not None and x.op == 'def'


def simple_index(v):
    return is_const(v) or all(a.op not in ('nth', 'rd', 'posn', 'item') for m in v.terms for a, e in m)


def at_el(a, idx, el):
    mp = {}
    for k in range(a.nd):
        if k not in a.enum and idx[k] is not IXP[k]:
            mp[IX[k]] = idx[k]

    def leaf(key):
        p = el[key]
        if not mp:
            return p
        if big(p) and any(not simple_index(v) for v in mp.values()):
            free = [k for k in range(a.nd) if k not in a.enum]
            b = P.fresh_bv([p], len(free))
            body = subst(p, {IX[k]: ap(y) for k, y in zip(free, b)})
            la = app('lam', (b, tuple(a.dims[k] for k in free), (body,)), bound=b)
            return app('rd', (la,) + tuple(idx[k] for k in free))
        return subst(p, mp)

    def go(pos, key):
        if pos == len(a.enum):
            return leaf(tuple(key))
        i = idx[a.enum[pos]]
        n = int(const_val(a.dims[a.enum[pos]]))
        if n == 0:
            return ZERO
        if is_const(i):
            v = int(const_val(i))
            if v < 0:
                v += n
            if not 0 <= v < n:
                return ap(atom('oob', (i,)))
            return go(pos + 1, key + [v])
        r = go(pos + 1, key + [n - 1])
        for v in range(n - 2, -1, -1):
            r = select(eq(sub(i, const(v))), go(pos + 1, key + [v]), r)
        return r
    return go(0, [])


def mk(dims, fn, kind='n', enum=None):
    """build an array from fn(list of index polys); enumerate small constant axes"""
    dims = tuple(dims)
    if enum is None:
        enum = tuple(k for k, d in enumerate(dims) if is_const(d) and 0 <= const_val(d) <= ENUM_MAX)
    el = {}

    def go(pos, key):
        if pos == len(enum):
            idx = []
            kk = dict(zip(enum, key))
            for k in range(len(dims)):
                idx.append(const(kk[k]) if k in kk else IXP[k])
            el[tuple(key)] = fn(idx)
            return
        for v in range(int(const_val(dims[enum[pos]]))):
            go(pos + 1, key + [v])
    go(0, [])
    return Ar(dims, enum, el, kind)


def amap(a, f, kind=None):
    return Ar(a.dims, a.enum, {k: f(p) for k, p in a.el.items()}, kind or a.kind)


def bshape(arrs):
    nd = max(x.nd for x in arrs)
    dims = []
    for k in range(nd):
        d = None
        for x in arrs:
            j = k - (nd - x.nd)
            if j >= 0:
                dj = x.dims[j]
                if dj is ONE:
                    if d is None:
                        d = dj
                elif d is None or d is ONE:
                    d = dj
                elif d is not dj and is_const(dj) and not is_const(d):
                    d = dj
        dims.append(d)
    return tuple(dims)


def bat(x, idx):
    """element of x (Sc poly or Ar) broadcast to index idx"""
    if isinstance(x, Poly):
        return x
    off = len(idx) - x.nd
    ii = [ZERO if x.dims[j] is ONE or off + j < 0 else idx[off + j] for j in range(x.nd)]
    return at(x, ii)


def elementwise(f, args, kind='n'):
    """args: list of Poly or Ar"""
    arrs = [a for a in args if isinstance(a, Ar)]
    if not arrs:
        return f(*args)
    dims = bshape(arrs)
    enum = set()
    for a in arrs:
        off = len(dims) - a.nd
        for k in a.enum:
            if is_const(dims[off + k]) and const_val(dims[off + k]) <= ENUM_MAX:
                enum.add(off + k)
    for k, d in enumerate(dims):
        if d is ONE:
            enum.add(k)
    enum = tuple(sorted(enum))
    r = mk(dims, lambda idx: f(*[bat(a, idx) for a in args]), kind, enum)
    if f is div:
        for key, p in r.el.items():
            if any(a.op == 'inf' for m in p.terms for a, e in m):
                r.el[key] = feasible(p, dims)
    return r


def feasible(p, dims):
    """drop the cases of a piecewise quotient that no index reaches"""
    for q, d in enumerate(dims):
        ix = IX[q]
        i = ap(ix)
        top = sub(sub(d, ONE), i)
        for a in sorted(p.inds, key=lambda a: a.id):
            if a.op != 'eq' or ix not in a.deps:
                continue
            for x in (i, top):
                if a in p.inds and (a.args[0] is x or a.args[0] is neg(x)):
                    p = select(ge(sub(x, ONE)), assign(p, a, 0), subst(assign(p, a, 1), {ix: ZERO if x is i else sub(d, ONE)}))
        ges = [a for a in sorted(p.inds, key=lambda a: a.id) if a.op == 'ge' and ix in a.deps]
        for k, a in enumerate(ges):
            for b in ges[k + 1:]:
                # neither holds: -1-a >= 0 and -1-b >= 0
                if known_sign(add(add(a.args[0], b.args[0]), const(2))) == 1 and a in p.inds and b in p.inds:
                    p0 = assign(p, a, 0)
                    p = add(mul(ap(a), sub(assign(p, a, 1), assign(p0, b, 1))), assign(p0, b, 1))
    return p


def full_len(a):
    r = ONE
    for d in a.dims:
        r = mul(r, d)
    return r


# ---- binder constructors
def close(body, var_atoms):
    """replace var atoms by bound variables -> (bound, body')"""
    b = fresh_bv([body], len(var_atoms))
    mp = {v: ap(x) for v, x in zip(var_atoms, b)}
    return b, subst(body, mp)


def b_any(body, n, var=None):
    """exists i in [0,n): body(i)"""
    var = var or IX[0]
    if not (body.deps & {var}):
        if is_const(n):
            return body if const_val(n) > 0 else ZERO
        return body          # arrays are taken to be non-empty
    if is_const(n) and const_val(n) <= 3:
        r = ZERO
        for k in range(int(const_val(n))):
            r = b_or(r, subst(body, {var: const(k)}))
        return r
    b, bd = close(body, [var])
    return app('any', (b, bd, n), bound=b)


def b_all(body, n, var=None):
    return b_not(b_any(b_not(body), n, var))


def b_count(body, n, var=None):
    var = var or IX[0]
    if not (body.deps & {var}):
        return mul(body, n)
    b, bd = close(body, [var])
    return ap_count(b, bd, n)


def ap_count(b, bd, n):
    return app('count', (b, bd, n), ('int', 'nonneg'), bound=b)


def b_nth(body, n, k, var=None):
    var = var or IX[0]
    if not (body.deps & {var}):
        return k
    b, bd = close(body, [var])
    return app('nth', (b, bd, n, k), ('int', 'nonneg'), bound=b)


def b_rank(body, n, i, var=None):
    """number of j<i with body(j)"""
    var = var or IX[0]
    if body is ONE:
        return i
    b, bd = close(body, [var])
    return app('rank', (b, bd, n, i), ('int', 'nonneg'), bound=b)


def _c_nth(b, bd, n, k):
    if bd is ONE:
        return k
    if n is ONE:
        return ZERO
    a = single_atom(k)
    if a is not None and a.op == 'rank' and _same_pred(a.args[0], a.args[1], b, bd):
        return a.args[3]
    return None


def _c_rank(b, bd, n, i):
    if bd is ONE:
        return i
    if bd is ZERO:
        return ZERO
    a = single_atom(i)
    if a is not None and a.op == 'nth' and _same_pred(a.args[0], a.args[1], b, bd):
        return a.args[3]
    return None


def _same_pred(b1, p1, b2, p2):
    if p1 is p2 and b1 == b2:
        return True
    return subst(p1, {b1[0]: ap(b2[0])}) is p2


def _c_any(b, bd, n):
    if bd is ZERO:
        return ZERO
    if bd is ONE:
        return ONE
    if not (bd.deps & set(b)):
        return bd
    ind = indicator(bd)
    return None


def _c_count(b, bd, n):
    if is_const(bd):
        return mul(bd, n)
    if bd.terms.get(()) == 1:
        # counted through the complement
        return sub(n, app('count', (b, sub(ONE, bd), n), ('int', 'nonneg'), bound=b))
    return None


CTORS['nth'] = _c_nth
CTORS['rank'] = _c_rank
CTORS['any'] = _c_any
CTORS['count'] = _c_count


def reduce_(op, body, n, var=None):
    var = var or IX[0]
    if op == 'sum':
        if is_const(n) and const_val(n) <= ENUM_MAX:
            r = ZERO
            for k in range(int(const_val(n))):
                r = add(r, subst(body, {var: const(k)}))
            return r
        out = ZERO
        groups = {}
        for m, c in body.terms.items():
            dep, ind = [], []
            for t in m:
                (dep if var in t[0].deps else ind).append(t)
            key = tuple(ind)
            groups.setdefault(key, {})[tuple(dep)] = c
        for ind, terms in groups.items():
            f = _mk({ind: F(1)})
            for dm, c in terms.items():
                if dm == ():
                    t = n
                else:
                    q = _mk({dm: F(1)})
                    if all(a._isb for a, e in dm):
                        t = b_count(q, n, var)
                    else:
                        b, bd = close(q, [var])
                        t = app('red', (b, 'sum', bd, n), bound=b)
                out = add(out, mul(scale(f, c), t))
        return out
    if op in ('max', 'min'):
        if is_const(n) and const_val(n) <= ENUM_MAX:
            r = None
            for k in range(int(const_val(n))):
                t = subst(body, {var: const(k)})
                r = t if r is None else (maxp(r, t) if op == 'max' else minp(r, t))
            return r
        if not (body.deps & {var}):
            return body
        # nth() is increasing in its position argument
        a = single_atom(body)
        if a is not None and a.op == 'nth' and a.args[3] is ap(var) and not (a.args[2].deps & {var}):
            k = sub(n, ONE) if op == 'max' else ZERO
            return app('nth', (a.args[0], a.args[1], a.args[2], k), a.flags, bound=a.args[0])
        if a is var or (a is None and sub(body, ap(var)).deps.isdisjoint({var})):
            return subst(body, {var: sub(n, ONE) if op == 'max' else ZERO})
        ld = body.terms[max(body.terms, key=lambda m: sum(1 for t in m if var in t[0].deps) * 10**6 + (m[0][0].id if m else -1))]
        if ld < 0:
            return neg(reduce_('min' if op == 'max' else 'max', neg(body), n, var))
    b, bd = close(body, [var])
    return app('red', (b, op, bd, n), bound=b)


def nz_mask(a):
    """predicate poly (over IX0..) of truth of elements"""
    if a.kind == 'b':
        return a
    return amap(a, lambda p: b_not(eq(p)), 'b')


def ar1(dims0, body, kind='n'):
    return mk((dims0,), lambda idx: subst(body, {IX[0]: idx[0]}) if idx[0] is not IXP[0] else body, kind)


# ---- selectors ---------------------------------------------------------
# per base axis: ('at', poly) | ('rng', start, step, n) | ('msk', Ar) | ('idx', Ar) | ('new',)

def norm_index(i, dim):
    """resolve constant negative index"""
    if is_const(i) and const_val(i) < 0:
        return add(dim, i)
    return i


def sel_read(a, sels):
    """read a through selectors -> Ar or Poly"""
    adv = [k for k, s in enumerate(sels) if s[0] in ('msk', 'idx')]
    # output axes
    out_dims = []
    plan = []
    adv_axis = None
    base = 0
    advn = None
    for s in sels:
        if s[0] == 'new':
            out_dims.append(ONE)
            continue
        if s[0] == 'at':
            plan.append(('at', s[1]))
        elif s[0] == 'rng':
            plan.append(('rng', s[1], s[2], len(out_dims)))
            out_dims.append(s[3])
        elif s[0] == 'msk':
            m = s[1]
            body = m.el[()] if () in m.el else None
            if body is None:
                m = unenum(m)
                body = m.el[()]
            if adv_axis is None:
                adv_axis = len(out_dims)
                out_dims.append(b_count(body, m.dims[0]))
            plan.append(('fn', (lambda body, m, ax: (lambda idx: b_nth(body, m.dims[0], idx[ax])))(body, m, adv_axis)))
        elif s[0] == 'idx':
            ix = s[1]
            if adv_axis is None:
                adv_axis = len(out_dims)
                for d in ix.dims:
                    out_dims.append(d)
            dim = a.dims[len(plan)]
            plan.append(('fn', (lambda ix, ax, dim: (lambda idx: norm_index(at(ix, idx[ax:ax + ix.nd]), dim)))(ix, adv_axis, dim)))
    def f(idx):
        ii = []
        for pl in plan:
            if pl[0] == 'at':
                ii.append(pl[1])
            elif pl[0] == 'rng':
                ii.append(add(pl[1], mul(const(pl[2]), idx[pl[3]])))
            else:
                ii.append(pl[1](idx))
        return at(a, ii)
    if not out_dims:
        return f([])
    return mk(out_dims, f, a.kind)


def unenum(a):
    """drop enumeration (select chain over the index)"""
    if not a.enum:
        return a
    return mk(a.dims, lambda idx: at(a, idx), a.kind, ())


def sel_write(a, sels, v, op=None):
    """new Ar equal to a except selected elements := v (Poly or Ar); op combines old,new"""
    sels = [s for s in sels]
    # determine out axis numbering as in sel_read
    out_nd = 0
    plan = []
    adv_axis = None
    for s in sels:
        if s[0] == 'new':
            out_nd += 1
            continue
        if s[0] == 'at':
            plan.append(('at', s[1]))
        elif s[0] == 'rng':
            plan.append(('rng', s[1], s[2], s[3], out_nd))
            out_nd += 1
        else:
            if adv_axis is None:
                adv_axis = out_nd
                out_nd += s[1].nd if s[0] == 'idx' else 1
            plan.append((s[0], s[1], adv_axis))

    def f(idx):
        cond = ONE
        oidx = [ZERO] * out_nd
        for k, pl in enumerate(plan):
            i = idx[k]
            if pl[0] == 'at':
                cond = b_and(cond, eq(sub(i, norm_index(pl[1], a.dims[k]))))
            elif pl[0] == 'rng':
                start, step, n, ax = pl[1:]
                if step in (1, -1):
                    t = sub(i, start) if step == 1 else sub(start, i)
                    if not (t is i and n is a.dims[k]):
                        cond = b_and(cond, b_and(in_lo(t, i, a.dims[k]), in_hi(t, n, i, a.dims[k])))
                else:
                    c, t = invert_step(i, start, step, n)
                    cond = b_and(cond, c)
                oidx[ax] = t
            elif pl[0] == 'msk':
                m, ax = pl[1], pl[2]
                mi = at(m, [i])
                cond = b_and(cond, mi)
                oidx[ax] = ('rank', m, i)
            else:
                c, pos = invert(pl[1], i, a.dims[k])
                cond = b_and(cond, c)
                oidx[pl[2]] = pos
            if cond is ZERO:
                break
        old = at(a, idx)
        if cond is ZERO:
            return old
        if isinstance(v, Poly):
            new = v
        else:
            oi = [(lazy_rank(o) if isinstance(o, tuple) else o) for o in oidx]
            new = bat(v, oi)
        for kk in range(a.nd):
            if idx[kk] is IXP[kk]:
                cond = bounded(cond, IX[kk], a.dims[kk])
        if op is not None:
            new = op(old, new)
        r = select(cond, new, old)
        for kk in range(a.nd):
            if idx[kk] is IXP[kk]:
                r = parity_simplify(r, IX[kk], a.dims[kk])
        return r
    enum = tuple(a.enum)
    return Ar(a.dims, enum, mk(a.dims, f, a.kind, enum).el, a.kind)


def in_lo(t, i, dim):
    # i>=0 is known
    return ge(t)


def in_hi(t, n, i, dim):
    # t <= n-1 ; drop when t<=n-1 is implied by i<=dim-1
    d = sub(sub(n, ONE), t)
    full = sub(sub(dim, ONE), i)
    if d is full:
        return ONE
    return ge(d)


def lazy_rank(o):
    _, m, i = o
    m2 = unenum(m)
    return b_rank(m2.el[()], m.dims[0], i)


def invert(ix, i, dim):
    """(condition, position) such that ix[position]==i"""
    n = ix.dims[0]
    if ix.enum:
        cond, pos = ZERO, ZERO
        nn = int(const_val(n))
        for k in range(nn):           # last write wins
            e = eq(sub(i, norm_index(ix.el[(k,)], dim)))
            cond = b_or(cond, e)
            pos = select(e, const(k), pos)
        return cond, pos
    p = ix.el[()]
    v = IX[0]
    b = atom('ix', (9,), ('int', 'nonneg'))
    r = invert_poly(p, v, i, n)
    if r is not None:
        return r
    bb, bd = close(p, [v])
    cond = app('memb', (bb, bd, n, i), ('bool',), bound=bb)
    pos = app('posn', (bb, bd, n, i), ('int', 'nonneg'), bound=bb)
    return cond, pos


def invert_step(i, start, step, n):
    """(condition, position) such that start + step*position == i, 0 <= position < n"""
    d = sub(i, start)
    sg = 1 if step > 0 else -1
    last = sub(add(start, scale(sub(n, ONE), step)), i)
    c = b_and(ge(scale(d, sg)), ge(scale(last, sg)))
    c = b_and(c, app('even', (d, const(abs(step))), ('bool',)))
    return c, div(d, const(step))


def _c_even(t, s):
    """t is a multiple of the constant s"""
    k = const_val(s)
    if not is_int(t):
        return None
    d = {m: c % k for m, c in t.terms.items()}
    r = _mk({m: c for m, c in d.items() if c})
    if is_const(r):
        return ONE if const_val(r) == 0 else ZERO
    if k == 2:
        if r.terms.get(()) == 1:
            return b_not(app('even', (sub(r, ONE), s), ('bool',)))
    else:
        alt = _mk({m: (-c) % k for m, c in t.terms.items() if (-c) % k})
        if sorted(alt.terms.values()) < sorted(r.terms.values()):
            r = alt
    return ap(atom('even', (r, s), ('bool',))) if r is not t else None


CTORS['even'] = _c_even


def parity_simplify(p, i, dim):
    """use the parity of index i (0 <= i < dim) to simplify the conditions of p"""
    es = [a for a in p.inds if a.op == 'even' and i in a.deps and const_val(a.args[1]) == 2
          and a.args[0].terms.get(((i, 1),)) == 1]
    if not es:
        return p
    e = min(es, key=lambda a: a.id)
    rest = sub(e.args[0], ap(i))
    if i in rest.deps:
        return p
    out = []
    for par in (0, 1):            # e true: i == rest mod 2
        q = assign(p, e, 1 - par)
        ipar = add(rest, const(par))         # i is congruent to this
        for a in sorted(q.inds, key=lambda a: a.id):
            if a.op not in ('ge', 'eq') or i not in a.deps or a not in q.inds:
                continue
            b = a.args[0]
            c = b.terms.get(((i, 1),))
            if c is None or abs(c) != 1 or not is_int(b):
                continue
            r = sub(b, scale(ap(i), c))
            if i in r.deps:
                continue
            m = _mk({mm: cc % 2 for mm, cc in add(r, ipar).terms.items() if cc % 2})
            if not (m is ONE):
                if m.terms:
                    continue
            if a.op == 'eq':
                if m is ONE:
                    q = assign(q, a, 0)
                continue
            if m is ONE:
                b = sub(b, ONE)
            # now b is even whenever it is relevant: b >= 0
            lo = ap(i)
            hi = sub(sub(dim, ONE), ap(i))
            if const_parity(add(lo, scale(ap(i), -1)), ipar) == 1:
                lo = sub(lo, ONE)
            hp = const_parity(sub(hi, neg(ap(i))), ipar)
            if hp == 1:
                hi = sub(hi, ONE)
            new = None
            for bound in (lo, hi):
                d = sub(b, bound)
                if is_const(d):
                    v = const_val(d)
                    if v >= 0:
                        new = ONE
                    elif v == -2:
                        new = b_not(eq(bound))
            if new is None:
                new = ge(b)
            if new is not ap(a):
                q = add(mul(new, assign(q, a, 1)), mul(b_not(new), assign(q, a, 0)))
        out.append(q)
    e = ap(e)
    return add(mul(e, out[0]), mul(b_not(e), out[1]))


def const_parity(r, ipar):
    m = _mk({mm: cc % 2 for mm, cc in add(r, ipar).terms.items() if cc % 2})
    if not m.terms:
        return 0
    return 1 if m is ONE else None


def invert_poly(p, v, i, n):
    c = p.terms.get(((v, 1),))
    if c is not None and c.denominator == 1 and abs(c) > 1:
        d = sub(p, scale(ap(v), c))
        if v not in d.deps and is_int(d):
            return invert_step(i, d, int(c), n)
    if p is ap(v):
        return b_and(ge(i), ge(sub(sub(n, ONE), i))), i
    d = sub(p, ap(v))
    if v not in d.deps:
        t = sub(i, d)
        return b_and(ge(t), ge(sub(sub(n, ONE), t))), t
    d = add(p, ap(v))
    if v not in d.deps:
        t = sub(d, i)
        return b_and(ge(t), ge(sub(sub(n, ONE), t))), t
    # one atom nth(m, v) plus offset
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and v in m[0][0].deps:
            a = m[0][0]
            rest = sub(p, _mk({m: c}))
            if v in rest.deps or c not in (1, -1):
                return None
            if a.op == 'nth' and v in a.args[3].deps and v not in a.args[1].deps:
                j = sub(i, rest) if c == 1 else sub(rest, i)
                body = subst(a.args[1], {a.args[0][0]: j})
                nn = a.args[2]
                pos0 = app('rank', (a.args[0], a.args[1], nn, j), ('int', 'nonneg'), bound=a.args[0])
                r = invert_poly(a.args[3], v, pos0, n)
                if r is None:
                    return None
                cond = body
                if j is not i:
                    cond = b_and(cond, b_and(ge(j), ge(sub(sub(nn, ONE), j))))
                # positions within [0,count) hold automatically for the whole list
                k = a.args[3]
                if k is ap(v) and _is_count_of(n, a):
                    return cond, pos0
                return b_and(cond, r[0]), r[1]
    return None


def _is_count_of(n, a):
    c = ap_count(a.args[0], a.args[1], a.args[2])
    return n is c


def _c_memb(b, bd, n, i):
    return None


def bounded(c, i, dim):
    """simplify condition c knowing 0 <= i <= dim-1 (i an index variable)"""
    if not c.inds:
        return c
    top = sub(sub(dim, ONE), ap(i))
    for a in sorted(c.inds, key=lambda a: a.id):
        if a.op == 'ge' and i in a.deps and a in c.inds:
            q = a.args[0]
            s = known_sign(sub(q, top))
            if s in (0, 1):
                c = assign(c, a, 1)
                continue
            nq = sub(neg(q), ONE)
            s = known_sign(sub(nq, top))
            if s in (0, 1):
                c = assign(c, a, 0)
                continue
            s = known_sign(sub(q, ap(i)))
            if s in (0, 1):
                c = assign(c, a, 1)
            elif known_sign(sub(nq, ap(i))) in (0, 1):
                c = assign(c, a, 0)
    return c


def lam_arg(v):
    """encode a value as an argument of an uninterpreted operation"""
    if isinstance(v, Sc):
        return v.p
    if isinstance(v, K):
        return ('k', repr(v.v))
    if isinstance(v, Poly):
        return v
    if isinstance(v, Ar):
        free = [IX[k] for k in range(v.nd) if k not in v.enum]
        keys = sorted(v.el)
        bodies = [v.el[k] for k in keys]
        if free:
            b = fresh_bv(bodies, len(free))
            mp = {x: ap(y) for x, y in zip(free, b)}
            bodies = [subst(p, mp) for p in bodies]
            return app('lam', (b, tuple(v.dims), tuple(bodies)), bound=b)
        if len(bodies) == 1 and v.nd == 1:
            return ('arr', bodies[0])
        return ('arr', tuple(v.dims), tuple(bodies))
    return None
