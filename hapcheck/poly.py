"""Canonical scalar value domain.

A value is a polynomial with rational coefficients over interned *atoms* (inputs,
array reads, uninterpreted functions, powers of primitive polynomials) and
idempotent 0/1 *indicator* atoms (comparisons, boolean inputs).  Guards, masks,
min/max/abs/where and if/else all become indicator arithmetic, so that two
expressions that differ only in how they are written get the same (hash-consed)
polynomial.  Nothing is ever evaluated on concrete data.
"""
from fractions import Fraction as F
import sys
sys.setrecursionlimit(100000)

BOOL_OPS = {'gt', 'ge', 'eq', 'eqo', 'isnan', 'isnone', 'member', 'any', 'bool', 'exc',
            'contains', 'isfile', 'undef', 'instance', 'truth', 'even'}
DEF_LIMIT = 90
PROD_LIMIT = 4000
LIFT_MAX = 5


class Atom(object):
    __slots__ = ('id', 'op', 'args', 'flags', 'deps', '_isb')

    def __repr__(self):
        return show_atom(self)


_ATOMS = {}
_ALIST = []
VAR_OPS = ('ix', 'bv', 'lv', 'mu', 'mua')


KEYFLAGS = {'MaxIt': ('int', 'nonneg')}                 # integers according to the configuration specification
FINITE = {'Dx', 'Dt', 'dt', 'g', 'Grav', 'Beta'}        # configured scalars: never missing


def atom(op, args=(), flags=()):
    key = (op, args)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ALIST)
        a.op = op
        a.args = args
        if op == 'item' and len(args) == 2 and isinstance(args[1], tuple) and len(args[1]) == 2 and args[1][1] in KEYFLAGS:
            flags = tuple(flags) + KEYFLAGS[args[1][1]]
        elif op == 'in' and args and args[0] in FINITE:
            flags = tuple(flags) + ('nonan',)
        a.flags = frozenset(flags)
        a._isb = op in BOOL_OPS or 'bool' in a.flags
        d = set()
        for x in _iter_polys(args):
            d |= x.deps
        if op in VAR_OPS:
            d = set(d)
            d.add(a)
        if op in BINDERS:
            bb = _bound_of(args)
            d = set(v for v in d if v not in bb)
        a.deps = frozenset(d)
        _ATOMS[key] = a
        _ALIST.append(a)
    return a


BINDERS = {'any', 'red', 'nth', 'rank', 'count', 'lam', 'memb', 'posn', 'eta'}
NOLIFT = {'eta'}


def _bound_of(args):
    # binder atoms carry their bound variables as first argument: tuple of bv atoms
    return set(args[0]) if args and isinstance(args[0], tuple) else set()


def _iter_polys(args):
    for x in args:
        if isinstance(x, Poly):
            yield x
        elif isinstance(x, tuple):
            for y in _iter_polys(x):
                yield y
        elif isinstance(x, Atom):
            pass


class Poly(object):
    __slots__ = ('id', 'terms', 'deps', 'inds', '_hash')

    def __repr__(self):
        return show(self)


_POLYS = {}
_PLIST = []


class OutOfFuel(Exception):
    pass


FUEL = [None]


class fuel(object):
    """bound the number of polynomials built within a block"""

    def __init__(self, n):
        self.n = n
        self.used = 0

    def __enter__(self):
        self.old = FUEL[0]
        FUEL[0] = self.n if self.old is None else min(self.n, self.old)
        self.start = FUEL[0]

    def __exit__(self, *a):
        self.used = self.start - FUEL[0]
        if self.old is not None:
            FUEL[0] = self.old - (self.start - FUEL[0])
        else:
            FUEL[0] = None


def _mk(d):
    """intern dict mono->coef"""
    if FUEL[0] is not None:
        FUEL[0] -= 1 + len(d) // 16
        if FUEL[0] < 0:
            raise OutOfFuel()
    d = {m: c for m, c in d.items() if c != 0}
    key = frozenset(d.items())
    p = _POLYS.get(key)
    if p is None:
        p = Poly()
        p.id = len(_PLIST)
        p.terms = d
        deps = set()
        inds = set()
        for m in d:
            for a, e in m:
                deps |= a.deps
                if a._isb:
                    inds.add(a)
        p.deps = frozenset(deps)
        p.inds = frozenset(inds)
        _POLYS[key] = p
        _PLIST.append(p)
    return p


def const(c):
    if isinstance(c, float):
        c = F(repr(c)) if c == c and abs(c) != float('inf') else None
        if c is None:
            return INF
    c = F(c)
    return _mk({(): c} if c else {})


ASSUME = {}        # atom -> poly: facts of the case under analysis


def ap(a):
    """atom -> poly"""
    if ASSUME:
        r = ASSUME.get(a)
        if r is not None:
            return r
    return _mk({((a, 1),): F(1)})


def reset():
    """forget results computed under other assumptions"""
    for c in (_MM, _RP, _MUL, _EQV, _EQM, _AS, _GT, _PROOT, _BVD, _OWND):
        c.clear()


def assume(a, v):
    """record the truth value v of indicator a, with its consequences"""
    facts = [(a, v)]
    if a.op in ('gt', 'ge', 'eq'):
        q = a.args[0]
        n = neg(q)
        if a.op == 'gt':
            im = [(gt, q, v), (ge, n, 1 - v)] + ([(ge, q, 1), (eq, q, 0), (gt, n, 0)] if v else [])
        elif a.op == 'ge':
            im = [(ge, q, v), (gt, n, 1 - v)] + ([] if v else [(gt, q, 0), (eq, q, 0), (ge, n, 1)])
        else:
            im = [(eq, q, v)] + ([(ge, q, 1), (ge, n, 1), (gt, q, 0), (gt, n, 0)] if v else [])
        for f, x, w in im:
            ind = indicator(f(x))
            if ind:
                facts.append((ind[0], w if ind[1] else 1 - w))
        # the two half relations and equality determine each other
        known = {}
        for x in (q, n):
            for f in (gt, ge, eq):
                ind = indicator(f(x))
                if ind:
                    w = dict(facts).get(ind[0])
                    if w is None and ind[0] in ASSUME:
                        w = int(const_val(ASSUME[ind[0]]))
                    if w is not None:
                        known[f, x] = w if ind[1] else 1 - w
                elif is_const(f(x)):
                    known[f, x] = int(const_val(f(x)))
        for x in (q, n):
            y = n if x is q else q
            more = []
            if known.get((gt, x)) == 0 and known.get((eq, q), known.get((eq, n))) == 0:
                more = [(ge, x, 0), (gt, y, 1), (ge, y, 1)]
            elif known.get((ge, x)) == 1 and known.get((eq, q), known.get((eq, n))) == 0:
                more = [(gt, x, 1), (ge, y, 0), (gt, y, 0)]
            elif known.get((ge, x)) == 1 and known.get((gt, x)) == 0:
                more = [(eq, q, 1), (ge, y, 1), (gt, y, 0)]
            for f, z, w in more:
                ind = indicator(f(z))
                if ind and ind[0] not in dict(facts):
                    facts.append((ind[0], w if ind[1] else 1 - w))
    rew = None
    if a.op == 'eq' and v and len(a.args[0].terms) <= 3:
        q = a.args[0]
        for m, c in q.terms.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op not in VAR_OPS:
                x = m[0][0]
                rest = sub(q, _mk({m: c}))
                if not any(y is x for y in atoms_of(rest)):
                    rew = (x, scale(rest, F(-1) / c))
                    break
    for x, w in facts:
        ASSUME[x] = ONE if w else ZERO
    if rew is not None:
        ASSUME[rew[0]] = rew[1]
    reset()


def settle(facts):
    """the facts again, in the form they take under one another"""
    for a, v in facts:
        p = _map_atom(a, lambda x: None if x is a else ASSUME.get(x), {})
        ind = None if is_const(p) else indicator(p)
        if ind and ind[0] is not a and ind[0] not in ASSUME:
            assume(ind[0], v if ind[1] else 1 - v)


ZERO = const(0)
ONE = const(1)
TWO = const(2)
NAN = ap(atom('nan'))
INF = ap(atom('inf', (), ('positive',)))
TRUE, FALSE = ONE, ZERO


def is_const(p):
    return not p.terms or (len(p.terms) == 1 and () in p.terms)


def const_val(p):
    if not p.terms:
        return F(0)
    return p.terms[()]


def single_atom(p):
    """the atom if p is exactly one atom with coef 1 exp 1"""
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def add(p, q):
    if not p.terms:
        return q
    if not q.terms:
        return p
    d = dict(p.terms)
    for m, c in q.terms.items():
        d[m] = d.get(m, 0) + c
    return _mk(d)


def scale(p, c):
    c = F(c)
    if c == 1:
        return p
    return _mk({m: k * c for m, k in p.terms.items()})


def neg(p):
    return scale(p, -1)


def sub(p, q):
    return add(p, neg(q))


def addn(*ps):
    r = ZERO
    for p in ps:
        r = add(r, p)
    return r


_MM = {}


def _rel(a):
    return a.op in ('gt', 'ge', 'eq')


def _mono_mul(m1, m2):
    """product of two monomials -> (mono or None if zero, needs_expand list)"""
    key = (m1, m2)
    r = _MM.get(key)
    if r is not None:
        return r
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            if a._isb:
                pass
            else:
                d[a] = d[a] + e
                if d[a] == 0:
                    del d[a]
        else:
            d[a] = e
    res = _mono_norm(d)
    _MM[key] = res
    return res


def _mono_norm(d):
    rels = [a for a in d if _rel(a)]
    if len(rels) > 1:
        drop = set()
        for i, a in enumerate(rels):
            for b in rels[i + 1:]:
                if a in drop or b in drop:
                    continue
                r = _rel_pair(a, b)
                if r == 0:
                    return None
                if r is a or r is b:
                    drop.add(r)
        for a in drop:
            del d[a]
    for a in d:
        if a.op == 'isnan' and len(d) > 1:
            pass
    # opaque equality with two different constants
    eqs = [a for a in d if a.op == 'eqo']
    if len(eqs) > 1:
        for i, a in enumerate(eqs):
            for b in eqs[i + 1:]:
                if a.args[0] is b.args[0] and a.args[1] != b.args[1] and \
                        not isinstance(a.args[1], Poly) and not isinstance(b.args[1], Poly):
                    return None
    primes = [a for a in d if a.op == 'prime']
    coef = F(1)
    for a in primes:
        e = d[a]
        ip = e.__floor__() if isinstance(e, F) else e
        fr = e - ip
        if ip:
            coef *= F(a.args[0]) ** int(ip)
            if fr == 0:
                del d[a]
            else:
                d[a] = fr
    m = tuple(sorted(((a, _ie(e)) for a, e in d.items()), key=lambda t: t[0].id))
    expand = [a for a, e in m if a.op == 'pw' and isinstance(e, int) and e > 0]
    return (m, coef, tuple(expand))


def _ie(e):
    if isinstance(e, F) and e.denominator == 1:
        return int(e)
    return e


_RP = {}


def _rel_pair(a, b):
    """0: contradictory; the atom to drop if implied; None otherwise"""
    k = (a, b)
    if k in _RP:
        return _RP[k]
    r = _rel_pair0(a, b)
    _RP[k] = r
    return r


def _constdiff(p, q):
    d = {}
    # cheap test: non-constant terms equal
    if len(p.terms) - (1 if () in p.terms else 0) != len(q.terms) - (1 if () in q.terms else 0):
        return None
    for m, c in p.terms.items():
        if m != () and q.terms.get(m) != c:
            return None
    return q.terms.get((), F(0)) - p.terms.get((), F(0))


def _rel_pair0(a, b):
    p, q = a.args[0], b.args[0]
    c = _constdiff(p, q)       # q = p + c
    if c is not None:
        if a.op == 'eq':
            # p == 0 -> q == c
            t = {'gt': c > 0, 'ge': c >= 0, 'eq': c == 0}[b.op]
            return b if t else 0
        if b.op == 'eq':
            # q == 0 -> p == -c
            t = {'gt': -c > 0, 'ge': -c >= 0}[a.op]
            return a if t else 0
        # a: p >(=) 0 ; b: p >(=) -c
        if c > 0:
            return b
        if c < 0:
            return a
        return a if a.op == 'ge' else b
    if 0 < len(p.terms) <= 8 and 0 < len(q.terms) <= 8:
        return _rel_scaled(a, b, p, q)
    return None


def _rel_scaled(a, b, p, q):
    """p and q differ by a multiple of p and something of known sign"""
    for m, cp in p.terms.items():
        if m == ():
            continue
        cq = q.terms.get(m)
        if cq is None:
            continue
        k = cq / cp
        d = sub(q, scale(p, k))            # q = k p + d
        s = known_sign(d)
        if s is None:
            continue
        up, down = s in (0, 1), s in (-1, -2)
        if a.op == 'eq' and b.op == 'eq':
            if s in (1, -2):
                return 0
        elif a.op == 'eq':                 # q = d
            if s == 1 or (up and b.op == 'ge'):
                return b
            if s == -2 or (down and b.op == 'gt'):
                return 0
        elif b.op == 'eq':                 # k p = -d
            x = s if k < 0 else {1: -2, 0: -1, -1: 0, -2: 1}[s]      # sign of p
            if x == 1 or (x == 0 and a.op == 'ge'):
                return a
            if x == -2 or (x == -1 and a.op == 'gt'):
                return 0
        elif k > 0:
            if up and (a.op == 'gt' or b.op == 'ge' or s == 1):
                return b                   # a implies b
            if down and (b.op == 'gt' or a.op == 'ge' or s == -2):
                return a
        elif s == -2 or (down and 'gt' in (a.op, b.op)):
            return 0                       # q + |k| p = d
    return None


def mul(p, q):
    if not p.terms or not q.terms:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    if len(p.terms) * len(q.terms) > PROD_LIMIT:
        if len(p.terms) >= len(q.terms):
            p = define(p)
        else:
            q = define(q)
        if len(p.terms) * len(q.terms) > PROD_LIMIT:
            p, q = define(p), define(q)
    k = (p.id, q.id) if p.id <= q.id else (q.id, p.id)
    r = _MUL.get(k)
    if r is not None:
        return r
    d = {}
    extra = []
    for m1, c1 in p.terms.items():
        for m2, c2 in q.terms.items():
            r = _mono_mul(m1, m2)
            if r is None:
                continue
            m, kf, ex = r
            if ex:
                extra.append((m, c1 * c2 * kf, ex))
                continue
            d[m] = d.get(m, 0) + c1 * c2 * kf
    res = _mk(d)
    for m, c, ex in extra:
        rest = dict(m)
        t = const(c)
        for a in ex:
            e = rest.pop(a)
            for _ in range(e):
                t = mul(t, a.args[0])
        mm = _mono_norm(rest)
        if mm is None:
            continue
        t = mul(t, _mk({mm[0]: mm[1]}))
        res = add(res, t)
    res = _eqnorm(res)
    _MUL[k] = res
    return res


_MUL = {}
_EQV = {}
_EQM = {}


def _eqvar(a):
    """(v, t) when [a] says v == t for an index variable v not in t"""
    r = _EQV.get(a, 0)
    if r != 0:
        return r
    r = None
    p = a.args[0]
    best = None
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op in ('ix', 'bv'):
            v = m[0][0]
            if any(v in x.deps for m2 in p.terms if m2 != m for x, e in m2):
                continue
            key = (0 if v.op == 'ix' else 1, v.args[0])
            if best is None or key < best[0]:
                best = (key, v, c)
    if best is not None:
        key, v, c = best
        r = (v, scale(sub(p, scale(ap(v), c)), F(-1) / c))
    _EQV[a] = r
    return r


def _eqmono(m):
    """monomial rewritten under its own equalities, None if unchanged"""
    r = _EQM.get(m, 0)
    if r != 0:
        return r
    r = None
    for a, e in m:
        if a.op == 'eq':
            vt = _eqvar(a)
            if vt is None:
                continue
            v, t = vt
            if any(v in x.deps for x, e2 in m if x is not a):
                _EQM[m] = None          # guards re-entry
                mp, keys, memo = {v: t}, frozenset((v,)), {}
                r = ap(a)
                for x, e2 in m:
                    if x is a:
                        continue
                    if v in x.deps:
                        y = _subst_atom(x, mp, keys, memo)
                        y = power(y, e2) if e2 != 1 else y
                    else:
                        y = _mk({((x, e2),): F(1)})
                    r = mul(r, y)
                    if not r.terms:
                        break
                break
    _EQM[m] = r
    return r


def _eqnorm(p):
    todo = None
    for m in p.terms:
        if len(m) > 1 and any(a.op == 'eq' for a, e in m) and _eqmono(m) is not None:
            todo = todo or []
            todo.append(m)
    if not todo:
        return p
    d = dict(p.terms)
    res = ZERO
    for m in todo:
        c = d.pop(m)
        res = add(res, scale(_eqmono(m), c))
    return add(_mk(d), res)


def define(p):
    """name a big polynomial (value preserved; see unfold)"""
    if len(p.terms) <= 1:
        return p
    fl = []
    if all(a._isb for m in p.terms for a, e in m) and p.inds:
        fl = []
    return ap(atom('def', (p,), fl))


# Named definitions: rdd(name, params...) stands for the body with its parameters substituted.  Unlike def, an index is
# substituted into the parameters only; the body is shared by every read.
DEFS = {}          # name -> (body, parameter atoms, level)
_DLEV = {}


def defs_in(p):
    """names of the definitions p refers to directly"""
    r = _DLEV.get(p)
    if r is None:
        r = _DLEV[p] = frozenset(a.args[0] for a in atoms_of(p) if a.op == 'rdd')
    return r


_CLO = {}


def closure(p):
    """names of all definitions p depends on"""
    r = _CLO.get(p)
    if r is None:
        r = set()
        todo = list(defs_in(p))
        while todo:
            n = todo.pop()
            if n not in r:
                r.add(n)
                c = _CLO.get(DEFS[n][0])
                if c is not None:
                    r |= c
                else:
                    todo.extend(defs_in(DEFS[n][0]))
        r = _CLO[p] = frozenset(r)
    return r


def rename_defs(p, mp):
    """replace the names of definitions"""
    if not (defs_in(p) & set(mp)):
        return p
    memo = {}

    def fn(a):
        if a.op == 'rdd' and a.args[0] in mp:
            b = mp[a.args[0]]
            args = tuple(map_atoms(x, fn, memo) for x in a.args[1:])
            if b[0] == 't':
                return subst(DEFS[b][0], dict(zip(DEFS[b][1], args)))
            return ap(atom('rdd', (b,) + args, DEFFL.get(b, ())))
        return None
    return map_atoms(p, fn, memo)


def template(p, ds):
    """a name for p as a function of ds that is never kept in a term"""
    n = 't%d' % p.id
    DEFS[n] = (p, ds, 0)
    return n


DEFFL = {}


def known_int(p):
    return is_int(p) and not all(a._isb for m in p.terms for a, e in m)


def lead_neg(p):
    """is the coefficient of the leading term negative (names are given up to sign)"""
    m = min((m for m in p.terms if m), key=lambda m: [(a.id, str(e)) for a, e in m], default=None)
    return m is not None and p.terms[m] < 0 and not is_int(p)


def adefine(p, big):
    """name polynomial p (over the index variables and closed otherwise); value preserved"""
    if len(p.terms) <= 1 and not big(p):
        return p
    ds = tuple(sorted(p.deps, key=lambda a: a.id))
    if any(a.op != 'ix' for a in ds):
        return p
    x = single_atom(p)
    if x is not None and x.op == 'rdd':
        return p
    if not big(p):
        return p
    name = 'd%d' % p.id
    if name not in DEFS:
        DEFS[name] = (p, ds, 1 + max([DEFS[n][2] for n in defs_in(p)] or [0]))
    fl = []
    if p.inds and all(m and all(a._isb for a, e in m) for m in p.terms if m) and bool_valued(p):
        fl.append('bool')
    elif is_int(p):
        fl.append('int')
    DEFFL[name] = tuple(fl)
    return ap(atom('rdd', (name,) + tuple(ap(a) for a in ds), fl))


def bool_valued(p):
    """p, a polynomial in indicators only, takes the values 0 and 1 only"""
    return mul(p, p) is p


def unfold1(p, names, memo=None):
    """expand the named definitions, one level"""
    memo = {} if memo is None else memo

    def fn(a):
        if a.op == 'rdd' and a.args[0] in names:
            body, ds, lv = DEFS[a.args[0]]
            mp = {d: map_atoms(x, fn, memo) for d, x in zip(ds, a.args[1:])}
            return subst(body, mp)
        return None
    return map_atoms(p, fn, memo)


def has_nan(p):
    return p is NAN


# ------------------------------------------------------------------ booleans
def b_not(p):
    return sub(ONE, p)


def b_and(p, q):
    return mul(p, q)


def b_or(p, q):
    return sub(add(p, q), mul(p, q))


_AS = {}


def assign(p, c, val):
    """replace indicator atom c by val in the top-level monomials of p, with implications"""
    if not isinstance(p, Poly):
        if isinstance(p, tuple):
            return tuple(assign(x, c, val) if isinstance(x, (Poly, tuple)) else x for x in p)
        return p
    if not p.inds:
        return p
    k = (p.id, c, val)
    r = _AS.get(k)
    if r is not None:
        return r
    rel = _rel(c)
    d = {}
    for m, co in p.terms.items():
        dead = False
        out = []
        for a, e in m:
            if a is c:
                if val:
                    continue
                dead = True
                break
            if rel and _rel(a):
                if val:
                    rp = _rel_pair(c, a)
                    if rp == 0:
                        dead = True
                        break
                    if rp is a:
                        continue
                else:
                    # c false: a implies c -> a false ; (a implied by not c ...)
                    rp = _rel_pair(a, c)
                    if rp is c:      # a => c
                        dead = True
                        break
            if a.op == 'eqo' and c.op == 'eqo' and val and a.args[0] is c.args[0] and \
                    not isinstance(a.args[1], Poly) and not isinstance(c.args[1], Poly):
                dead = True
                break
            out.append((a, e))
        if dead:
            continue
        mm = tuple(out)
        d[mm] = d.get(mm, 0) + co
    r = _mk(d)
    _AS[k] = r
    return r


def indicator(p):
    """(atom, positive?) if p is an indicator atom or its complement"""
    a = single_atom(p)
    if a is not None and a._isb:
        return a, True
    if len(p.terms) == 2 and p.terms.get(()) == 1:
        for m, c in p.terms.items():
            if m != () and c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0]._isb:
                return m[0][0], False
    return None


def select(c, a, b):
    """if c then a else b"""
    if a is b:
        return a
    if is_const(c):
        return a if const_val(c) != 0 else b
    ind = indicator(c)
    if ind:
        at, pos = ind
        if not pos:
            a, b = b, a
        a = assign(a, at, 1)
        b = assign(b, at, 0)
        if a is b:
            return a
        if at.op in ('gt', 'ge', 'eq'):
            r = _tie(at, a, b)
            if r is not None:
                return r
        return add(b, mul(ap(at), sub(a, b)))
    if len(a.terms) + len(b.terms) > DEF_LIMIT and len(c.terms) > 3:
        a = define(a) if len(a.terms) > 8 else a
        b = define(b) if len(b.terms) > 8 else b
    return add(b, mul(c, sub(a, b)))


def _tie(at, a, b):
    """select on q>0 / q>=0 where both sides agree at q==0"""
    q = at.args[0]
    d = sub(a, b)
    k = exact_quot(d, q)
    if k is None:
        return None
    if at.op == 'eq':
        return b
    # b + k*q*[q>0]
    return add(b, mul(k, relu(q)))


def exact_quot(d, q):
    """k with d == k*q, k a single monomial (or None)"""
    if len(d.terms) != len(q.terms) or not q.terms:
        return None
    if is_const(q):
        return None
    m0 = max(q.terms, key=_mkey)
    for m in d.terms:
        # candidate quotient m/m0
        dd = dict(m)
        ok = True
        for a, e in m0:
            if a._isb:
                if a not in dd:
                    ok = False
                    break
                continue
            dd[a] = dd.get(a, 0) - e
            if dd[a] == 0:
                del dd[a]
        if not ok:
            continue
        mm = tuple(sorted(((a, _ie(e)) for a, e in dd.items()), key=lambda t: t[0].id))
        k = _mk({mm: d.terms[m] / q.terms[m0]})
        if mul(k, q) is d:
            # k must be finite where q vanishes: a single factor of q must not be in its denominator
            if len(q.terms) == 1 and any(a is b and e < 0 for a, e in mm for b, f in m0):
                continue
            return k
    return None


def _mkey(m):
    return tuple(sorted(((a.id, e) for a, e in m), reverse=True))


def relu(q):
    """max(q,0), canonical in the sign of q"""
    r = _lift1(relu, q)
    if r is not None:
        return r
    if is_const(q):
        return q if const_val(q) > 0 else ZERO
    s = known_sign(q)
    if s is not None:
        return q if s >= 0 else ZERO
    if len(q.terms) > DEF_LIMIT // 2:
        q = define(q)
    g = gt(q)
    ind = indicator(g)
    if ind is None:           # folded
        return select(g, q, ZERO)
    at, pos = ind
    q2 = at.args[0]
    # canonical: multiply by strict indicator of the canonical polynomial
    if pos:
        return mul(_strict(at), q)
    # g = 1 - at, at: q2>=0 with q2 ~ -q ; [q>0]*q = q - [q2>=0] q = q - [q2>0] q
    return sub(q, mul(_strict(at), q))


def _strict(at):
    if at.op == 'ge' and not is_int(at.args[0]):
        return ap(atom('gt', at.args))
    return ap(at)


MAXOF = {}      # largest-of result -> what it is the largest of;  and back, so that the order of nesting does not matter
MAXBY = {}


def maxp(a, b):
    if a is b:
        return a
    if known_sign(sub(a, b)) is None:
        k = MAXOF.get(a, frozenset((a,))) | MAXOF.get(b, frozenset((b,)))
        r = MAXBY.get(k)
        if r is None:
            r = add(b, relu(sub(a, b)))
            if len(k) > 1:
                MAXBY[k] = r
                MAXOF.setdefault(r, k)
        return r
    return add(b, relu(sub(a, b)))


def minp(a, b):
    return sub(a, relu(sub(a, b)))


def absp(q):
    return sub(scale(relu(q), 2), q)


# ------------------------------------------------------------------ lifting
def _pick(args, bound=()):
    s = set()
    for x in args:
        if isinstance(x, Poly):
            s |= x.inds
        elif isinstance(x, tuple):
            for y in _iter_polys(x):
                s |= y.inds
    if bound:
        s = {a for a in s if not (a.deps & bound)}
    return s


def _lift1(f, q):
    if q.inds:
        s = q.inds
        if 0 < len(s) <= LIFT_MAX:
            c = min(s, key=lambda a: a.id)
            return _combine(c, f(assign(q, c, 1)), f(assign(q, c, 0)))
    return None


def _combine(c, a1, a0):
    if a1 is a0:
        return a1
    return add(a0, mul(ap(c), sub(assign(a1, c, 1), assign(a0, c, 0))))


def app(op, args, flags=(), bound=()):
    """uninterpreted (or re-canonicalised) application with indicator lifting"""
    args = tuple(args)
    if op in NOLIFT:
        return ap(atom(op, args, flags))
    s = _pick(args, frozenset(bound))
    if op == 'lam' and s:
        s = {a for a in s if a.op not in ('gt', 'ge', 'eq')}
    if op == 'red' and args[1] in ('max', 'min') and s and any(a.op == 'exc' for a in s):
        s = set()                       # the same in the relations all(x < c)
    if 0 < len(s) <= LIFT_MAX:
        c = min(s, key=lambda a: a.id)
        a1 = tuple(assign(x, c, 1) if isinstance(x, (Poly, tuple)) else x for x in args)
        a0 = tuple(assign(x, c, 0) if isinstance(x, (Poly, tuple)) else x for x in args)
        return _combine(c, app(op, a1, flags, bound), app(op, a0, flags, bound))
    if op in ONE_BOUND and len(args[0]) == 1 and args[0][0].op == 'bv':
        # the bound variable is numbered by what is left of the body
        k = 2 if op == 'red' else 1
        v, bd = args[0][0], args[k]
        if isinstance(bd, Poly):
            d = _own_depth(bd, v)
            if d < v.args[0]:
                w = atom('bv', (d,), ('int', 'nonneg'))
                args = ((w,),) + args[1:k] + (subst(bd, {v: ap(w)}),) + args[k + 1:]
    f = CTORS.get(op)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return ap(atom(op, args, flags))


CTORS = {}
ONE_BOUND = {'any', 'red', 'nth', 'count', 'rank'}
_OWND = {}


def _own_depth(p, v):
    r = _OWND.get((p, v))
    if r is None:
        r = 0
        for a in atoms_of(p):
            if a.op == 'bv' and a is not v:
                r = max(r, a.args[0] + 1)
        _OWND[p, v] = r
    return r



# ------------------------------------------------------------------ predicates
def is_int(p):
    for m, c in p.terms.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a._isb:
                continue
            if not (isinstance(e, int) and e > 0 and ('int' in a.flags)):
                return False
    return True


def atom_sign(a, e):
    """sign of a**e: 1 positive, 0 nonneg, None unknown"""
    if 'positive' in a.flags or a.op == 'prime':
        return 1
    if a._isb or 'nonneg' in a.flags:
        return 0 if (e > 0) else None
    if isinstance(e, int) and e % 2 == 0 and e > 0:
        return 0
    if isinstance(e, F) and e.numerator % 2 == 0:
        return 0 if e > 0 else None
    if a.op == 'def':
        s = known_sign(a.args[0])
        return s if s is not None and s >= 0 else None
    if a.op == 'pw':
        s = known_sign(a.args[0])
        if s == 1:
            return 1
        if s == 0 and e > 0:
            return 0
        if isinstance(e, F):
            return 0 if e > 0 else None
    return None


def known_sign(p):
    """1 >0 always, 0 >=0 always, -1 <=0/<0 always, None unknown"""
    if not p.terms:
        return 0
    pos = neg_ = True
    strict = False
    for m, c in p.terms.items():
        s = 1
        for a, e in m:
            t = atom_sign(a, e)
            if t is None:
                return None
            s = min(s, t)
        if c > 0:
            neg_ = False
            if s == 1:
                strict = True
        else:
            pos = False
            if s == 1:
                strict = True
    if pos:
        return 1 if strict else 0
    if neg_:
        return -2 if strict else -1
    c0 = p.terms.get(())
    if c0 is not None and is_int(p):
        # positive integers are at least one
        sg = 1 if c0 < 0 else -1
        low = sg * c0
        for m, c in p.terms.items():
            if m == ():
                continue
            if sg * c < 0:
                return None
            if all(atom_sign(a, e) == 1 for a, e in m):
                low += sg * c
        if low > 0:
            return sg if sg > 0 else -2
        if low == 0:
            return 0 if sg > 0 else -1
    return None


def _content(p):
    """(positive rational content, positive-atom common monomial, primitive)"""
    from math import gcd
    num = 0
    den = 1
    for c in p.terms.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    c = F(num, den)
    common = None
    for m in p.terms:
        d = {a: e for a, e in m if not a._isb}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) if a in d else (min(e, 0)) for a, e in common.items()
                      if (a in d) or e < 0}
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
    common = {a: e for a, e in (common or {}).items() if e != 0}
    return c, common


def _div_mono(p, mono):
    if not mono:
        return p
    inv = _mk({tuple(sorted(((a, _ie(-e)) for a, e in mono.items()), key=lambda t: t[0].id)): F(1)})
    return mul(p, inv)


def _primrel(p):
    """strip positive content; returns primitive"""
    c, common = _content(p)
    p = scale(p, 1 / c)
    pos = {a: e for a, e in common.items() if atom_sign(a, 1) == 1}
    if pos:
        p = _div_mono(p, pos)
        c, _ = _content(p)
        p = scale(p, 1 / c)
    # clear positive denominators
    for _ in range(4):
        dn = {}
        for m in p.terms:
            for a, e in m:
                if e < 0 and atom_sign(a, 1) == 1:
                    dn[a] = min(dn.get(a, 0), e)
        if not dn:
            break
        p = _div_mono(p, dn)
    c, _ = _content(p)
    return scale(p, 1 / c)


def _lead(p):
    ms = [m for m in p.terms if m != ()]
    return max(ms, key=_mkey)


_GT = {}


def gt(p):
    r = _GT.get(('gt', p.id))
    if r is None:
        r = _GT[('gt', p.id)] = _gt(p)
    return r


def ge(p):
    r = _GT.get(('ge', p.id))
    if r is None:
        r = _GT[('ge', p.id)] = _ge(p)
    return r


def eq(p):
    r = _GT.get(('eq', p.id))
    if r is None:
        r = _GT[('eq', p.id)] = _eq(p)
    return r


def _nanish(p):
    return any(a.op == 'nan' for m in p.terms for a, e in m)


def _nan_split(f, p):
    """relation f on a term that is a missing value under some condition: false there"""
    if not p.inds:
        return ZERO
    cs, rest = {}, {}
    for m, c in p.terms.items():
        if any(a.op == 'nan' for a, e in m):
            r = tuple(x for x in m if x[0].op != 'nan')
            cs[r] = cs.get(r, 0) + c
        else:
            rest[m] = c
    C = _mk(cs)
    if not C.terms:
        return None
    k = C.terms[_lead(C)]
    for k in (k, -k):
        D = scale(C, F(1) / k)
        if all(a._isb for m in D.terms for a, e in m) and bool_valued(D):
            return mul(sub(ONE, D), f(_mk(rest)))
    return None


def _extremum_rel(f, p):
    """c - max(x) > 0  is  all(c - x > 0), and dually for min"""
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'red' and m[0][0].args[1] in ('max', 'min') and len(m[0][0].args[0]) == 1:
            a = m[0][0]
            if (a.args[1] == 'max') != (c < 0):
                continue
            rest = sub(p, scale(ap(a), c))
            if any(x is a for x in atoms_of(rest)):
                continue
            from . import values as V
            v = fresh_bv([rest, a.args[2], a.args[3]])[0]
            return V.b_all(f(add(rest, scale(subst(a.args[2], {a.args[0][0]: ap(v)}), c))), a.args[3], v)
    return None


def _left_bound(p):
    """extreme value of a term containing the iteration in which a loop was left (at most one less than the bound)"""
    for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'eta' and m[0][0].args[1] == 'it':
            a = m[0][0]
            N = a.args[2][1]
            if isinstance(N, Poly):
                q = add(sub(p, scale(ap(a), c)), scale(sub(N, ONE), c))
                if is_const(q):
                    return c, const_val(q)
    return None


def _gt(p):
    if is_const(p):
        return ONE if const_val(p) > 0 else ZERO
    r = _lift1(gt, p)
    if r is not None:
        return r
    if _nanish(p):
        r = _nan_split(gt, p)
        return r if r is not None else ap(atom('gt', (p,)))
    if any(m and m[0][0].op == 'red' for m in p.terms):
        r = _extremum_rel(gt, p)
        if r is not None:
            return r
    lb = _left_bound(p)
    if lb is not None:
        if lb[0] > 0 and lb[1] <= 0:
            return ZERO
        if lb[0] < 0 and lb[1] > 0:
            return ONE
    s = known_sign(p)
    if s == 1:
        return ONE
    if s in (-1, -2):
        return ZERO
    q = _primrel(p)
    if is_int(q):
        return ge(sub(q, ONE))
    if q.terms[_lead(q)] < 0:
        return sub(ONE, ap(atom('ge', (neg(q),))))
    return ap(atom('gt', (q,)))


def _ge(p):
    if is_const(p):
        return ONE if const_val(p) >= 0 else ZERO
    r = _lift1(ge, p)
    if r is not None:
        return r
    if _nanish(p):
        r = _nan_split(ge, p)
        return r if r is not None else ap(atom('ge', (p,)))
    if any(m and m[0][0].op == 'red' for m in p.terms):
        r = _extremum_rel(ge, p)
        if r is not None:
            return r
    lb = _left_bound(p)
    if lb is not None:
        if lb[0] > 0 and lb[1] < 0:
            return ZERO
        if lb[0] < 0 and lb[1] >= 0:
            return ONE
    s = known_sign(p)
    if s in (0, 1):
        return ONE
    if s == -2:
        return ZERO
    q = _primrel(p)
    if is_int(q):
        from math import gcd
        g = 0
        for m, c in q.terms.items():
            if m != ():
                g = gcd(g, abs(int(c)))
        c0 = int(q.terms.get((), 0))
        d = {m: c / g for m, c in q.terms.items() if m != ()}
        fl = c0 // g
        if fl:
            d[()] = F(fl)
        q = _mk(d)
        if q.terms[_lead(q)] < 0:
            return sub(ONE, ap(atom('ge', (sub(neg(q), ONE),))))
        s = known_sign(q)
        if s in (0, 1):
            return ONE
        return ap(atom('ge', (q,)))
    if q.terms[_lead(q)] < 0:
        return sub(ONE, ap(atom('gt', (neg(q),))))
    return ap(atom('ge', (q,)))


def _eq(p):
    if is_const(p):
        return ONE if const_val(p) == 0 else ZERO
    r = _lift1(eq, p)
    if r is not None:
        return r
    if _nanish(p):
        r = _nan_split(eq, p)
        return r if r is not None else ap(atom('eq', (p,)))
    s = known_sign(p)
    if s == 1 or s == -2:
        return ZERO
    q = _primrel(p)
    if q.terms[_lead(q)] < 0:
        q = neg(q)
    if is_int(q):
        from math import gcd
        g = 0
        for m, c in q.terms.items():
            if m != ():
                g = gcd(g, abs(int(c)))
        if int(q.terms.get((), 0)) % g:
            return ZERO
    return ap(atom('eq', (q,)))


CTORS['gt'] = gt
CTORS['ge'] = ge
CTORS['eq'] = eq
CTORS['def'] = lambda p: (p if len(p.terms) <= 12 else define(p))


def isnan(p):
    r = _lift1(isnan, p)
    if r is not None:
        return r
    if is_const(p):
        return ZERO
    if p.inds or len({a for m in p.terms for a, e in m}) > 6:
        return ap(atom('isnan', (p,)))
    res = ZERO
    for m in p.terms:
        for a, e in m:
            if a.op == 'nan':
                return ONE
            if a.op == 'def':
                t = isnan(a.args[0])
            elif a._isb or 'nonan' in a.flags or 'positive' in a.flags or 'int' in a.flags:
                continue
            elif a.op == 'pw':
                t = isnan(a.args[0])
            else:
                t = ap(atom('isnan', (ap(a),)))
            res = b_or(res, t)
    return res


CTORS['isnan'] = isnan


# ------------------------------------------------------------------ powers
def _prime_factors(n):
    r = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            r[d] = r.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def const_pow(c, e):
    """c rational, e rational"""
    if e == int(e):
        if c == 0 and e < 0:
            return INF
        return const(c ** int(e))
    if c < 0:
        return ap(atom('cpow', (c, e)))
    if c == 0:
        return ZERO if e > 0 else INF
    if c.numerator > 10**8 or c.denominator > 10**8:
        return ap(atom('cpow', (c, e), ('positive',)))
    t = ONE
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in _prime_factors(n).items():
            ex = e * k * sg
            ip = ex.__floor__()
            t = scale(t, F(pr) ** ip)
            if ex != ip:
                r = _mono_mul(((atom('prime', (pr,), ('positive',)), ex - ip),), ())
                t = mul(t, _mk({r[0]: r[1]}))
    return t


def power(p, e):
    """p ** e with rational e"""
    e = F(e)
    if e == 1:
        return p
    if e == 0:
        return ONE
    if is_const(p):
        return const_pow(const_val(p), e)
    if p is NAN:
        return NAN
    if e == int(e) and 0 < e <= 4 and len(p.terms) <= 40:
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    if p.inds and len(p.inds) <= LIFT_MAX:
        c = min(p.inds, key=lambda a: a.id)
        return _combine(c, power(assign(p, c, 1), e), power(assign(p, c, 0), e))
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if any(a._isb for a, x in m):
            return ap(atom('pwo', (p, e)))
        if c < 0 and e != int(e):
            return ap(atom('pwo', (p, e)))
        t = const_pow(c, e)
        for a, x in m:
            ne = F(x) * e
            if F(x).denominator == 1 and int(x) % 2 == 0 and e.denominator % 2 == 0 and atom_sign(a, 1) is None:
                base = absp(ap(a))
                t = mul(t, power(base, ne) if base.inds else _mk({((a, _ie(ne)),): F(1)}))
            else:
                r = _mono_mul(((a, _ie(ne)),), ())
                if r[2]:
                    t = mul(t, mul(_mk({(): F(1)}), _expandpw(r)))
                else:
                    t = mul(t, _mk({r[0]: r[1]}))
        return t
    c, common = _content(p)
    integer = e == int(e)
    lead = p.terms[_lead(p)]
    sgn = -1 if (lead < 0 and integer) else 1
    if not integer:
        common = {a: x for a, x in common.items() if atom_sign(a, 1) == 1}
    q = scale(_div_mono(p, common), 1 / (c * sgn))
    if len(q.terms) == 1 or is_const(q):
        t = power(q, e)
    else:
        r = perfect_root(q) if integer else None
        if r is not None:
            t = power(r[0], e * r[1])
        elif len(q.terms) > DEF_LIMIT:
            q = define(q)
            t = _mk({((single_atom(q), _ie(e)),): F(1)})
        else:
            a = atom('pw', (q,))
            t = _mk({((a, _ie(e)),): F(1)})
    t = mul(t, const_pow(c, e))
    if sgn < 0 and int(e) % 2:
        t = neg(t)
    for a, x in common.items():
        r = _mono_mul(((a, _ie(F(x) * e)),), ())
        t = mul(t, _mk({r[0]: r[1]}))
    return t


_PROOT = {}


def perfect_root(q):
    """(r, k) with q == r**k, k in 2, 3, 4; None if there is none"""
    if q in _PROOT:
        return _PROOT[q]
    r = None
    if 3 <= len(q.terms) <= 60 and not q.inds:
        for k in (2, 3):
            t = _kroot(q, k)
            if t is not None:
                r = (t, k)
                if k == 2:
                    s = perfect_root(t)
                    if s is not None:
                        r = (s[0], 2 * s[1])
                break
    _PROOT[q] = r
    return r


def _nth_rat(c, k):
    out = []
    for x in (c.numerator, c.denominator):
        sg = -1 if x < 0 else 1
        if sg < 0 and k % 2 == 0:
            return None
        y = round(abs(x) ** (1.0 / k)) if abs(x) < 10 ** 15 else None
        if y is None or y ** k != abs(x):
            return None
        out.append(sg * y)
    return F(out[0], out[1])


def _kroot(q, k):
    # graded by a fixed atom order: compare exponent vectors lexicographically
    atoms = sorted({a for m in q.terms for a, e in m}, key=lambda a: a.id)
    ix = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [F(0)] * len(atoms)
        for a, e in m:
            v[ix[a]] = F(e)
        return tuple(v)
    lt = max(q.terms, key=vec)
    c = _nth_rat(q.terms[lt], k)
    if c is None:
        return None
    r0 = _mk({tuple((a, _ie(F(e) / k)) for a, e in lt): c})
    if mul(power(r0, k - 1), r0) is not _mk({lt: q.terms[lt]}):
        return None
    r = r0
    lead = vec(next(iter(r0.terms)))
    (m0, c0), = r0.terms.items()
    for _ in range(12):
        rem = sub(q, power(r, k))
        if not rem.terms:
            return r
        m = max(rem.terms, key=vec)
        d = dict(m)
        for a, e in m0:
            d[a] = d.get(a, 0) - e * (k - 1)
            if d[a] == 0:
                del d[a]
        mm = tuple(sorted(((a, _ie(e)) for a, e in d.items()), key=lambda t: t[0].id))
        t = _mk({mm: rem.terms[m] / (k * c0 ** (k - 1))})
        if not t.terms or vec(mm) >= lead:
            return None
        r = add(r, t)
        if len(r.terms) > 10:
            return None
    return None


def _c_rd(a, *ix):
    # a[posn(k: a[k], n, i)] is i
    if len(ix) == 1 and isinstance(ix[0], Poly):
        x = single_atom(ix[0])
        if x is not None and x.op == 'posn':
            b, body, n, i = x.args
            if _is_rd(body, a, b[0]):
                return i
    return None


def _is_rd(body, a, v):
    x = single_atom(body)
    return x is not None and x.op == 'rd' and x.args == (a, ap(v))


CTORS['rd'] = _c_rd


def _expandpw(r):
    m, c, ex = r
    rest = dict(m)
    t = const(c)
    for a in ex:
        k = rest.pop(a)
        for _ in range(k):
            t = mul(t, a.args[0])
    mm = _mono_norm(rest)
    return mul(t, _mk({mm[0]: mm[1]}))


def div(p, q):
    if is_const(q):
        v = const_val(q)
        if v == 0:
            return mul(p, INF)
        return scale(p, 1 / v)
    if len(q.terms) > 1 and len(q.terms) == len(p.terms) and p.terms:
        k = exact_quot(p, q)
        if k is not None:
            return k
    return mul(p, power(q, -1))


def ppow(p, q):
    """general power"""
    if is_const(q):
        return power(p, const_val(q))
    s = _pick((q,))
    if 0 < len(s) <= LIFT_MAX:
        c = min(s, key=lambda a: a.id)
        return _combine(c, ppow(assign(p, c, 1), assign(q, c, 1)), ppow(assign(p, c, 0), assign(q, c, 0)))
    if p.inds and len(p.inds) <= LIFT_MAX:
        c = min(p.inds, key=lambda a: a.id)
        return _combine(c, ppow(assign(p, c, 1), q), ppow(assign(p, c, 0), q))
    if p is ZERO:
        return ZERO
    if p is ONE:
        return ONE
    return ap(atom('pow', (p, q)))


CTORS['pow'] = ppow
CTORS['pwo'] = lambda p, e: power(p, e) if not (len(p.terms) == 1 and any(a._isb for m in p.terms for a, x in m)) and not (len(p.terms) == 1 and list(p.terms.values())[0] < 0) else None


# ------------------------------------------------------------------ zero test
def is_zero(p, limit=20000):
    """rational-function zero test (clears denominators)"""
    if not p.terms:
        return True
    for _ in range(12):
        dens = {}
        for m in p.terms:
            for a, e in m:
                if a.op == 'pw' and isinstance(e, int) and e < 0:
                    dens[a] = min(dens.get(a, 0), e)
                elif a.op == 'pw' and isinstance(e, F):
                    # factor common fractional power: leave
                    pass
        if not dens:
            break
        a, e = min(dens.items(), key=lambda t: len(t[0].args[0].terms))
        if len(p.terms) * len(a.args[0].terms) > limit:
            return False
        inv = _mk({((a, -e),): F(1)})
        # multiply every term by a^-e, expanding
        d = ZERO
        acc = {}
        for m, c in p.terms.items():
            mm = dict(m)
            k = mm.pop(a, 0) - e
            base = tuple(sorted(mm.items(), key=lambda t: t[0].id))
            if isinstance(k, F) and k.denominator != 1:
                mm[a] = k
                acc_m = tuple(sorted(mm.items(), key=lambda t: t[0].id))
                acc[acc_m] = acc.get(acc_m, 0) + c
                continue
            t = _mk({base: c})
            for _i in range(int(k)):
                t = mul(t, a.args[0])
            for m2, c2 in t.terms.items():
                acc[m2] = acc.get(m2, 0) + c2
        p = _mk(acc)
        if not p.terms:
            return True
    return not p.terms


def solve_lin(g):
    """(atom, value) with g = 0 exactly when the atom has the value; None if no atom occurs linearly"""
    for m, c in g.terms.items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0]._isb:
            continue
        a = m[0][0]
        rest = sub(g, _mk({m: c}))
        if a not in atoms_of(rest):
            return a, scale(rest, F(-1) / c)
    return None


# ------------------------------------------------------------------ substitution
def subst(p, mp, memo=None):
    """substitute variable atoms (mapping atom->Poly); rebuild canonically"""
    if memo is None:
        memo = {}
    keys = frozenset(mp)
    return _subst(p, mp, keys, memo)


def _subst(p, mp, keys, memo):
    if not (p.deps & keys):
        return p
    r = memo.get(p)
    if r is not None:
        return r
    res = ZERO
    plain = {}
    for m, c in p.terms.items():
        if not any(a.deps & keys for a, e in m):
            plain[m] = plain.get(m, 0) + c
            continue
        t = const(c)
        for a, e in m:
            if a.deps & keys:
                v = _subst_atom(a, mp, keys, memo)
                t = mul(t, power(v, e) if e != 1 else v)
            else:
                t = mul(t, _mk({((a, e),): F(1)}))
            if not t.terms:
                break
        res = add(res, t)
    res = add(res, _mk(plain))
    memo[p] = res
    return res


def _subst_args(x, mp, keys, memo):
    if isinstance(x, Poly):
        return _subst(x, mp, keys, memo)
    if isinstance(x, tuple):
        return tuple(_subst_args(y, mp, keys, memo) for y in x)
    return x


def _subst_atom(a, mp, keys, memo):
    if a in mp:
        return mp[a]
    r = memo.get(a)
    if r is not None:
        return r
    if a.op == 'pw':
        r = _subst(a.args[0], mp, keys, memo)
    elif a.op in BINDERS:
        if any(b in keys for b in a.args[0]):
            mp2 = {x: y for x, y in mp.items() if x not in a.args[0]}
            k2 = frozenset(mp2)
            m2 = {}
            r = rebuild_binder(a, lambda x: _subst_args(x, mp2, k2, m2))
        else:
            r = rebuild_binder(a, lambda x: _subst_args(x, mp, keys, memo))
    else:
        args = tuple(_subst_args(x, mp, keys, memo) for x in a.args)
        r = app(a.op, args, a.flags)
    memo[a] = r
    return r


def rebuild_binder(a, f):
    args = (a.args[0],) + tuple(f(x) for x in a.args[1:])
    return app(a.op, args, a.flags, bound=a.args[0])


def map_atoms(p, fn, memo):
    """rebuild p replacing atoms by fn(atom)->Poly or None (recursively)"""
    r = memo.get(p)
    if r is not None:
        return r
    res = ZERO
    for m, c in p.terms.items():
        t = const(c)
        for a, e in m:
            v = _map_atom(a, fn, memo)
            t = mul(t, power(v, e) if e != 1 else v)
        res = add(res, t)
    memo[p] = res
    return res


def _map_atom(a, fn, memo):
    r = memo.get(a)
    if r is not None:
        return r
    v = fn(a)
    if v is None:
        def g(x):
            if isinstance(x, Poly):
                return map_atoms(x, fn, memo)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return x
        if a.op == 'pw':
            v = map_atoms(a.args[0], fn, memo)
        elif a.op in BINDERS:
            v = rebuild_binder(a, g)
        else:
            args = tuple(g(x) for x in a.args)
            same = all(x is y for x, y in zip(args, a.args))
            v = ap(a) if same else app(a.op, args, a.flags)
    memo[a] = v
    return v


def unfold(p, memo=None):
    """expand all 'def' names"""
    global DEF_LIMIT, PROD_LIMIT
    old = (DEF_LIMIT, PROD_LIMIT)
    DEF_LIMIT, PROD_LIMIT = 3000, 60000
    try:
        memo = {} if memo is None else memo

        def fn(a):
            if a.op == 'def':
                return map_atoms(a.args[0], fn, memo)
            return None
        return map_atoms(p, fn, memo)
    finally:
        DEF_LIMIT, PROD_LIMIT = old


def atoms_of(p, deep=True, seen=None, out=None):
    """all atoms (transitively)"""
    if seen is None:
        seen, out = set(), set()
    if p in seen:
        return out
    seen.add(p)
    for m in p.terms:
        for a, e in m:
            _atoms_of_atom(a, deep, seen, out)
    return out


def _atoms_of_atom(a, deep, seen, out):
    if a in out:
        return
    out.add(a)
    if deep:
        for q in _iter_polys(a.args):
            atoms_of(q, deep, seen, out)


# ------------------------------------------------------------------ binders
def bv_depth(p):
    d = 0
    for a in atoms_of(p):
        if a.op == 'bv':
            d = max(d, a.args[0] + 1)
    return d


_BVD = {}


def fresh_bv(polys, n=1):
    d = 0
    for p in polys:
        k = _BVD.get(p)
        if k is None:
            k = _BVD[p] = bv_depth(p)
        d = max(d, k)
    return tuple(atom('bv', (d + i,), ('int', 'nonneg')) for i in range(n))


IX = [atom('ix', (i,), ('int', 'nonneg')) for i in range(4)]
IXP = [ap(a) for a in IX]


def lam1(body, var=None):
    """close body over ix0 -> (bound tuple, body poly)"""
    v = var if var is not None else IX[0]
    b = fresh_bv([body])
    return b, subst(body, {v: ap(b[0])})


# ------------------------------------------------------------------ printing
def show(p, depth=6):
    if not p.terms:
        return '0'
    out = []
    items = sorted(p.terms.items(), key=lambda t: _mkey(t[0]))
    for k, (m, c) in enumerate(items):
        if k > 14:
            out.append('...(%d terms)' % len(items))
            break
        f = []
        for a, e in m:
            s = show_atom(a, depth - 1)
            f.append(s if e == 1 else '%s^%s' % (s, e))
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append('*'.join(f))
        elif c == -1:
            out.append('-' + '*'.join(f))
        else:
            out.append('%s*%s' % (c if c.denominator < 10**6 else float(c), '*'.join(f)))
    return ' + '.join(out).replace('+ -', '- ')


def _sarg(x, depth):
    if isinstance(x, Poly):
        return show(x, depth)
    if isinstance(x, tuple):
        return '(' + ','.join(_sarg(y, depth) for y in x) + ')'
    if isinstance(x, Atom):
        return show_atom(x, depth)
    return str(x)


def show_atom(a, depth=5):
    if depth <= 0:
        return '..'
    if a.op == 'ix':
        return 'ijkl'[a.args[0]]
    if a.op == 'bv':
        return 'k%d' % a.args[0]
    if a.op in ('gt', 'ge', 'eq'):
        return '[%s%s0]' % (show(a.args[0], depth - 1), {'gt': '>', 'ge': '>=', 'eq': '=='}[a.op])
    if a.op == 'pw':
        return '(%s)' % show(a.args[0], depth - 1)
    if a.op == 'in':
        s = a.args[0]
        if len(a.args) > 1:
            s += '[' + ','.join(_sarg(x, depth - 1) for x in a.args[1:]) + ']'
        return s
    if a.op == 'item':
        return '%s.%s' % (_sarg(a.args[0], depth - 1), _sarg(a.args[1], depth - 1))
    if a.op == 'prime':
        return str(a.args[0])
    return '%s(%s)' % (a.op, ', '.join(_sarg(x, depth - 1) for x in a.args))


def deps_of(x):
    """free variables of the terms in a nested tuple"""
    if isinstance(x, Poly):
        return x.deps
    if isinstance(x, (tuple, list)):
        r = frozenset()
        for y in x:
            r |= deps_of(y)
        return r
    return frozenset()
