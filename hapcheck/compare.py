"""Equality of canonical terms: EQ (proved), NE (fully modelled and different), UNK."""
from . import poly as P
from .poly import (Poly, Atom, ZERO, ONE, const, const_val, is_const, ap, add, sub, mul, neg, single_atom, atoms_of, subst,
                   unfold, is_zero, map_atoms, BINDERS, app)
import time
from itertools import permutations

EQ, NE, UNK = 'EQ', 'NE', 'UNK'
NAMED_MAX = 3000
FRAGILE = ('memb', 'posn', 'rec:')


def zero(d):
    """is d zero: as a rational function, and after making conditions strict where the boundary does not matter"""
    if is_zero(d):
        return True
    if len(d.terms) > 300 or not d.inds:
        return False
    hit = False
    for a in sorted((a for a in d.inds if a.op == 'ge' and not P.is_int(a.args[0])), key=lambda a: a.id)[:8]:
        r = P._mk({tuple(x for x in m if x[0] is not a): c for m, c in d.terms.items() if any(x[0] is a for x in m)})
        x = P.solve_lin(a.args[0])
        if x is None:
            continue
        at, val = x
        r0 = map_atoms(r, lambda b: val if b is at else None, {})
        if is_zero(r0):
            d = add(d, mul(sub(P._strict(a), ap(a)), r))
            hit = True
    return hit and is_zero(d)


class Cmp(object):
    def __init__(self, budget=4000):
        self.cache = {}
        self.stack = set()
        self.budget = budget
        self.why = {}
        self.depth = 0
        self.splits = 0
        self.pool = 600000             # total effort for terms with named definitions
        self.flat = False              # named definitions are taken as they are
        self.alias = {}                # definition of the second term's side -> what the first has in its place

    def poly(self, p, q):
        if p is q:
            return EQ
        key = (p, q, self.flat)
        r = self.cache.get(key)
        if r is not None:
            return r
        if key in self.stack:
            return EQ                      # coinductive
        self.stack.add(key)
        try:
            r = self._poly(p, q)
        finally:
            self.stack.discard(key)
        self.cache[key] = r
        return r

    def _poly(self, p, q):
        self.budget -= 1
        if self.budget < 0:
            return UNK
        d = sub(p, q)
        if not d.terms or zero(d):
            return EQ
        if has_def(p) or has_def(q):
            if size(p) + size(q) < 4000:
                p2, q2 = unfold(p), unfold(q)
                if p2 is q2:
                    return EQ
                d2 = sub(p2, q2)
                if not d2.terms or zero(d2):
                    return EQ
                if len(p2.terms) + len(q2.terms) < 3000:
                    p, q, d = p2, q2, d2
        if not self.flat and (P.defs_in(p) or P.defs_in(q)):
            return self.named(p, q)
        return self.plain(p, q)

    # ------------------------------------------------------------ named definitions
    def named(self, p, q):
        """terms that refer to named definitions (poly.adefine)"""
        if self.pool <= 0:
            return UNK
        if self.alias:
            q = P.rename_defs(q, self.alias)
            if p is q:
                return EQ
        self.flat = True
        f = P.fuel(15000)
        try:
            with f:
                r = self.plain(p, q)
        except P.OutOfFuel:
            r = UNK
        finally:
            self.flat = False
            self.pool -= f.used
        if r == EQ:
            return EQ
        return self.below(p, q, 25000)

    def below(self, p, q, n):
        """compare after expanding the names that only one of the two uses, then the shared ones"""
        r = UNK
        self.flat = True
        f = P.fuel(n)
        try:
            with f:
                p, q = self.reduce(p, q)
                if p is None:
                    return EQ
                if q is None:
                    return UNK
                r = self.plain(p, q)
                if r != NE:
                    return r
                for n in sorted(P.defs_in(p) | P.defs_in(q), key=lambda n: size(P.DEFS[n][0])):
                    if size(P.DEFS[n][0]) > 60:
                        break
                    d = sub(P.unfold1(p, {n}), P.unfold1(q, {n}))
                    if not d.terms or zero(d):
                        return EQ
                for k in range(2):
                    ns = P.defs_in(p) | P.defs_in(q)
                    if not ns:
                        break
                    p, q = P.unfold1(p, ns), P.unfold1(q, ns)
                    p, q = self.reduce(p, q)
                    if p is None:
                        return EQ
                    if q is None or size(p) + size(q) > NAMED_MAX:
                        break
                    if self.plain(p, q) == EQ:
                        return EQ
        except P.OutOfFuel:
            pass
        finally:
            self.flat = False
            self.pool -= f.used
        return r

    def reduce(self, p, q):
        """unfold the definitions only one of the two refers to; (None, None) if equal, (p, None) if too big"""
        for k in range(14):
            dp, dq = P.defs_in(p), P.defs_in(q)
            only = dp ^ dq
            if not only:
                return p, q
            lv = max(P.DEFS[n][2] for n in only)
            ns = {n for n in only if P.DEFS[n][2] == lv}
            p, q = P.unfold1(p, ns), P.unfold1(q, ns)
            if p is q:
                return None, None
            d = sub(p, q)
            if not d.terms or zero(d):
                return None, None
            if size(p) + size(q) > NAMED_MAX:
                return p, None
        return p, None

    def plain(self, p, q):
        d = sub(p, q)
        # pair differing atoms
        rep, unk = self.pair(p, q)
        if rep:
            q2 = map_atoms(q, lambda a: rep.get(a), {})
            d = sub(p, q2)
            if not d.terms or zero(d):
                return EQ
            if q2 is not q:
                q = q2
        r = self.split(p, q)
        if r is not None:
            return r
        if unk:
            return UNK
        fa, fb = fragile(p), fragile(q)
        if fa != fb:
            self.why[(p, q)] = 'different vocabulary: %s' % sorted(fa ^ fb)[:4]
            return UNK
        return NE

    def split(self, p, q):
        """case distinction on an indicator that is nested in one of the terms"""
        if self.depth >= 4 or size(p) + size(q) > 6000:
            return None
        big = size(p) + size(q) > 400
        A, B = inner(p), inner(q)
        top = p.inds | q.inds
        cand = [a for a in (A | B) if (a in top or not big and (a not in A or a not in B))
                and not any(v.op in ('ix', 'bv') for v in a.deps)]
        if not cand:
            return None
        self.splits += 1
        if self.splits > 400:
            return UNK
        c = min(cand, key=lambda a: a.id)
        self.depth += 1
        try:
            res = EQ
            for v in (ONE, ZERO):
                mp = {}
                fn = lambda a: v if a is c else None
                r = self.poly(map_atoms(p, fn, mp), map_atoms(q, fn, mp))
                if r == NE:
                    return NE
                if r == UNK:
                    res = UNK
            return res
        finally:
            self.depth -= 1

    def pair(self, p, q):
        """find atoms of q equal (by structure) to atoms of p -> ({atom_q: poly_p}, unknown?)"""
        A = {a for m in p.terms for a, e in m}
        B = {a for m in q.terms for a, e in m}
        onlya = sorted(A - B, key=lambda a: a.id)
        onlyb = sorted(B - A, key=lambda a: a.id)
        rep = {}
        unk = False
        used = set()
        left = []
        for b in onlyb:
            got = []
            for a in sorted((a for a in onlya if a.op == b.op), key=lambda a: fragile(ap(a)) != fragile(ap(b))):
                if a in used:
                    continue
                r = self.atoms(a, b)
                if r == EQ:
                    rep[b] = ap(a)
                    used.add(a)
                    break
                got.append((a, r))
            else:
                left.append((b, got))
        # an undecided pairing only counts when it is a natural partner (same vocabulary), or when there is none
        for b, got in left:
            got = [(a, r) for a, r in got if a not in used]
            nat = [r for a, r in got if fragile(ap(a)) == fragile(ap(b))]
            if UNK in (nat or [r for a, r in got]):
                unk = True
        return rep, unk

    def atoms(self, a, b):
        if a is b:
            return EQ
        if a.op != b.op or len(a.args) != len(b.args):
            return NE
        if a.op == 'eta':
            return self.eta(a, b)
        if a.op in BINDERS:
            if len(a.args[0]) != len(b.args[0]):
                return NE
            mp = {y: ap(x) for x, y in zip(a.args[0], b.args[0]) if x is not y}
            return self.args(a.args[1:], tuple(sarg(x, mp) for x in b.args[1:]) if mp else b.args[1:])
        return self.args(a.args, b.args)

    def args(self, x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return self.poly(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return NE
            res = EQ
            for u, v in zip(x, y):
                r = self.args(u, v)
                if r == NE:
                    return NE
                if r == UNK:
                    res = UNK
            return res
        return EQ if x == y else NE

    def eta(self, a, b):
        """loops: pair the carried slots, then compare next values coinductively"""
        bda, na, ha, sa = a.args[:4]
        bdb, nb, hb, sb = b.args[:4]
        if self.args(a.args[4:], b.args[4:]) == NE:
            return NE
        slots_a = {s[0]: s for s in sa}
        slots_b = {s[0]: s for s in sb}
        if len(sa) != len(sb) or bda[0] is not bdb[0]:
            return UNK
        key = (a.args[:4], b.args[:4])
        mua = mu_of(bda)
        mub = mu_of(bdb)
        A = [s for s in slots_a if s != 't']
        B = [s for s in slots_b if s != 't']
        if len(A) != len(B) or len(A) > 6:
            return UNK
        best = UNK
        tried = 0
        inits_ok = False
        for perm in permutations(B):
            m = dict(zip(A, perm))
            if na in m and m[na] != nb:
                continue
            if any(slots_a[x][1] != slots_b[m[x]][1] for x in A):
                continue
            if any(self.args(slots_a[x][2], slots_b[m[x]][2]) != EQ for x in A):
                continue
            inits_ok = True
            tried += 1
            if tried > 24:
                return UNK
            mp = {mub[m[x]]: ap(mua[x]) for x in A if x in mua and m[x] in mub and mua[x] is not mub[m[x]]}
            res = self.args(ha, sarg(hb, mp))
            names = A + (['t'] if 't' in slots_a else [])
            for x in names:
                if res == NE:
                    break
                y = m.get(x, x)
                if y not in slots_b:
                    res = NE
                    break
                r = self.args(slots_a[x][3], sarg(slots_b[y][3], mp))
                if r != EQ:
                    res = r if res == EQ or r == NE else res
            if res == EQ:
                return EQ
            if res == NE and best == UNK:
                best = NE
        if not inits_ok:
            # different initial values for the same shape of loop
            if len(A) == 1 and slots_a[A[0]][1] == slots_b[B[0]][1]:
                mp = {mub[B[0]]: ap(mua[A[0]])} if A[0] in mua and B[0] in mub else {}
                r = self.args(slots_a[A[0]][3], sarg(slots_b[B[0]][3], mp))
                if r == EQ and self.args(ha, sarg(hb, mp)) == EQ:
                    return NE
            # same names, same nexts, inits differ: definite
            if set(A) == set(B):
                rs = [self.args(slots_a[x][3], slots_b[x][3]) for x in A]
                ri = [self.args(slots_a[x][2], slots_b[x][2]) for x in A]
                if all(r == EQ for r in rs) and NE in ri and UNK not in ri:
                    return NE
            return UNK
        return best


def mu_of(bd):
    return {b.args[1]: b for b in bd if b.op == 'mu'}


def sarg(x, mp):
    if not mp:
        return x
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(sarg(y, mp) for y in x)
    return x


_DEF = {}


def has_def(p):
    r = _DEF.get(p)
    if r is None:
        r = _DEF[p] = any(a.op == 'def' for a in atoms_of(p))
    return r


_SZ = {}


def size(p):
    r = _SZ.get(p)
    if r is None:
        seen, out = set(), set()
        atoms_of(p, True, seen, out)
        r = _SZ[p] = sum(len(x.terms) for x in seen)
    return r


_INN = {}


def inner(p):
    """indicator atoms nested inside other atoms of p"""
    r = _INN.get(p)
    if r is None:
        s = set()
        for m in p.terms:
            for a, e in m:
                if not a._isb:
                    for q in P._iter_polys(a.args):
                        s |= {x for x in atoms_of(q) if x._isb}
        r = _INN[p] = frozenset(s)
    return r


_FR = {}


def fragile(p):
    """names of constructs in p that are not given meaning by the analysis"""
    r = _FR.get(p)
    if r is None:
        s = set()
        for a in open_atoms(p):
            if a.op.startswith('ext:'):
                s.add(a.op)
            elif a.op == 'eta' and a.args[1] == 't':
                s.add('eta:t')
            elif a.op in ('memb', 'posn', 'undefvar', 'truth', 'oob', 'eta', 'extname', 'uninit', 'pwo', 'cpow', 'even'):
                s.add(a.op)
        r = _FR[p] = frozenset(s)
    return r


def fragile_op(a):
    return a.op.startswith('ext:') or a.op in ('memb', 'posn', 'undefvar', 'truth', 'oob', 'eta', 'extname', 'uninit', 'pwo',
                                               'cpow', 'even')


def open_atoms(p):
    """atoms of p, not looking into the arguments of summarised calls (they are compared as such)"""
    seen, out, todo = set(), set(), [p]
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        for m in q.terms:
            for a, e in m:
                if a not in out:
                    out.add(a)
                    if not a.op.startswith('res:') and a.op != 'col':
                        todo.extend(P._iter_polys(a.args))
    return out


def signature(p):
    return {(abs(c), tuple(sorted((a.op, str(e)) for a, e in m))) for m, c in p.terms.items()}


class Stop(BaseException):
    """a definition of the code has no equal in the model"""

    def __init__(self, name):
        BaseException.__init__(self, name)
        self.name = name


class Matcher(object):
    """pairs the definitions the code makes with those of the model while the code is being abstracted

    A definition that equals one of the model takes its name; one that does not keeps its own, or, with stop, ends the run.
    `given` holds pairs decided before.
    """

    def __init__(self, known, given=(), alias=(), stop=False, limit=40, maxfail=12):
        self.alias = dict(alias)       # definition of the model -> what the code has in its place
        self.known = dict(known)       # name -> order of creation
        self.by = {}
        for n in self.known:
            b, ds, lv = P.DEFS[n]
            self.by.setdefault((ds, P.DEFFL.get(n, ())), []).append(n)
        self.map = dict(given)
        self.inline = {n for n, m in self.map.items() if m is None and stop and self.small(n)}
        self.used = set()              # names of the code met so far
        self.seen = set()
        self.fails = 0
        self.left = limit
        self.maxfail = maxfail
        self.stop = stop
        self.pos = 0
        self.cmp = Cmp(20000)

    def __call__(self, r):
        a = single_atom(r)
        n = a.args[0]
        self.used.add(n)
        k = self.known.get(n)
        if k is not None:
            self.pos = k
            self.seen.add(n)
            return r
        if n in self.map:
            m = self.map[n]
            if m is None and n in self.inline:
                self.used.discard(n)
                return P.unfold1(r, {n})
        elif self.fails > self.maxfail or self.left <= 0:
            m = None
        else:
            t0 = time.time()
            m = self.find(n)
            if m is None and self.stop:
                raise Stop(n)
            self.map[n] = m
            self.left -= time.time() - t0
            if m is None:
                self.fails += 1
        if m is None:
            return r
        flip = m[0] == '-'
        m = m.lstrip('-')
        self.seen.add(m)
        self.pos = max(self.pos, self.known[m])
        r = ap(P.atom('rdd', (m,) + a.args[1:], P.DEFFL.get(m, ())))
        return P.neg(r) if flip else r

    @staticmethod
    def small(n):
        return len(P.DEFS[n][0].terms) <= 60

    def rank(self, n):
        """definitions of the model by similarity"""
        body, ds, lv = P.DEFS[n]
        mine = atoms_of(body)
        ms = signature(body)
        l = []
        for b in self.by.get((ds, P.DEFFL.get(n, ())), ()):
            bb = P.DEFS[b][0]
            th, ts = atoms_of(bb), signature(bb)
            dist = abs(self.known[b] - self.pos - 1)
            l.append((len(mine & th) / float(len(mine | th)) + 0.5 * len(ms & ts) / float(len(ms | ts)) - 0.03 * min(dist, 20),
                      -dist, b))
        l.sort(reverse=True)
        return [b for s, o, b in l]

    def rank2(self, n):
        """definitions of the model that come to the same leaves"""
        body, ds, lv = P.DEFS[n]
        use = P.defs_in(body)
        mine = self.leaves(body, ())
        l = []
        for b in self.by.get((ds, P.DEFFL.get(n, ())), ()):
            if abs(self.known[b] - self.pos - 1) > 60:
                continue
            th = self.leaves(P.DEFS[b][0], P.defs_in(P.DEFS[b][0]) - use)
            l.append((len(mine & th) / float(len(mine | th)), self.known[b], b))
        l.sort(reverse=True)
        return [b for s, k, b in l]

    @staticmethod
    def leaves(p, expand):
        out = set()
        todo = [p]
        seen = set()
        while todo:
            q = todo.pop()
            for m in q.terms:
                for a, e in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    if a.op in ('gt', 'ge', 'eq'):
                        todo.append(a.args[0])
                    elif a.op == 'rdd':
                        if a.args[0] in expand:
                            todo.append(P.DEFS[a.args[0]][0])
                        else:
                            out.add(a.args[0])
                    else:
                        out.add(a)
        return out

    def body(self, b):
        """body of a definition of the model in terms of what the code has"""
        x = P.DEFS[b][0]
        return P.rename_defs(x, self.alias) if self.alias else x

    def find(self, n):
        body = P.DEFS[n][0]
        bs = self.rank(n)[:3]
        bs += [b for b in self.rank2(n)[:3] if b not in bs]
        for b in bs:
            if self.cmp.below(body, self.body(b), 8000) == EQ:
                return b
        for b in bs:
            if self.cmp.below(P.neg(body), self.body(b), 8000) == EQ:
                return '-' + b         # the same but for the sign
        return None

    def unify(self, n):
        """(m, {x: y}): definition n equals m of the model if the code has y where the model has x"""
        body = P.DEFS[n][0]
        mine = P.defs_in(body)
        for b in self.rank(n)[:4]:
            q = self.body(b)
            mp = {}
            for x in P.defs_in(q) - mine:      # the value before it was changed
                for y in self.inputs(body, q, x):
                    if next(iter(P.DEFS[y][0].terms)) in P.DEFS[x][0].terms:
                        mp[x] = y
            if len(mp) > 1:
                q2 = P.rename_defs(q, mp)
                if q2 is body or self.cmp.below(body, q2, 4000) == EQ:
                    return b, mp
            xs = sorted(P.defs_in(q) - mine, key=lambda x: -self.known.get(x, 0))[:3]
            for x in xs:
                ys = [y for y in mine if P.DEFS[y][1] == P.DEFS[x][1] and y != x]
                ys.sort(key=lambda y: (y not in P.closure(P.DEFS[x][0]), -P.DEFS[y][2]))
                for y in ys[:4]:
                    q2 = P.rename_defs(q, {x: y})
                    if q2 is body or self.cmp.below(body, q2, 4000) == EQ:
                        return b, {x: y}
                for y in self.inputs(body, q, x):
                    q2 = P.rename_defs(q, {x: y})
                    if q2 is body or self.cmp.below(body, q2, 4000) == EQ:
                        return b, {x: y}
        return None

    @staticmethod
    def inputs(p, q, x):
        """reads of inputs in p that could stand where q has the definition x"""
        ds = P.DEFS[x][1]
        rds = [a for a in atoms_of(p) - atoms_of(q) if a.op == 'rd']
        occ = [a for a in atoms_of(q) if a.op == 'rdd' and a.args[0] == x]
        out = []
        for a in rds[:6]:
            for o in occ[:3]:
                mp = {e: ap(d) for e, d in zip(o.args[1:], ds)}
                t = ap(P.atom('rd', tuple(mp.get(e, e) if isinstance(e, Poly) else e for e in a.args), a.flags))
                if all(d.op == 'ix' for d in t.deps) and not t.deps - set(ds):
                    n = P.template(t, ds)
                    if n not in out:
                        out.append(n)
        return out

    def candidates(self, n):
        """the counterparts to try for a definition without an equal"""
        l = self.rank(n)
        inner = [b for b in sorted(P.defs_in(P.DEFS[n][0]), key=lambda x: -self.known.get(x, 0)) if b in l]
        new = [b for b in l if b not in self.seen]
        out = []
        for b in new[:4] + inner[:3] + new[4:6] + l[:2]:
            if b not in out:
                out.append(b)
        return out[:8]


def origin(p, facts):
    """what p comes to on the way through its conditions that `facts` describes (and extends)"""
    for k in range(400):
        if p.inds:
            a = next((a for a in p.inds if a in facts), None)
            if a is None:
                a = min(p.inds, key=lambda a: a.id)
                facts[a] = 0
            p = P.assign(p, a, facts[a])
            continue
        n = next((m[0][0].args[0] for m in p.terms if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'rdd'), None)
        if n is None:
            break
        top = [m for m in p.terms if len(m) == 1 and m[0][0].op == 'rdd' and m[0][0].args[0] == n]
        r = {m: c for m, c in p.terms.items() if m not in top}
        q = P._mk(r) if r else ZERO
        for m in top:
            q = add(q, P.scale(P.unfold1(ap(m[0][0]), {n}), p.terms[m]))
        p = q
        if len(p.terms) > 400:
            break
    return p


def apart(a, b):
    """is there a way through the conditions on which a and b start from different inputs"""
    try:
        with P.fuel(20000):
            facts = {}
            L = [{(m[0][0], c) for m, c in origin(x, facts).terms.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'rd'
                  and not any(isinstance(y, Poly) and not is_const(y) and not (single_atom(y) is not None and single_atom(y).op == 'ix')
                              for y in m[0][0].args[1:])} for x in (a, b)]
    except P.OutOfFuel:
        return False
    return L[0] != L[1]


class Align(object):
    """pairing of all definitions, where the ones that differ are paired so that the rest fits best"""

    def __init__(self, run, known, limit=200, maxroots=40):
        self.roots = []                # (name in the code, name in the model, verdict)
        self.res = None
        self.complete = False
        given, self.alias = {}, {}
        end = time.time() + limit
        while True:
            mt = Matcher(known, given, self.alias, stop=len(self.roots) < maxroots and time.time() < end)
            try:
                self.res = run(mt)
                self.match = mt
                self.complete = mt.stop
                return
            except Stop as e:
                c = e.name
            here = len(mt.used)
            best = None

            def tried(m, alias):
                m2 = Matcher(known, dict(mt.map, **{c: m}), alias, stop=True)
                try:
                    run(m2)
                    return 1 << 30, m2
                except Stop:
                    return len(m2.used), m2
            for kind in 'none', 'unify', 'pair':
                opts = [(None, None)]              # a definition of its own: its users show the body
                if kind == 'unify':
                    u = mt.unify(c)
                    opts = [(u[0], u)] if u else []
                elif kind == 'pair':
                    opts = [(m, None) for m in mt.candidates(c)]
                for m, u in opts:
                    if time.time() > end and best:
                        break
                    prog, m2 = tried(m, dict(self.alias, **u[1]) if u else self.alias)
                    if best is None or prog > best[0]:
                        best = prog, m, m2, u
                    if prog > here + 25:
                        break
                if best[0] > here + 25:
                    break
            given = best[2].map
            self.alias = best[2].alias
            m, u = best[1], best[3]
            if u:
                for x, y in u[1].items():
                    self.root(y, x)
            elif m is not None:
                self.root(c, m)

    def root(self, c, m):
        b1, b2 = P.DEFS[c][0], P.DEFS[m][0]
        v = NE if c in P.closure(b2) or m in P.closure(b1) else Cmp(20000).below(b1, b2, 30000)
        if v == UNK and c[0] == 't' and len(sub(b2, b1).terms) == 1:
            v = NE                     # the change that is missing is one product
        if v == UNK:
            v = self.differ(b1, b2, 6)
        self.roots.append((c, m, v))

    def differ(self, p, q, depth):
        """NE when the two are the same function of one definition each, and these two differ"""
        if depth == 0:
            return UNK
        X, Y = P.defs_in(p) - P.defs_in(q), P.defs_in(q) - P.defs_in(p)
        if len(X) != 1 or len(Y) != 1:
            return UNK
        (x,), (y,) = X, Y
        if len(P.DEFS[x][1]) != len(P.DEFS[y][1]):
            return UNK
        try:
            with P.fuel(20000):
                q2 = P.rename_defs(q, {y: x})
                if q2 is not p and Cmp(20000).plain(p, q2) != EQ:
                    return UNK
        except P.OutOfFuel:
            return UNK
        if x in P.closure(P.DEFS[y][0]) or y in P.closure(P.DEFS[x][0]):
            return NE                  # one is made from the other
        a, b = P.DEFS[x][0], P.DEFS[y][0]
        v = Cmp(20000).below(a, b, 20000)
        if v == UNK and apart(a, b):
            v = NE
        return self.differ(a, b, depth - 1) if v == UNK else v

    def live(self, sinks):
        """model names of the roots whose difference is not absorbed by every definition that uses them"""
        out = set()
        names = set()
        cmp = Cmp(20000)
        for p in sinks:
            names |= P.closure(p)
        for a, b, v in self.roots:
            if b not in names:
                continue
            ba, ds, lv = P.DEFS[a]
            bb = P.DEFS[b][0]
            if a in P.closure(bb) or b in P.closure(ba):
                out.add(b)             # one is made from the other
                continue
            users = [P.DEFS[n][0] for n in names if b in P.defs_in(P.DEFS[n][0])] + [p for p in sinks if b in P.defs_in(p)]
            for u in users:
                try:
                    with P.fuel(40000):
                        x = P.unfold1(P.rename_defs(u, {b: a}), {a})
                        y = P.unfold1(u, {b})
                        cmp.flat = True
                        r = EQ if x is y else cmp.plain(x, y)
                except P.OutOfFuel:
                    r = UNK
                finally:
                    cmp.flat = False
                if r != EQ:
                    out.add(b)
                    break
        return out
