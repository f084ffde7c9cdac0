"""Analyse a function of the repository and its reference model side by side.

Both are abstracted by the same interpreter with the same declared argument
types; every sink (returned value, final content of each argument, assertion,
raise, external effect, call of a summarised package function) of the two is
then compared in normal form.
"""
import os
import ast
from . import poly as P
from .poly import (Poly, ZERO, ONE, IX, IXP, ap, atom, const, const_val, is_const, sub, b_and, b_not, b_or, subst, assign,
                   indicator, ge, gt, show, is_zero)
from .values import *
from . import values as V
from .interp import Interp, Package, St, typed, AnalysisError, SeqG
from .compare import Cmp, EQ, NE, UNK, fragile, open_atoms, fragile_op

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HAPCHECK_REPO', '/repo')
_pk = {}


def package(root, name):
    k = (root, name)
    if k not in _pk:
        _pk[k] = Package(root, name, ('preprocessing/WaveDataFromSwanOutput.py', 'RunHapuaMod.py') if root == REPO else ())
    return _pk[k]


def code():
    return package(REPO, 'hapuamod')


def model():
    return package(HERE, 'model')


class Res(object):
    pass


def resolve(pkg, fn):
    mod, name = fn.split('.', 1)
    m = pkg.mods.get(mod)
    if m is None or name not in m.defs:
        for m2 in pkg.mods.values():           # moved to another module
            if name in m2.defs:
                return m2, name
    if m is None:
        raise AnalysisError('module %s is missing' % mod)
    return m, name


def run_fn(pkg, fn, types, opaque=(), init=None, names=None, cfg=None):
    m, name = resolve(pkg, fn)
    I = Interp(pkg, opaque, cfg)
    f = I.mod_global(m, name)
    if f is None or not isinstance(f, V.Fn):
        raise AnalysisError('function %s is missing' % fn)
    S = St({}, {}, ())
    ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    if names is None:
        names = ps
    if len(ps) < len(names):
        raise AnalysisError('%s takes %d parameters, %d expected' % (fn, len(ps), len(names)))
    args = []
    made = {}
    for nm in names:
        t = types.get(nm, 'num')
        if isinstance(t, tuple) and t[0] == 'const':
            v = t[1]
        else:
            v = I.bindable(S, typed(t, ap(atom('in', (nm,)))))
        args.append(v)
        made[nm] = v
    if init:
        init(I, S, made)
    r = Res()
    # parameters are matched by name where the names agree, otherwise by position
    if set(names) <= set(ps):
        kw = {n: a for n, a in zip(names, args)}
        r.ret = I.call_fn(S, f, [], kw)
    else:
        r.ret = I.call_fn(S, f, args, {})
    r.I, r.S, r.args, r.names, r.fn, r.f = I, S, args, names, fn, f
    r.dead = S.dead
    return r


def bound_assume(p, dims, skip):
    for k, d in enumerate(dims):
        if k in skip:
            continue
        for c in (gt(sub(d, IXP[k])), ge(sub(d, IXP[k]))):
            ind = indicator(c)
            if ind and ind[0] in p.inds:
                p = assign(p, ind[0], 1 if ind[1] else 0)
    return p


class Side(object):
    def __init__(self, a, b):
        self.a, self.b = a, b          # code, model
        self.cmp = Cmp()
        self.record = None
        self.out = []                  # (path, verdict, detail)

    def put(self, path, v, p=None, q=None, note=''):
        self.out.append((path, v, p, q, note))
        if self.record:
            self.record(path, v, p, q, note)

    def pp(self, path, p, q):
        r = self.cmp.poly(p, q)
        note = ''
        if r == UNK:
            note = self.cmp.why.get((p, q), '')
            if self.lost(p, q):
                r, note = NE, 'a value the code has at hand is missing'
        self.put(path, r, p, q, note)
        return r

    def val(self, path, x, y, depth=0):
        A, B = self.a, self.b
        x = A.I.content(A.S, x)
        y = B.I.content(B.S, y)
        if isinstance(x, Gv) or isinstance(y, Gv):
            if isinstance(x, Gv) and isinstance(y, Gv):
                r = self.cmp.poly(x.c, y.c)
                if r == EQ:
                    self.val(path + '[if]', x.a, y.a, depth + 1)
                    self.val(path + '[else]', x.b, y.b, depth + 1)
                    return
                if self.cmp.poly(x.c, b_not(y.c)) == EQ:
                    self.val(path + '[if]', x.a, y.b, depth + 1)
                    self.val(path + '[else]', x.b, y.a, depth + 1)
                    return
                if depth < 6 and r == NE:
                    self.put(path + '[cond]', NE, x.c, y.c)
                    return
            ex, ey = A.I.enc(A.S, x), B.I.enc(B.S, y)
            self.enc(path, ex, ey)
            return
        if isinstance(x, Sc) or isinstance(y, Sc) or isinstance(x, Poly) or isinstance(y, Poly):
            if isinstance(x, (Sc, Poly, K)) and isinstance(y, (Sc, Poly, K)):
                px = x if isinstance(x, Poly) else A.I.arr(A.S, x)
                py = y if isinstance(y, Poly) else B.I.arr(B.S, y)
                self.pp(path, px, py)
                return
            self.mismatch(path, x, y)
            return
        if isinstance(x, K) and isinstance(y, K):
            self.put(path, EQ if x.v == y.v else NE, None, None, '%r / %r' % (x.v, y.v))
            return
        if isinstance(x, Ar) and isinstance(y, Ar):
            if x.nd != y.nd:
                self.put(path + '.ndim', NE, None, None, '%d / %d axes' % (x.nd, y.nd))
                return
            for k in range(x.nd):
                if x.dims[k] is not y.dims[k]:
                    r = self.pp('%s.shape[%d]' % (path, k), x.dims[k], y.dims[k])
                    if r != EQ:
                        return
            en = tuple(k for k in x.enum if k in y.enum)
            if x.enum != y.enum:
                x, y = V.unenum(x), V.unenum(y)
            for key in sorted(y.el):
                p, q = x.el[key], y.el[key]
                p = bound_assume(p, y.dims, y.enum)
                q = bound_assume(q, y.dims, y.enum)
                nm = path
                if key:
                    ix = ['*'] * y.nd
                    for k, e in zip(y.enum, key):
                        ix[k] = str(e)
                    nm += '[' + ','.join(ix) + ']'
                self.pp(nm, p, q)
            return
        if isinstance(x, (Ar, LstC)) and isinstance(y, (Ar, LstC)):
            # list against array: compare as sequences
            ax, ay = A.I.arr(A.S, x), B.I.arr(B.S, y)
            if isinstance(ax, Ar) and isinstance(ay, Ar):
                self.val(path, ax, ay, depth + 1)
                return
            self.mismatch(path, x, y)
            return
        if isinstance(x, (Tup, LstC)) and isinstance(y, (Tup, LstC)):
            if len(x.items) != len(y.items):
                self.put(path + '.len', NE, None, None, '%d / %d items' % (len(x.items), len(y.items)))
                return
            for i, (u, v) in enumerate(zip(x.items, y.items)):
                self.val('%s[%d]' % (path, i), u, v, depth + 1)
            return
        if isinstance(x, DctC) and isinstance(y, DctC):
            if (x.base is None) != (y.base is None):
                self.put(path, UNK)
                return
            if x.base is not None and x.base is not y.base:
                self.pp(path + '.base', x.base, y.base)
            for k in sorted(set(x.items) | set(y.items), key=repr):
                if k in x.items and k in y.items:
                    self.val('%s[%r]' % (path, k), x.items[k], y.items[k], depth + 1)
                else:
                    d, oth = (x, A) if k in x.items else (y, B)
                    if k in (y.removed if k in x.items else x.removed) or (y if k in x.items else x).base is None:
                        self.put('%s[%r]' % (path, k), NE, None, None,
                                 'entry %s' % ('not expected' if k in x.items else 'missing'))
                    else:
                        base = (y if k in x.items else x).base
                        v = d.items[k]
                        e = oth.I.enc(oth.S, v)
                        q = oth.I.item_poly(base, k)
                        qq = q.p if isinstance(q, Sc) else q
                        if isinstance(e, Poly) and isinstance(qq, Poly):
                            self.pp('%s[%r]' % (path, k), e if k in x.items else qq, qq if k in x.items else e)
                        else:
                            e2 = self.lam_read(oth, v, qq)
                            self.put('%s[%r]' % (path, k), e2, None, None,
                                     'entry %s' % ('changed' if k in x.items else 'not changed'))
            return
        if isinstance(x, ObjC) and isinstance(y, ObjC):
            self.pp(path, x.p, y.p)
            for k in sorted(set(x.attrs) & set(y.attrs)):
                self.val(path + '.' + k, x.attrs[k], y.attrs[k], depth + 1)
            return
        if isinstance(x, SeqG) and isinstance(y, SeqG):
            self.enc(path, x.enc(A.I, A.S), y.enc(B.I, B.S))
            return
        if isinstance(x, Undef) and isinstance(y, Undef):
            self.put(path, EQ)
            return
        self.mismatch(path, x, y)

    def lam_read(self, side, v, q):
        """is v the unchanged content of entry q?"""
        c = side.I.content(side.S, v)
        if isinstance(c, Ar):
            return UNK if fragile(q) else (EQ if all(
                p is app_rd(q, c, key) for key, p in c.el.items()) else NE)
        return UNK

    def aliases(self):
        """which arguments share storage with what is returned"""
        def of(r):
            v = r.ret
            if isinstance(v, Ref):
                c = r.I.content(r.S, v)
                items = c.items if isinstance(c, LstC) else [v]
            else:
                items = v.items if isinstance(v, Tup) else [v]
            out = []
            for x in items:
                own = set()
                if isinstance(x, Ref):
                    for nm, a in zip(r.names, r.args):
                        if isinstance(a, Ref) and a.cell == x.cell:
                            own.add(nm)
                out.append(own)
            return out
        A, B = of(self.a), of(self.b)
        if len(A) != len(B):
            return
        for i, (x, y) in enumerate(zip(A, B)):
            self.put('storage of result[%d]' % i, EQ if x <= y else NE, None, None,
                     'shares storage with %s' % ', '.join(sorted(x - y)) if x - y else '')

    def mismatch(self, path, x, y):
        A, B = self.a, self.b
        try:
            ex, ey = A.I.enc(A.S, x), B.I.enc(B.S, y)
        except Exception as e:
            self.put(path, UNK, None, None, 'kinds %s/%s' % (type(x).__name__, type(y).__name__))
            return
        r = self.cmp.args(ex, ey)
        if r == NE and (frag(ex) != frag(ey)):
            r = UNK
        self.put(path, r, ex if isinstance(ex, Poly) else None, ey if isinstance(ey, Poly) else None,
                 'kinds %s/%s' % (type(x).__name__, type(y).__name__))

    def enc(self, path, ex, ey):
        if isinstance(ex, Poly) and isinstance(ey, Poly):
            self.pp(path, ex, ey)
            return
        r = self.cmp.args(ex, ey)
        if r == NE and frag(ex) != frag(ey):
            r = UNK
        self.put(path, r)

    # ---------------------------------------------------------------- loops
    def align(self, kinds):
        """pair the loops that contain events of the given kinds; compare what they carry between iterations"""
        ra = [r for r in self.a.I.looprecs if any(e.kind in kinds for e in r.evs)]
        rb = [r for r in self.b.I.looprecs if any(e.kind in kinds for e in r.evs)]
        self.loose = set()
        if not rb and not ra:
            return
        if [r.depth for r in ra] != [r.depth for r in rb]:
            self.put('loops around effects', UNK, None, None, '%d / %d loops' % (len(ra), len(rb)))
            for r in ra + rb:
                self.loose |= {id(e) for e in r.evs}
            return
        for x, y in reversed(list(zip(ra, rb))):
            self.align_loop(x, y, kinds)

    def align_loop(self, x, y, kinds):
        where = 'loop at %s' % (('%s:%d' % (x.mod.name, getattr(x.node, 'lineno', 0))) if x.mod else '?')
        name = 'loop %s' % (y.mod.name if y.mod else '')
        B = {s[0]: s for s in y.slots}
        seen = set()
        todo = [P.deps_of(e.args) | P.deps_of(e.pc) for e in y.evs if e.kind in kinds]
        todo += [P.deps_of((y.cond, y.stop))]
        need = []
        while todo:
            for d in todo.pop():
                if d in B and d not in seen:
                    seen.add(d)
                    need.append(d)
                    todo.append(P.deps_of((B[d][4],)))
        need.sort(key=lambda d: d.args[1])
        A = {s[0]: s for s in x.slots}
        m = {}
        byname = {}
        for s in x.slots:
            byname.setdefault(s[1], []).append(s)
        for d in need:
            c = byname.get(B[d][1], [])
            if len(c) == 1 and c[0][2] == B[d][2]:
                m[d] = c[0][0]
        left = [d for d in need if d not in m]
        free = [a for a in A if a not in m.values()]
        if left:
            from itertools import permutations, islice
            best = None
            cand = [[a for a in free if A[a][2] == B[d][2] and self.cmp.args(A[a][3], B[d][3]) == EQ] for d in left]
            if all(cand):
                for perm in islice(permutations(free, len(left)), 5000):
                    if not all(a in c for a, c in zip(perm, cand)):
                        continue
                    m2 = dict(m)
                    m2.update(zip(left, perm))
                    mp = {a: ap(d) for d, a in m2.items()}
                    n = sum(self.cmp.args(sub_t(A[a][4], mp), B[d][4]) == EQ for d, a in m2.items())
                    if best is None or n > best[0]:
                        best = (n, m2)
            if best:
                m = best[1]
            else:
                for d, c in zip(left, cand):
                    c = [a for a in c if a not in m.values()]
                    if c:
                        m[d] = c[0]
        free = [a for a in A if a not in m.values()]
        mp = {a: ap(d) for d, a in m.items()}
        for i, a in enumerate(free):
            mp[a] = ap(P.atom('mu', (a.args[0], 'x%d' % i) + a.args[2:], a.flags))
        unmatched = [d for d in need if d not in m]
        for e in x.evs:
            e.pc = tuple(sub_t(p, mp) for p in e.pc)
            e.args = sub_t(tuple(e.args), mp)
        for r in self.a.I.looprecs:
            if r is not x and r.depth > x.depth and {id(e) for e in r.evs} <= {id(e) for e in x.evs}:
                r.N, r.cond, r.stop = sub_t((r.N, r.cond, r.stop), mp)
                r.slots = [s[:3] + [sub_t(s[3], mp), sub_t(s[4], mp)] for s in r.slots]
        for d in unmatched:
            self.put('%s: %s' % (name, B[d][1]), UNK if free else NE, None, None,
                     '%s is not carried from one iteration to the next (%s)' % (B[d][1], where))
        fuzzy = bool(unmatched)
        for d in need:
            if d not in m:
                continue
            a = A[m[d]]
            nm = B[d][1]
            self.cmpv('%s: initial %s' % (name, nm), a[3], B[d][3], where, fuzzy)
            self.cmpv('%s: next %s' % (name, nm), sub_t(a[4], mp), B[d][4], where, fuzzy)
        if (x.N is None) != (y.N is None):
            self.put('%s: iterations' % name, UNK, None, None, where)
        elif x.N is not None:
            self.cmpv('%s: iterations' % name, sub_t(x.N, mp), y.N, where, fuzzy)
        self.cmpv('%s: continues while' % name, sub_t(x.cond, mp), y.cond, where, fuzzy)
        self.cmpv('%s: left when' % name, sub_t(x.stop, mp), y.stop, where, fuzzy)
        if fuzzy:
            self.loose |= {id(e) for e in x.evs} | {id(e) for e in y.evs}

    def cmpv(self, path, u, v, note='', fuzzy=False):
        if u is v or u == v:
            self.put(path, EQ)
            return
        r = self.cmp.args(u, v)
        if r == NE and (fuzzy or frag(u) != frag(v)):
            r = UNK
        self.put(path, r, u if isinstance(u, Poly) else None, v if isinstance(v, Poly) else None, note)

    # ---------------------------------------------------------------- events
    def obligations(self, kind='assert'):
        """every check of the model is made by the code (a stronger one will do)"""
        mine = [e for e in self.a.I.events if e.kind == kind]
        ref = [e for e in self.b.I.events if e.kind == kind]
        va = [viol(e) for e in mine]
        allv = None
        for i, e in enumerate(ref):
            q = viol(e)
            best = EQ if any(p is q for p in va) else NE
            note = ''
            for p in va:
                if best == EQ:
                    break
                r = self.cmp.poly(p, q)
                if r == EQ:
                    best = EQ
                    break
                if r == UNK:
                    best = UNK
            if best != EQ:
                for p in va:
                    t = b_and(q, b_not(p))
                    if not t.terms or is_zero(t):
                        best = EQ
                        break
            if best != EQ and len(va) <= 40:
                if allv is None:
                    allv = ZERO
                    for p in va:
                        allv = b_or(allv, p)
                t = b_and(q, b_not(allv))
                if not t.terms or is_zero(t):
                    best = EQ
            if best == NE and frag_set(q) - set().union(set(), *[frag_set(p) for p in va]):
                best = UNK
            self.stage = e.stage
            self.put('%s#%d %s' % (kind, i + 1, label(e)), best, None, q, note)
            self.stage = None

    def raises(self):
        p, q = ZERO, ZERO
        for e in self.a.I.events:
            if e.kind == 'raise':
                p = b_or(p, pcond(e))
        for e in self.b.I.events:
            if e.kind == 'raise':
                q = b_or(q, pcond(e))
        self.pp('raise condition', p, q)

    def at_hand(self, x, e):
        """the code's effect x lacks constructs without meaning that the specified e has, but the code uses the very
        same values elsewhere: their absence in x is a difference, not another way of writing them"""
        return self.lost(x.args, e.args)

    def lost(self, x, e):
        if not frag(x) <= frag(e) or any(P.defs_in(p) for p in polys(x) + polys(e)):
            return False
        if getattr(self, 'known_atoms', None) is None:
            self.known_atoms = set()
            for v in self.a.I.events:
                if v.kind in ('pkgcall', 'call', 'assert', 'setitem', 'setattr'):
                    self.known_atoms |= opens(v.args)
        here, want = opens(x), opens(e)
        return here < want and want <= self.known_atoms and all(a.op.startswith('ext:') for a in want - here)

    def effects(self, kinds=('call', 'setitem', 'setattr', 'delitem', 'pkgcall'), only=None, ordered=False, extra=True):
        """the same external effects happen under the same conditions"""
        self.align(kinds)
        loose = self.loose
        ma = [e for e in self.a.I.events if e.kind in kinds and (only is None or only(e))]
        mb = [e for e in self.b.I.events if e.kind in kinds and (only is None or only(e))]
        left = list(ma)
        unk_any = False
        missing = []
        pos = []
        for e in mb:
            hit = None
            unk = False
            for x in left:
                if x.kind != e.kind:
                    continue
                r = self.ev(x, e)
                if r == EQ:
                    hit = x
                    break
                if r == UNK and not self.at_hand(x, e):
                    unk = True
            if hit is not None:
                left.remove(hit)
                pos.append(hit.seq)
                self.put('effect %s' % label(e), EQ)
            else:
                missing.append((e, unk))
        # same effect split over several conditions: compare the union of conditions
        groups = []
        for e, unk in missing:
            sim = [x for x in left if x.kind == e.kind and self.args_eq(x, e)]
            if sim:
                q = pcond(e)
                same = [f for f, u in missing if f.kind == e.kind and self.args_eq2(f, e)]
                for f in same:
                    q = b_or(q, pcond(f))
                p = ZERO
                for x in sim:
                    p = b_or(p, pcond(x))
                r = self.cmp.poly(p, q)
                if r == EQ:
                    groups.append((e, sim))
                    self.put('effect %s' % label(e), EQ)
                    continue
                self.put('condition of effect %s' % label(e), r if id(e) not in loose or r == EQ else UNK, p, q)
                groups.append((e, sim))
                continue
            near = [x for x in left if x.kind == e.kind and target(x) == target(e)]
            fr = frag(e.args)
            v = NE
            if id(e) in loose or unk or any(frag(x.args) != fr and not self.at_hand(x, e) for x in near) or (not near and fr and False):
                v = UNK
            det = ''
            pv = qv = None
            if near:
                for u, w in zip(near[0].args, e.args):
                    if isinstance(u, Poly) and isinstance(w, Poly) and self.cmp.poly(u, w) != EQ:
                        pv, qv = u, w
            self.put('effect %s' % label(e), v, pv, qv, 'not found in the code' if not near else
                     'found only with other arguments at %s' % near[0].where())
        used = {x.seq for e, s in groups for x in s}
        if extra:
            for x in left:
                if x.seq in used:
                    continue
                if any(n[0].kind == x.kind and target(n[0]) == target(x) for n in missing):
                    continue
                self.put('effect %s' % label(x), NE if id(x) not in loose else UNK, None, None,
                         'happens in the code (%s) but is not expected' % x.where())
        if ordered and pos != sorted(pos):
            self.put('order of effects', NE, None, None, 'the code performs them in another order')

    def args_eq(self, x, e):
        return self.cmp.args(x.args, e.args) == EQ

    def args_eq2(self, x, e):
        return x.args == e.args

    def ev(self, x, e):
        if x.kind != e.kind or len(x.args) != len(e.args):
            return NE
        r = self.cmp.args(x.args, e.args)
        if r != EQ:
            return r
        return self.cmp.poly(pcond(x), pcond(e))


def sub_t(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(sub_t(y, mp) for y in x)
    if isinstance(x, list):
        return [sub_t(y, mp) for y in x]
    return x


def app_rd(q, c, key):
    idx = []
    for k in range(c.nd):
        idx.append(const(key[c.enum.index(k)]) if k in c.enum else IXP[k])
    return P.app('rd', (q,) + tuple(idx))


def target(e):
    for a in e.args:
        if isinstance(a, str):
            return a
        return a
    return None


def polys(x):
    if isinstance(x, Poly):
        return [x]
    if isinstance(x, tuple):
        return [p for y in x for p in polys(y)]
    return []


def opens(x):
    """atoms without meaning in x"""
    return {a for p in polys(x) for a in open_atoms(p) if fragile_op(a)}


def frag(x):
    if isinstance(x, Poly):
        return fragile(x)
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= frag(y)
        return s
    return frozenset()


frag_set = frag


def pcond(e):
    r = ONE
    for c in e.pc:
        r = b_and(r, c)
    return r


def viol(e):
    r = b_not(e.args[0])
    for c in e.pc:
        r = b_and(r, c)
    return r


def label(e):
    if e.kind == 'assert':
        m = getattr(e.node, 'msg', None)
        if isinstance(m, ast.Constant):
            return repr(m.value)
        return e.where()
    s = []
    for a in e.args:
        s.append(show(a, 3)[:60] if isinstance(a, Poly) else str(a)[:60])
    return '%s(%s)' % (e.kind, ', '.join(s)[:160])
