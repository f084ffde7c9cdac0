"""Loops: unrolling, pointwise maps, reductions, searches, fixpoint terms."""
import ast
from . import poly as P
from .poly import (Poly, IX, IXP, ZERO, ONE, const, const_val, is_const, ap, add, sub, mul, neg,
                   select, subst, app, atom, ge, gt, eq, b_and, b_or, b_not, single_atom, atoms_of,
                   indicator, assign, scale, fresh_bv)
from .values import *
from . import values as V
from .interp import St, SeqG, Gd
from .lib import iter_items, SeqIter

UNROLL = 16


def assigned_names(body):
    r = []
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                if x.id not in r:
                    r.append(x.id)
    return r


def augmented_only(body):
    """names that are only ever updated by augmented assignment (in place for arrays and lists)"""
    aug, plain = set(), set()
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                aug.add(x.target.id)
                x.target._aug = True
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and not getattr(x, '_aug', False):
                plain.add(x.id)
    return aug - plain


def unroll(I, S, items, bind, body, orelse):
    fr = I.frames[-1]
    breaks = []
    base = S.pc
    for it in items:
        if S.dead:
            break
        bind(it, S)
        fr.loops.append([])
        I.exec_block(body, S)
        outs = fr.loops.pop()
        conts = [s for k, s in outs if k == 'continue']
        breaks += [s for k, s in outs if k == 'break']
        merge_states(I, S, conts, base)
    if not S.dead and orelse:
        I.exec_block(orelse, S)
    merge_states(I, S, breaks, base)


def rel(pc, base):
    c = ONE
    for x in pc[len(base):]:
        c = b_and(c, x)
    return c


def merge_states(I, S, others, base):
    for o in reversed(others):
        if S.dead:
            S.take(o)
            S.dead = False
            continue
        T = St({}, None, base)
        I.join(T, rel(o.pc, base), o, S, base)
        S.take(T)


def exec_for(I, n, S):
    v = I.eval(n.iter, S)
    v = I.bindable(S, v) if not isinstance(v, SeqIter) else v
    items = iter_items(I, S, v) if not isinstance(v, SeqIter) else None
    if items is not None and len(items) <= UNROLL:
        unroll(I, S, items, lambda it, T: I.assign_to(n.target, it, T), n.body, n.orelse)
        return
    N, item = sequence(I, S, v)
    sym_loop(I, S, n, N, lambda T, k: I.assign_to(n.target, item(T, k), T),
             assigned_names([n]), n.body, None)
    loop_else(I, S, n)


def loop_else(I, S, n):
    """the else branch runs unless the loop was left by a break"""
    if not n.orelse or S.dead:
        return
    stopped = I.loop_stopped
    if stopped is None:
        I.note('else branch of a loop with a return', n)
        stopped = ZERO
    if stopped is ZERO:
        I.exec_block(n.orelse, S)
        return
    base = S.pc
    S1, S2 = S.fork(b_not(stopped)), S.fork(stopped)
    I.exec_block(n.orelse, S1)
    I.join(S, b_not(stopped), S1, S2, base)


def sequence(I, S, v):
    """(length poly, item function of index poly)"""
    if isinstance(v, SeqIter):
        parts = [sequence(I, S, a) for a in v.args]
        N = parts[0][0]
        for p in parts[1:]:
            if p[0] is not N and is_const(p[0]) or is_const(N):
                N = P.minp(N, p[0])
        if v.op == 'zip':
            return N, (lambda T, k: Tup([I.bindable(T, f(T, k)) for _, f in parts]))
        return N, (lambda T, k: Tup([Sc(add(v.start, k)), I.bindable(T, parts[0][1](T, k))]))
    c = I.content(S, v)
    if isinstance(c, Ar) and c.nd >= 1:
        def f(T, k):
            cc = I.content(T, v)
            return I.wrap(T, V.sel_read(cc, [('at', k)] + I.full_sels(cc, 1)), cc.kind)
        return c.dims[0], f
    if isinstance(c, (Tup, LstC)):
        items = c.items

        def g(T, k):
            return I.index_seq(T, v, c, [Sc(k)], None)
        return const(len(items)), g
    e = I.enc(S, c)
    if isinstance(e, tuple):
        e = app('ext:tuple', (e,))
    N = app('len', (e,), ('int', 'nonneg'))
    return N, (lambda T, k: Sc(app('ext:iter', (e, k)), 'o'))


def exec_while(I, n, S):
    # constant-true condition: handled as condition ONE with breaks
    sym_loop(I, S, n, None, None, assigned_names([n]), n.body, n.test)
    loop_else(I, S, n)


class LoopRec(object):
    """what a loop carries from one iteration to the next (for the comparison of effects inside it)"""

    def __init__(self, node, mod, depth, N, cond, evs, lv):
        self.node, self.mod, self.depth, self.N, self.cond, self.evs, self.lv = node, mod, depth, N, cond, evs, lv
        self.stop = ZERO
        self.slots = []            # [mu atom, variable, kind, init, next]


def retro_recs(I, start, f):
    for r in I.looprecs[start:]:
        r.N = f(r.N)
        r.cond = f(r.cond)
        r.stop = f(r.stop)
        r.slots = [s[:3] + [f(s[3]), f(s[4])] for s in r.slots]


class Slot(object):
    __slots__ = ('name', 'kind', 'var', 'cell', 'init', 'mu', 'next', 'final', 'at', 'dims', 'enum', 'vk', 'res', 'pre')

    def __init__(self):
        self.res = None


class Elem(Slot):
    """one element of an array, the only one a loop changes, carried as a number"""
    __slots__ = ('parent', 'key', 'ind', 'ix', 'e')

    def of(self, a):
        return subst(assign(a.el[self.key], self.ind, 1), {self.ix: self.e})


def promote(I, sl, residual, breaks, bval, depth, lv):
    """array slot of which a loop changes a single, fixed element (per enumerated column) -> element slots"""
    if sl.kind != 'a' or not isinstance(sl.next, Ar) or sl.cell is None and sl.var is None:
        return None
    init = sl.init
    if init.nd - len(init.enum) != 1:
        return None
    ixa = [IX[q] for q in range(init.nd) if q not in init.enum][0]
    ident = mua(sl.mu, init)
    vals = [sl.next] + [bval(b, sl) for b in breaks]
    if any(not isinstance(v, Ar) or v.dims != init.dims or v.enum != init.enum for v in vals):
        return None
    mus = [o.mu for o in residual] + [lv]
    es = []
    for key in init.el:
        me = ident.el[key]
        ps = [v.el[key] for v in vals if v.el[key] is not me]
        if not ps:
            continue
        found = None
        for a in sorted(ps[0].inds, key=lambda a: a.id):
            if a.op != 'eq' or ixa not in a.deps or any(m in a.deps for m in mus):
                continue
            if any(assign(p, a, 0) is not me for p in ps):
                continue
            r = linear_in(a.args[0], ixa)
            if r is None or abs(r[0]) != 1:
                continue
            found = a, scale(r[1], -1 / r[0])
            break
        if found is None:
            return None
        e = Elem()
        e.parent, e.key, e.ind, e.ix, e.e = sl, key, found[0], ixa, found[1]
        if any(x.op == 'ix' for x in e.e.deps):
            return None
        e.name = '%s[%s]' % (sl.name, ','.join(map(str, key)))
        e.kind, e.vk, e.var, e.cell = 's', sl.vk if sl.vk != 'b' else 'n', None, None
        e.mu = mu_atom(depth, e.name)
        e.init = subst(init.el[key], {ixa: e.e})
        es.append(e)
    return es or None


def sub_tuple(x, f):
    if isinstance(x, Poly):
        return f(x)
    if isinstance(x, tuple):
        return tuple(sub_tuple(y, f) for y in x)
    if isinstance(x, (Ar, Sc, LstC, Tup)):
        return f(x)
    return x


def mu_atom(depth, name, isbool=False, isint=False):
    fl = ('bool',) if isbool else (('int',) if isint else ())
    return atom('mu', (depth, name) + fl, fl)


def snapshot(I):
    return (len(I.events), len(I.notes), len(I.calls), len(I.undef_uses), I.callsites, len(I.looprecs))


def restore(I, s):
    del I.events[s[0]:]
    del I.notes[s[1]:]
    del I.calls[s[2]:]
    del I.undef_uses[s[3]:]
    I.callsites = s[4]
    del I.looprecs[s[5]:]


def sym_loop(I, S, node, N, bind, names, body, test):
    depth = I.loop_depth
    I.loop_depth += 1
    I.loop_stopped = ZERO
    try:
        _sym_loop(I, S, node, N, bind, names, body, test, depth)
    finally:
        I.loop_depth -= 1


def cell_name(S, cell, skip=()):
    c = sorted(k for k, v in S.vars.items() if isinstance(v, Ref) and v.cell == cell and not v.views)
    return c[0] if c else 'cell%d' % cell


PURE_NODES = (ast.Name, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.Call, ast.Constant, ast.Subscript, ast.Compare, ast.Slice,
              ast.operator, ast.unaryop, ast.cmpop, ast.expr_context, ast.Tuple, ast.BoolOp, ast.boolop, ast.keyword)
PURE_CALLS = ('abs', 'max', 'min', 'float', 'len', 'sqrt', 'maximum', 'minimum', 'where', 'isnan', 'logical_and', 'logical_or',
              'logical_not', 'sum', 'any', 'all', 'absolute', 'power', 'square', 'sign', 'exp', 'log', 'sin', 'cos')


def derived_candidates(I, S, node, names, inplace):
    """carried variables that equal one of their own right-hand sides when the loop starts"""
    bad = set(inplace)
    stored = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
            b = x.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                bad.add(b.id)
                stored.add(b.id)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            bad.add(x.target.id)
        elif isinstance(x, (ast.For, ast.comprehension)):
            for y in ast.walk(x.target):
                if isinstance(y, ast.Name):
                    bad.add(y.id)
    out = {}
    for x in ast.walk(node):
        if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)):
            continue
        nm = x.targets[0].id
        if nm in bad or nm in out or nm not in S.vars or isinstance(x.value, (ast.Name, ast.Constant)):
            continue
        used = set()
        ok = True
        for y in ast.walk(x.value):
            if not isinstance(y, PURE_NODES):
                ok = False
            elif isinstance(y, ast.Name):
                used.add(y.id)
            elif isinstance(y, ast.Call):
                f = y.func
                fn = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else '')
                if fn not in PURE_CALLS and not (isinstance(f, ast.Name) and expression_fn(S.vars.get(f.id))):
                    ok = False
        if not ok or nm in used or not (used & (set(names) | stored)):
            continue
        if any(isinstance(S.vars.get(u), Undef) for u in used):
            continue
        if holds(I, S, nm, x.value):
            out[nm] = x.value
    return out


def expression_fn(v):
    """a local function that only computes a value"""
    if not isinstance(v, Fn):
        return False
    body = getattr(v.node, 'body', None)
    if isinstance(v.node, ast.Lambda):
        body = [ast.Return(v.node.body)]
    body = [b for b in body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and all(
        isinstance(y, PURE_NODES) and (not isinstance(y, ast.Call) or (y.func.attr if isinstance(y.func, ast.Attribute) else
                                       getattr(y.func, 'id', '')) in PURE_CALLS) for y in ast.walk(body[0].value))


def holds(I, S, nm, expr):
    """is the current value of nm that of expr in state S?"""
    v = S.vars.get(nm)
    if v is None or isinstance(v, Undef):
        return False
    snap = snapshot(I)
    try:
        F_ = S.fork()
        a = I.content(F_, I.eval(expr, F_))
        b = I.content(S, v)
        if isinstance(a, Sc) and isinstance(b, Sc):
            return a.p is b.p
        return isinstance(a, Ar) and isinstance(b, Ar) and same_content(a, b)
    finally:
        restore(I, snap)


def _sym_loop(I, S, node, N, bind, names, body, test, depth):
    lv = atom('lv', (depth,), ('int', 'nonneg'))
    k = ap(lv)
    cells = []          # heap cells mutated in the body
    varslots = []       # variable names carried
    intslots = set()
    inplace = augmented_only([node])
    derived = derived_candidates(I, S, node, names, inplace)
    allnames = names
    for attempt in range(8):
        names = [x for x in allnames if x not in derived]
        slots = []
        T = S.fork()
        # variables assigned in the body
        for nm in names:
            v = S.vars.get(nm)
            if v is None or isinstance(v, Undef):
                T.vars[nm] = Undef(nm)
                continue
            sl = Slot()
            sl.name, sl.var, sl.cell = nm, nm, None
            c = I.content(S, v)
            if nm in inplace and isinstance(v, Ref) and not v.views and isinstance(c, (Ar, LstC)):
                continue                 # updated in place: carried through its cell
            if isinstance(c, Sc):
                sl.kind = 's'
                sl.vk = c.kind
                sl.init = c.p
                isb = c.kind == 'b'
                if isb and any(not a._isb for m in c.p.terms for a, e in m):
                    isb = False
                sl.mu = mu_atom(depth, nm, isb, nm in intslots)
                T.vars[nm] = Sc(ap(sl.mu), c.kind)
            elif isinstance(c, Ar):
                sl.kind = 'a'
                sl.init = c
                sl.vk = c.kind
                sl.mu = mu_atom(depth, nm)
                content = mua(sl.mu, c)
                if isinstance(v, Ref) and not v.views and v.cell in cells:
                    T.vars[nm] = v       # carried through its cell
                    continue
                T.vars[nm] = Ref(I.newcell(T, content))
                sl.cell = T.vars[nm].cell
            elif isinstance(c, LstC):
                if isinstance(v, Ref) and v.cell in cells:
                    continue
                sl.kind = 'l'
                sl.init = c
                sl.mu = mu_atom(depth, nm)
                T.vars[nm] = Ref(I.newcell(T, LstC([ListMark(sl.mu)])))
            else:
                sl.kind = 'o'
                sl.init = v
                sl.mu = mu_atom(depth, nm)
                T.vars[nm] = Sc(ap(sl.mu), 'o')
            slots.append(sl)
        for cell in cells:
            c = S.heap[cell]
            sl = Slot()
            sl.name = cell_name(S, cell)
            sl.var, sl.cell = None, cell
            sl.mu = mu_atom(depth, sl.name + '@')
            sl.init = c
            if isinstance(c, Ar):
                sl.kind = 'a'
                sl.vk = c.kind
                T.heap[cell] = mua(sl.mu, c)
            elif isinstance(c, LstC):
                sl.kind = 'l'
                T.heap[cell] = LstC([ListMark(sl.mu)])
            elif isinstance(c, DctC):
                sl.kind = 'd'
                T.heap[cell] = DctC(c.base, {kk: Sc(app('item', (ap(sl.mu), ('k', str(kk)))), 'o') if False else vv
                                             for kk, vv in c.items.items()}, c.removed)
            else:
                sl.kind = 'o'
                T.heap[cell] = ObjC(ap(sl.mu))
            slots.append(sl)
        snap = snapshot(I)
        for nm, ex in derived.items():
            T.vars[nm] = I.bindable(T, copy_of(I, T, I.eval(ex, T)))
        pre_heap = dict(T.heap)
        base = T.pc
        cond = ONE
        fr = I.frames[-1]
        nret = len(fr.returns)
        if test is not None:
            cond = I.truth(T, I.eval(test, T))
        T.pc = base + ((('loop', depth, id(node)),) if False else ())
        if bind is not None:
            bind(T, k)
        fr.loops.append([])
        I.exec_block(body, T)
        outs = fr.loops.pop()
        merge_states(I, T, [s for kk, s in outs if kk == 'continue'], base)
        breaks = [s for kk, s in outs if kk == 'break']
        rets = fr.returns[nret:]
        # which pre-existing cells changed?
        new = []
        for T2 in [T] + breaks + [St({}, h, ()) for _, _, h in rets]:
            if T2.dead and T2 is T:
                continue
            for cell in S.heap:
                if cell in cells:
                    continue
                if T2.heap.get(cell) is not pre_heap.get(cell) and cell not in new:
                    if not same_content(T2.heap.get(cell), pre_heap.get(cell)):
                        new.append(cell)
        # integer scalars
        ni = set()
        for sl in slots:
            if sl.kind == 's' and sl.vk == 'n' and sl.var and sl.var not in intslots and P.is_int(sl.init):
                v = T.vars.get(sl.var) if not T.dead else None
                if isinstance(v, Sc) and P.is_int(subst(v.p, {sl.mu: ZERO})) and all(
                        m == ((sl.mu, 1),) or sl.mu not in dict(m) for m in v.p.terms):
                    ni.add(sl.var)
        wrong = [nm for nm, ex in derived.items()
                 if any(not T2.dead and not holds(I, T2, nm, ex) for T2 in [T])
                 or any(not holds(I, b, nm, ex) for b in breaks) or rets]
        for nm in wrong:
            del derived[nm]
        if not new and not ni and not wrong:
            break
        cells += new
        intslots |= ni
        restore(I, snap)
        del fr.returns[nret:]
    # events inside the loop carry the iteration variable
    evs = I.events[snap[0]:]
    # ---- next values
    alive = not T.dead
    for sl in slots:
        sl.next = slot_value(I, T, sl) if alive else None
    if rets:
        I.note('return inside a symbolic loop', node)
    if test is not None and N is None:
        N2 = counter_loop(I, slots, cond, k, breaks)
        if N2 is not None:
            N, idx_slot, expr = N2
            rep = {idx_slot.mu: expr}
            for sl in slots:
                if sl is not idx_slot and sl.next is not None:
                    sl.next = subst_val(sl.next, rep)
            retro_events(I, evs, rep)
            retro_recs(I, snap[5], lambda x: sub_arg(x, rep))
            T_sub(I, T, rep)
            for b in breaks:
                T_sub(I, b, rep)
            idx_slot.res = (lambda kk, e=expr: subst(e, {lv: kk}))
            cond = ONE
            test = None
    rec = LoopRec(node, I.frames[-1].mod, depth, N, cond, evs, lv)
    I.looprecs.append(rec)
    finish(I, S, T, node, N, lv, slots, cond, test, breaks, depth, names, evs, rets, base, rec, snap[5])
    if not S.dead:
        for nm, ex in derived.items():
            S.vars[nm] = I.bindable(S, copy_of(I, S, I.eval(ex, S)))


def copy_of(I, S, v):
    c = I.content(S, v)
    return c if isinstance(c, (Ar, Sc)) else v


def mua(mu, c):
    return V.mk(c.dims, lambda idx: app('rdm', (ap(mu),) + tuple(idx), ('bool',) if c.kind == 'b' else ()), c.kind, c.enum)


class ListMark(Val):
    def __init__(self, mu):
        self.mu = mu


def same_content(a, b):
    if a is b:
        return True
    if isinstance(a, Ar) and isinstance(b, Ar):
        return a.dims == b.dims and a.enum == b.enum and a.el == b.el
    if isinstance(a, LstC) and isinstance(b, LstC):
        return len(a.items) == len(b.items) and all(x is y for x, y in zip(a.items, b.items))
    if isinstance(a, DctC) and isinstance(b, DctC):
        return a.base is b.base and a.items.keys() == b.items.keys() and \
            all(same_val(a.items[x], b.items[x]) for x in a.items)
    if isinstance(a, ObjC) and isinstance(b, ObjC):
        return a.p is b.p and a.attrs == b.attrs
    return False


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.p is b.p
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cell == b.cell and a.views == b.views
    return False


def slot_value(I, T, sl):
    if sl.var is not None:
        v = T.vars.get(sl.var)
        if v is None or isinstance(v, Undef):
            return None
    else:
        v = Ref(sl.cell)
    c = I.content(T, v)
    if sl.kind == 's':
        if isinstance(c, Sc):
            return c.p
        p = I.arr(T, c)
        return p if isinstance(p, Poly) else app('ext:changed', (V.lam_arg(p),))
    if sl.kind == 'a':
        p = I.arr(T, c)
        if isinstance(p, Poly):
            return V.mk(sl.init.dims, lambda idx: p, sl.vk, sl.init.enum)
        if p.nd != sl.init.nd:
            return None
        if p.enum != sl.init.enum:
            p2 = p
            p = V.mk(p.dims, lambda idx: at(p2, idx), p2.kind, tuple(e for e in sl.init.enum if is_const(p.dims[e])))
        return p
    if sl.kind == 'l':
        return c
    if sl.kind == 'd':
        return c
    if isinstance(v, (Sc,)):
        return v.p
    e = I.enc(T, v)
    return e if isinstance(e, Poly) else app('ext:tuple', (e,))


def subst_val(v, rep):
    if isinstance(v, Poly):
        return subst(v, rep)
    if isinstance(v, Ar):
        return Ar(tuple(subst(d, rep) for d in v.dims), v.enum, {k: subst(p, rep) for k, p in v.el.items()}, v.kind)
    if isinstance(v, Sc):
        return Sc(subst(v.p, rep), v.kind)
    if isinstance(v, Tup):
        return Tup([subst_val(x, rep) for x in v.items])
    if isinstance(v, LstC):
        return LstC([subst_val(x, rep) for x in v.items])
    if isinstance(v, Gd):
        return Gd(subst(v.g, rep), subst_val(v.v, rep))
    if isinstance(v, SeqG):
        return SeqG(subst(v.c, rep), subst_val(v.a, rep), subst_val(v.b, rep))
    if isinstance(v, Gv):
        return Gv(subst(v.c, rep), subst_val(v.a, rep), subst_val(v.b, rep))
    if isinstance(v, DctC):
        return DctC(subst(v.base, rep) if v.base is not None else None, {k: subst_val(x, rep) for k, x in v.items.items()}, v.removed)
    if isinstance(v, ObjC):
        return ObjC(subst(v.p, rep) if v.p is not None else None, {k: subst_val(x, rep) for k, x in v.attrs.items()})
    if isinstance(v, Ref):
        return Ref(v.cell, tuple(tuple(sub_sel(s, rep) for s in w) for w in v.views))
    return v


def sub_sel(s, rep):
    return tuple(subst(x, rep) if isinstance(x, Poly) else (subst_val(x, rep) if isinstance(x, Ar) else x) for x in s)


def sub_arg(x, rep):
    if isinstance(x, Poly):
        return subst(x, rep)
    if isinstance(x, tuple):
        return tuple(sub_arg(y, rep) for y in x)
    return x


def retro_events(I, evs, rep):
    for e in evs:
        e.pc = tuple(subst(p, rep) if isinstance(p, Poly) else p for p in e.pc)
        e.args = tuple(sub_arg(a, rep) for a in e.args)


def T_sub(I, T, rep):
    if T.dead and not T.vars:
        return
    T.vars = {k: subst_val(v, rep) for k, v in T.vars.items()}
    T.heap = {k: subst_val(v, rep) for k, v in T.heap.items()}
    T.pc = tuple(subst(p, rep) for p in T.pc)


def counter_loop(I, slots, cond, k, breaks):
    """while loop driven by a counter -> (N, slot, value of the counter at iteration k)"""
    ind = indicator(cond)
    if not ind:
        return None
    for sl in slots:
        if sl.kind != 's' or sl.next is None:
            continue
        d = sub(sl.next, ap(sl.mu))
        if is_const(d) and const_val(d) != 0 and sl.mu in cond.deps:
            others = [o.mu for o in slots if o is not sl]
            if any(o in cond.deps for o in others):
                continue
            at_, pos = ind
            q = at_.args[0]
            if at_.op not in ('ge', 'gt'):
                continue
            # condition: q >= 0 (pos) or not(q>=0)
            c = q.terms.get(((sl.mu, 1),))
            rest = sub(q, scale(ap(sl.mu), c)) if c is not None else None
            if c is None or sl.mu in rest.deps:
                continue
            step = const_val(d)
            # normalise to  f(mu) >= 0 with f integer valued
            if at_.op != 'ge' or not P.is_int(q):
                continue
            if not pos:
                q = sub(neg(q), ONE)
                c = -c
            # q(k) = c*(init+step*k)+rest >= 0 ; needs c*step<0
            if c * step >= 0:
                continue
            q0 = subst(q, {sl.mu: sl.init})
            s = -(c * step)
            N = add(q0, const(s))
            if s != 1:
                N = app('floor', (P.div(N, const(s)),), ('int',))
            return N, sl, add(sl.init, scale(k, step))
    return None


def deps_on(v, atoms):
    if isinstance(v, Poly):
        return any(a in v.deps for a in atoms)
    if isinstance(v, Ar):
        return any(deps_on(p, atoms) for p in v.el.values()) or any(deps_on(d, atoms) for d in v.dims)
    return True


def finish(I, S, T, node, N, lv, slots, cond, test, breaks, depth, names, evs, rets, base, rec, nrec):
    k = ap(lv)
    counted = test is None and N is not None
    mus = {sl.mu: sl for sl in slots}
    unresolved = [sl for sl in slots if sl.res is None]
    fr = I.frames[-1]

    simple = counted and not breaks and not rets and not T.dead
    if simple:
        progress = True
        while progress:
            progress = False
            for sl in list(unresolved):
                if resolve(I, sl, unresolved, N, lv):
                    progress = True
                    unresolved.remove(sl)
                    # substitute its value at the start of iteration k in the others
                    pv = sl.pre
                    for o in unresolved:
                        if o.next is not None:
                            o.next = replace_mu(I, o.next, sl, pv)
                    for e in evs:
                        e.pc = tuple(replace_mu(I, p, sl, pv) if isinstance(p, Poly) else p for p in e.pc)
                        e.args = tuple(rep_arg(I, a, sl, pv) for a in e.args)
                    retro_recs(I, nrec, lambda x: rep_arg(I, x, sl, pv))
                    for nm in names:
                        vv = T.vars.get(nm)
                        if isinstance(vv, (Sc,)):
                            T.vars[nm] = Sc(replace_mu(I, vv.p, sl, pv), vv.kind)
                    break
    if counted and breaks and not rets and len(breaks) == 1:
        if search_loop(I, S, T, N, lv, slots, breaks[0], names, depth, base, evs):
            rec.stop = rel(breaks[0].pc, base)
            I.loop_stopped = V.b_any(rec.stop, N, lv)
            close_events(evs, lv, N)
            return
    # ---- residual slots: fixpoint terms
    residual = [sl for sl in slots if sl.res is None]
    if residual or not counted or breaks or rets:
        eta(I, S, T, node, N, lv, slots, residual, cond, test, breaks, rets, depth, names, evs, base, rec, nrec)
        close_events(evs, lv, N)
        return
    write_back(I, S, T, N, lv, slots, names, node)
    I.loop_stopped = ZERO
    close_events(evs, lv, N)


def close_events(evs, lv, N):
    for e in evs:
        e.args = e.args + ((('iter', lv, N),) if False else ())


def rep_arg(I, x, sl, pv):
    if isinstance(x, Poly):
        return replace_mu(I, x, sl, pv)
    if isinstance(x, tuple):
        return tuple(rep_arg(I, y, sl, pv) for y in x)
    return x


def replace_mu(I, v, sl, pv):
    """replace the slot's symbolic start-of-iteration value by pv (poly, or Ar)"""
    if isinstance(v, Ar):
        if not deps_on(v, [sl.mu]):
            return v
        return Ar(tuple(replace_mu(I, d, sl, pv) for d in v.dims), v.enum,
                  {k: replace_mu(I, p, sl, pv) for k, p in v.el.items()}, v.kind)
    if isinstance(v, LstC):
        return LstC([replace_mu(I, x, sl, pv) for x in v.items])
    if isinstance(v, SeqG):
        return SeqG(replace_mu(I, v.c, sl, pv), replace_mu(I, v.a, sl, pv), replace_mu(I, v.b, sl, pv))
    if isinstance(v, Sc):
        return Sc(replace_mu(I, v.p, sl, pv), v.kind)
    if isinstance(v, Tup):
        return Tup([replace_mu(I, x, sl, pv) for x in v.items])
    if not isinstance(v, Poly) or sl.mu not in v.deps:
        return v
    if isinstance(pv, Poly):
        return subst(v, {sl.mu: pv})
    if isinstance(pv, Ar):
        memo = {}

        def fn(a):
            if sl.mu not in a.deps:
                return ap(a)
            if a.op == 'rdm' and single_atom(a.args[0]) is sl.mu:
                idx = [P.map_atoms(x, fn, memo) for x in a.args[1:]]
                return at(pv, idx)
            return None
        return P.map_atoms(v, fn, memo)
    return v


def resolve(I, sl, unresolved, N, lv):
    """try to find closed forms: sl.res(k) value after k iterations... sets sl.final, sl.pre"""
    k = ap(lv)
    others = [o.mu for o in unresolved if o is not sl]
    nx = sl.next
    if nx is None:
        return False
    if sl.kind == 's' or sl.kind == 'o':
        if not isinstance(nx, Poly):
            return False
        if sl.kind == 'o':
            if single_atom(nx) is sl.mu:
                sl.res = True
                sl.final = sl.init
                sl.pre = ap(sl.mu)
                return False
            return False
        mu = ap(sl.mu)
        if nx is mu:
            sl.res, sl.final, sl.pre = True, sl.init, sl.init
            return True
        if deps_on(nx, others):
            return False
        pos = gt(N) if not is_const(N) else (ONE if const_val(N) > 0 else ZERO)
        if sl.mu not in nx.deps:
            prev = subst(nx, {lv: sub(k, ONE)})
            sl.pre = select(ge(sub(k, ONE)), prev, sl.init)
            sl.final = select(pos, subst(nx, {lv: sub(N, ONE)}), sl.init)
            sl.res = True
            return True
        d = sub(nx, mu)
        if sl.mu not in d.deps:
            if lv not in d.deps:
                sl.pre = add(sl.init, mul(d, k))
                sl.final = add(sl.init, mul(d, N))
            else:
                sl.pre = add(sl.init, V.reduce_('sum', d, k, lv))
                sl.final = add(sl.init, V.reduce_('sum', d, N, lv))
            sl.res = True
            return True
        if sl.mu._isb:
            n1, n0 = assign(nx, sl.mu, 1), assign(nx, sl.mu, 0)
            if n1 is ONE and sl.mu not in n0.deps:
                sl.final = b_or(sl.init, V.b_any(n0, N, lv))
                sl.pre = b_or(sl.init, V.b_any(n0, k, lv) if not is_const(N) else V.b_any(n0, k, lv))
                sl.res = True
                return True
            if n0 is ZERO and sl.mu not in n1.deps:
                sl.final = b_and(sl.init, V.b_all(n1, N, lv))
                sl.pre = b_and(sl.init, V.b_all(n1, k, lv))
                sl.res = True
                return True
        # running max/min :  nx == max(mu, g)
        for op, f in (('max', P.maxp), ('min', P.minp)):
            g = extremum_arg(nx, mu, sl.mu, f)
            if g is not None:
                whole = V.reduce_(op, g, N, lv)
                if any(subst(g, {lv: const(j)}) is sl.init for j in (0, 1)) or subst(g, {lv: sub(N, ONE)}) is sl.init:
                    sl.final = whole
                else:
                    sl.final = f(sl.init, whole)
                sl.pre = f(sl.init, V.reduce_(op, g, k, lv))
                sl.res = True
                return True
        return False
    if sl.kind == 'a':
        return resolve_array(I, sl, others, N, lv)
    if sl.kind == 'l':
        return resolve_list(I, sl, others, N, lv)
    if sl.kind == 'd':
        if isinstance(nx, DctC) and same_content(nx, sl.init):
            sl.res, sl.final, sl.pre = True, sl.init, None
            return True
    return False


def extremum_arg(nx, mu, mua_, f):
    # candidates: arguments of comparison indicators involving mu
    for a in nx.inds:
        if a.op in ('gt', 'ge') and mua_ in a.deps:
            q = a.args[0]
            c = q.terms.get(((mua_, 1),))
            if c is None:
                continue
            g = scale(sub(scale(mu, c), q), 1 / c)
            if mua_ in g.deps:
                continue
            if f(mu, g) is nx or f(g, mu) is nx:
                return g
    return None


def resolve_array(I, sl, others, N, lv):
    k = ap(lv)
    init, nx = sl.init, sl.next
    if not isinstance(nx, Ar):
        return False
    ident = mua(sl.mu, init)
    if nx.dims == init.dims and nx.enum == init.enum and all(nx.el[x] is ident.el[x] for x in nx.el):
        sl.res, sl.final, sl.pre = True, init, init
        return True
    if deps_on(nx, others):
        return False
    if not deps_on(nx, [sl.mu]):
        if any(lv in d.deps for d in nx.dims):
            return False
        # rebuilt wholesale every iteration
        pos = gt(N) if not is_const(N) else (ONE if const_val(N) > 0 else ZERO)
        last = subst_val(nx, {lv: sub(N, ONE)})
        if pos is ONE:
            sl.final = last
        elif last.dims == init.dims and last.enum == init.enum:
            sl.final = Ar(last.dims, last.enum, {x: select(pos, last.el[x], init.el[x]) for x in last.el}, last.kind)
        else:
            sl.final = last
        prev = subst_val(nx, {lv: sub(k, ONE)})
        if prev.dims != init.dims or prev.enum != init.enum:
            return False
        c = ge(sub(k, ONE))
        sl.pre = Ar(prev.dims, prev.enum, {x: select(c, prev.el[x], init.el[x]) for x in prev.el}, prev.kind)
        sl.res = True
        return True
    if nx.dims != init.dims or nx.enum != init.enum:
        return False
    fin, pre = {}, {}
    for key, p in nx.el.items():
        me = ident.el[key]
        if p is me:
            fin[key] = pre[key] = init.el[key]
            continue
        r = pointwise(I, sl, p, me, key, N, lv)
        if r is None:
            # whole-array accumulation: a(i) += g(k, i)
            d = sub(p, me)
            if sl.mu in d.deps:
                return False
            fin[key] = add(init.el[key], V.reduce_('sum', d, N, lv))
            pre[key] = add(init.el[key], V.reduce_('sum', d, k, lv))
            continue
        fin[key], pre[key] = r
    sl.final = Ar(init.dims, init.enum, fin, init.kind)
    sl.pre = Ar(init.dims, init.enum, pre, init.kind)
    sl.res = True
    return True


def linear_in(q, var):
    """coefficient c (rational) if q = c*var + rest(without var)"""
    c = q.terms.get(((var, 1),))
    if c is None:
        return None
    rest = sub(q, scale(ap(var), c))
    if var in rest.deps:
        return None
    return c, rest


def pointwise(I, sl, p, me, key, N, lv):
    """p = select(i == e(k) [and ...], value, old)"""
    k = ap(lv)
    cands = []
    for a in p.inds:
        if a.op == 'eq' and lv in a.deps:
            q = a.args[0]
            ixs = [v for v in q.deps if v.op == 'ix']
            if len(ixs) >= 1:
                cands.append((a, ixs))
    for a, ixs in cands:
        p0 = assign(p, a, 0)
        if p0 is not me:
            continue
        r = linear_in(a.args[0], lv)
        kinv = None
        in_range = None
        if r is not None and abs(r[0]) == 1:
            kinv = scale(r[1], -1 / r[0])
            in_range = b_and(ge(kinv), ge(sub(sub(N, ONE), kinv)))
        else:
            # e(k) = nth(m, k) (+const)
            ix = ixs[0]
            r2 = linear_in(a.args[0], ix)
            if r2 is not None and abs(r2[0]) == 1:
                e = scale(r2[1], -1 / r2[0])
                iv = V.invert_poly(e, lv, ap(ix), N)
                if iv is not None:
                    in_range, kinv = iv
        if kinv is None:
            continue
        val = assign(p, a, 1)
        val = subst(val, {lv: kinv})
        # own reads must be at this very element
        idxs = [x for x in single_atom(me).args[1:]]
        ok = True
        memo = {}

        def fn(t):
            nonlocal ok
            if sl.mu not in t.deps:
                return ap(t)
            if t is single_atom(me):
                return sl.init.el[key]
            if t.op == 'rdm' and single_atom(t.args[0]) is sl.mu:
                if tuple(t.args[1:]) == tuple(idxs):
                    return sl.init.el[key]
                # element of another enumerated column of the same row, already known untouched before
                ok = False
                return ap(t)
            return None
        v2 = P.map_atoms(val, fn, memo)
        if not ok or sl.mu in v2.deps:
            continue
        if kinv is not None and in_range is not None:
            free = [q for q in range(init_nd(sl)) if q not in sl.init.enum]
            rng = in_range
            for q in free:
                rng = V.bounded(rng, IX[q], sl.init.dims[q])
            fin = select(rng, v2, sl.init.el[key])
            before = b_and(in_range, ge(sub(sub(k, ONE), kinv)))
            pre = select(before, v2, sl.init.el[key])
            return fin, pre
    return None


def init_nd(sl):
    return sl.init.nd


def resolve_list(I, sl, others, N, lv):
    nx = sl.next
    k = ap(lv)
    if isinstance(nx, LstC) and len(nx.items) == 1 and isinstance(nx.items[0], ListMark):
        sl.res, sl.final, sl.pre = True, sl.init, None
        return True

    def tail(x):
        if isinstance(x, LstC) and x.items and isinstance(x.items[0], ListMark) and x.items[0].mu is sl.mu:
            return x.items[1:]
        return None
    cond = ONE
    t = None
    if isinstance(nx, LstC):
        t = tail(nx)
    elif isinstance(nx, SeqG):
        ta, tb = tail(nx.a), tail(nx.b)
        if ta is not None and tb is not None:
            if len(ta) == 1 and not tb:
                cond, t = nx.c, ta
            elif len(tb) == 1 and not ta:
                cond, t = b_not(nx.c), tb
    if t is None:
        return False
    if len(t) > 1 or not t:
        return several(I, sl, t, others, N, lv)
    x = t[0]
    if isinstance(x, Gd):
        cond, x = x.g, x.v
    if not isinstance(x, Sc):
        return False
    body = x.p
    if deps_on(body, others + [sl.mu]) or deps_on(cond, others + [sl.mu]):
        return False
    if cond is ONE:
        new = V.mk((N,), lambda idx: subst(body, {lv: idx[0]}), x.kind, ())
    else:
        n2 = V.b_count(cond, N, lv)
        new = V.mk((n2,), lambda idx: subst(body, {lv: V.b_nth(cond, N, idx[0], lv)}), x.kind, ())
    if sl.init.items:
        from .lib import concat
        a0 = I.seq_to_ar(St({}, {}, ()), sl.init.items)
        if not isinstance(a0, Ar):
            return False
        new = concat(I, None, [a0, new])
    sl.res, sl.final, sl.pre = True, new, None
    return True


def several(I, sl, t, others, N, lv):
    """more than one item is appended in an iteration"""
    if sl.init.items:
        return False
    row = []
    size = ZERO
    for x in t:
        g, x = (x.g, x.v) if isinstance(x, Gd) else (ONE, x)
        if not isinstance(x, Sc) or deps_on(x.p, others + [sl.mu]) or deps_on(g, others + [sl.mu]):
            return False
        row += [g, x.p]
        size = add(size, V.b_count(g, N, lv) if g is not ONE else N)
    b, bd = V.close(app('ext:tuple', tuple(row)), [lv])
    whole = app('lam', (b, (N,), (bd,)), bound=b)
    new = V.mk((size,), lambda idx: app('ext:appended', (whole, idx[0])), 'n', ())
    sl.res, sl.final, sl.pre = True, new, None
    return True


def search_loop(I, S, T, N, lv, slots, B, names, depth, base, evs):
    """for k: if c(k): (assignments) break     with nothing else carried"""
    cb = rel(B.pc, base)
    mus = [sl.mu for sl in slots]
    if deps_on(cb, mus):
        return False
    for sl in slots:
        if T.dead or sl.res is not None:
            continue
        if sl.var in loop_targets(I, names, T, B):
            pass
    # outside the breaking iteration nothing may change (loop targets excepted)
    changed = []
    for sl in slots:
        if sl.next is None:
            return False
        same = (isinstance(sl.next, Poly) and single_atom(sl.next) is sl.mu) or \
            (isinstance(sl.next, Ar) and all(p is mua(sl.mu, sl.init).el[q] for q, p in sl.next.el.items()))
        if not same:
            if isinstance(sl.next, Poly) and not deps_on(sl.next, mus):
                changed.append(sl)      # per-iteration temporaries, last value
            else:
                return False
    found = V.b_any(cb, N, lv)
    first = V.b_nth(cb, N, ZERO, lv)
    rep = {lv: first}
    # not-found state: initial, temporaries have their last value
    S2 = S.fork(b_not(found))
    for nm in names:
        v = T.vars.get(nm)
        if v is None or isinstance(v, Undef):
            continue
        sl = next((s for s in slots if s.var == nm), None)
        if sl is None or sl in changed:
            S2.vars[nm] = subst_val(v, {lv: sub(N, ONE)})
    # found state
    S1 = S.fork(found)
    for sl in slots:
        v = slot_value(I, B, sl)
        if isinstance(v, Poly):
            v2 = v
            for o in slots:
                v2 = replace_mu(I, v2, o, o.init if isinstance(o.init, (Poly, Ar)) else ap(o.mu))
            v2 = subst(v2, rep)
            if sl.var:
                S1.vars[sl.var] = Sc(v2, sl.vk)
        elif isinstance(v, Ar):
            v2 = v
            for o in slots:
                v2 = replace_mu(I, v2, o, o.init if isinstance(o.init, (Poly, Ar)) else ap(o.mu))
            v2 = subst_val(v2, rep)
            if sl.var:
                S1.vars[sl.var] = Ref(I.newcell(S1, v2))
            else:
                S1.heap[sl.cell] = v2
        else:
            return False
    for nm in names:
        if any(s.var == nm for s in slots):
            continue
        v = B.vars.get(nm)
        if v is None:
            continue
        c = I.content(B, v)
        c = subst_val(c, rep) if not isinstance(c, Undef) else c
        if not isinstance(c, Undef):
            for o in slots:
                if isinstance(c, (Sc, Ar)):
                    c = replace_mu(I, c, o, o.init if isinstance(o.init, (Poly, Ar)) else ap(o.mu))
            S1.vars[nm] = I.bindable(S1, c)
    I.join(S, found, S1, S2, base)
    return True


def loop_targets(I, names, T, B):
    return ()


def write_back(I, S, T, N, lv, slots, names, node):
    pos = gt(N) if not is_const(N) else (ONE if const_val(N) > 0 else ZERO)
    done = set()
    for sl in slots:
        f = sl.final if sl.res is True else None
        if callable(sl.res):
            f = sl.res(N)
        if sl.var is not None:
            done.add(sl.var)
            if sl.kind in ('s',):
                S.vars[sl.var] = Sc(f, sl.vk)
            elif sl.kind == 'a':
                S.vars[sl.var] = Ref(I.newcell(S, f))
            elif sl.kind == 'l':
                S.vars[sl.var] = Ref(I.newcell(S, f))
        else:
            S.heap[sl.cell] = f
            I.stores.setdefault(sl.cell, []).append((I.frames[-1].mod, node))
    # per-iteration temporaries keep their last value
    last = {lv: sub(N, ONE)}
    for nm in names:
        if nm in done:
            continue
        v = T.vars.get(nm)
        if v is None or isinstance(v, Undef):
            continue
        if isinstance(v, Ref) and v.cell in S.heap:
            c = None
            S.vars[nm] = v
            continue
        c = I.content(T, v)
        c = subst_val(c, last)
        nv = I.bindable(S, c) if not isinstance(c, Ref) else c
        if pos is ONE:
            S.vars[nm] = nv
        else:
            # assumed to run at least once when used afterwards
            S.vars[nm] = nv


# ------------------------------------------------------------------ fixpoint terms
def eta(I, S, T, node, N, lv, slots, residual, cond, test, breaks, rets, depth, names, evs, base, rec, nrec):
    """general loop: values after the loop are fixpoint terms over the carried slots"""
    I.etas = getattr(I, 'etas', 0) + 1
    k = ap(lv)
    # values of already resolved slots at the start of the iteration
    reps = [(o, o.pre) for o in slots if o.res is True and o not in residual and o.pre is not None]

    def R0(v):
        for o, pv in reps:
            v = replace_mu(I, v, o, pv)
        return v

    def T0(x):
        return sub_tuple(x, R0)

    def bval(b, sl):
        if isinstance(sl, Elem):
            x = bval(b, sl.parent)
            return sl.of(x) if isinstance(x, Ar) else None
        v = slot_value(I, b, sl)
        return R0(v) if v is not None else None
    prom = []
    for sl in list(residual):
        es = promote(I, sl, residual, breaks, bval, depth, lv)
        if es is not None:
            prom.append((sl, es))
            residual[residual.index(sl):residual.index(sl) + 1] = es
            pv = Ar(sl.init.dims, sl.init.enum, dict(sl.init.el), sl.init.kind)
            for e in es:
                pv.el[e.key] = select(ap(e.ind), ap(e.mu), sl.init.el[e.key])
            reps.append((sl, pv))
    # slots that only ever change when the loop is left
    exits = []
    if breaks and not rets and not T.dead:
        for sl in list(residual):
            if sl.kind == 's' and not isinstance(sl, Elem) and sl.next is ap(sl.mu):
                vs = [bval(b, sl) for b in breaks]
                if all(isinstance(v, Poly) and v is vs[0] for v in vs) and is_const(vs[0]):
                    exits.append((sl, vs[0]))
                    residual.remove(sl)
                    reps.append((sl, sl.init))
    # fold breaks: state at break joins as next, with a stop flag
    stop = ZERO
    nexts = {}
    for sl in residual:
        if isinstance(sl, Elem):
            x = R0(sl.parent.next)
            sl.next = sl.of(x)
        elif sl.next is not None:
            sl.next = R0(sl.next)
        nexts[sl.name] = sl.next
    if reps:
        cond = R0(cond)
        for e in evs:
            e.pc = tuple(T0(p) for p in e.pc)
            e.args = T0(e.args)
        retro_recs(I, nrec, T0)
    if breaks:
        Tj = T.fork() if not T.dead else None
        states = [(R0(rel(b.pc, base)), b) for b in breaks]
        for c, b in states:
            stop = b_or(stop, c)
        for sl in residual:
            cur = sl.next
            for c, b in reversed(states):
                v = bval(b, sl)
                if v is None:
                    continue
                if cur is None:
                    cur = v
                elif isinstance(v, Poly) and isinstance(cur, Poly):
                    cur = select(c, v, cur)
                elif isinstance(v, Ar) and isinstance(cur, Ar) and v.dims == cur.dims and v.enum == cur.enum:
                    cur = Ar(v.dims, v.enum, {q: select(c, v.el[q], cur.el[q]) for q in v.el}, v.kind)
            nexts[sl.name] = cur
    for r in rets:
        stop = b_or(stop, R0(rel(r[0], base)))
    heads = ('loop', N if N is not None else ('k', 'while'), cond, stop)
    # canonical slot naming
    enc = []
    for sl in residual:
        i = sl.init
        if isinstance(i, Poly):
            key = (0, i.id, sl.name)
        elif isinstance(i, Ar):
            key = (1, min((p.id for p in i.el.values()), default=0), sl.name)
        else:
            key = (2, 0, sl.name)
        enc.append((key, sl))
    enc.sort(key=lambda t: t[0])
    ren = {}
    for j, (key, sl) in enumerate(enc):
        ren[sl.mu] = ap(mu_atom(depth, 's%d' % j, 'bool' in sl.mu.flags, 'int' in sl.mu.flags))
    def R(x):
        return sub_arg(x, ren)
    def encslot(sl):
        i, nx = sl.init, nexts[sl.name]
        if isinstance(i, Poly):
            return ('s', R(i) if False else i, R(nx) if isinstance(nx, Poly) else ('k', 'none'))
        if isinstance(i, Ar):
            return ('a', arr_enc(i), arr_enc(subst_val(nx, ren)) if isinstance(nx, Ar) else ('k', 'none'))
        e = I._encq(i)
        return ('o', e, R(I._encq(nx)) if nx is not None else ('k', 'none'))
    body = tuple(encslot(sl) for key, sl in enc)
    bound = (lv,) + tuple(single_atom(ren[sl.mu]) for key, sl in enc)
    hd = tuple(R(h) for h in heads)
    # dependencies closure per slot keeps unrelated slots out
    deps = {}
    for j, (key, sl) in enumerate(enc):
        deps[j] = {jj for jj, (k2, s2) in enumerate(enc) if any(single_atom(ren[s2.mu]) in p.deps for p in P._iter_polys(body[j][2:]))}
    hdeps = {jj for jj, (k2, s2) in enumerate(enc) if any(single_atom(ren[s2.mu]) in p.deps for p in P._iter_polys(hd))}
    # transitive closure including dead slots
    dead = T.dead and not breaks

    def closure(j):
        seen = {j}
        todo = [j] + list(hdeps)
        while todo:
            x = todo.pop()
            seen.add(x)
            for y in deps[x]:
                if y not in seen:
                    todo.append(y)
        return sorted(seen)

    def renumber(cl, j):
        """the slots a term needs, numbered among themselves"""
        rn, nb = {}, []
        for k, x in enumerate(cl):
            m = bound[1 + x]
            b = atom('mu', (m.args[0], 's%d' % k) + m.args[2:], m.flags)
            nb.append(b)
            if b is not m:
                rn[m] = ap(b)
        bb = (lv,) + tuple(nb)
        if not rn:
            return bb, hd, tuple((b.args[1],) + body[x] for b, x in zip(nb, cl)), 's%d' % j if j is not None else None
        return (bb, sub_arg(hd, rn), tuple((b.args[1],) + sub_arg(body[x], rn) for b, x in zip(nb, cl)),
                's%d' % cl.index(j) if j is not None else None)

    def term(j):
        return renumber(closure(j), j)

    finals = {}
    for j, (key, sl) in enumerate(enc):
        bb, h, sb, nm = term(j)
        flags = ('bool',) if (sl.kind == 's' and sl.mu._isb) else ()
        if sl.kind == 's':
            p = ap(atom('eta', (bb, nm, h, sb), flags))
            finals[sl.name] = Sc(p, sl.vk)
        elif sl.kind == 'a':
            nx = nexts[sl.name]
            dims = sl.init.dims
            finals[sl.name] = V.mk(dims, (lambda bb, nm, h, sb, fl: lambda idx: ap(atom('eta', (bb, nm, h, sb) + tuple(idx), fl)))(
                bb, nm, h, sb, ('bool',) if sl.init.kind == 'b' else ()), sl.init.kind, sl.init.enum)
        else:
            finals[sl.name] = Sc(ap(atom('eta', (bb, nm, h, sb))), 'o')
    # was the loop left by a break, and in which iteration
    stopped = left = None
    I.loop_stopped = None if rets else ZERO
    if breaks and not rets:
        cl = set()
        for x in hdeps:
            cl |= set(closure(x))
        bb, h, sb, _ = renumber(sorted(cl), None)
        stopped = ap(atom('eta', (bb, 'stop', h, sb), ('bool',)))
        I.loop_stopped = stopped
        if N is not None:
            left = ap(atom('eta', (bb, 'it', h, sb), ('int', 'nonneg')))
    fin = {}
    for sl, v in exits:
        fin[sl.name] = select(stopped, v, sl.init)
    for sl, es in prom:
        f = Ar(sl.init.dims, sl.init.enum, dict(sl.init.el), sl.init.kind)
        for e in es:
            f.el[e.key] = select(ap(e.ind), finals[e.name].p, sl.init.el[e.key])
        fin[sl.name] = f
    for sl in slots:
        if sl.name in fin:
            f = fin[sl.name]
        elif sl.name in finals and sl in residual:
            f = finals[sl.name]
        else:
            f = sl.final if sl.res is True else (sl.res(N) if callable(sl.res) and N is not None else None)
            if callable(sl.res) and left is not None:
                vs = [bval(b, sl) for b in breaks]
                if all(v is vs[0] for v in vs) and isinstance(vs[0], Poly) and not any(b in vs[0].deps for b in bound[1:]) \
                        and not any(o.mu in vs[0].deps for o in slots):
                    f = select(stopped, subst(vs[0], {lv: left}), f)
                else:
                    I.note('counter of a loop left by a break', node)
        if sl.var is not None:
            if isinstance(f, Poly):
                f = Sc(f, sl.vk)
            if isinstance(f, (Ar, LstC)):
                f = Ref(I.newcell(S, f))
            S.vars[sl.var] = f if f is not None else Undef(sl.var)
        else:
            if isinstance(f, Sc):
                f = ObjC(f.p)
            S.heap[sl.cell] = f
            I.stores.setdefault(sl.cell, []).append((I.frames[-1].mod, node))
    # temporaries: value in the last iteration, as a fixpoint expression
    done = {sl.var for sl in slots}
    src = T if not T.dead else (breaks[-1] if breaks else None)
    allj = tuple(range(len(enc)))
    for nm in names:
        if nm in done or src is None:
            continue
        v = src.vars.get(nm)
        if v is None or isinstance(v, Undef):
            continue
        if isinstance(v, Ref) and v.cell in S.heap:
            S.vars[nm] = v
            continue
        c = I.content(src, v)
        if left is not None and src is T and isinstance(c, Sc):
            p = R0(c.p)
            bs = [b.vars.get(nm) for b in breaks]
            if all(isinstance(x, Sc) and R0(x.p) is p for x in bs) and not any(o.mu in p.deps for o in slots + residual):
                S.vars[nm] = Sc(select(stopped, subst(p, {lv: left}), subst(p, {lv: sub(N, ONE)})), c.kind)
                continue

        def last(p):
            q = R(R0(p))
            if not any(b in q.deps for b in bound):
                return q
            tmp = ('t', ('k', 'none'), q)
            need = {jj for jj in allj if bound[1 + jj] in q.deps}
            cl = set()
            for x in need | hdeps:
                cl |= set(closure(x))
            cl = sorted(cl)
            bb = (lv,) + tuple(bound[1 + x] for x in cl)
            return ap(atom('eta', (bb, 't', hd, tuple((bound[1 + x].args[1],) + body[x] for x in cl) + (('t',) + tmp,))))
        if isinstance(c, Sc):
            S.vars[nm] = Sc(last(c.p), c.kind)
        elif isinstance(c, Ar):
            base_e = V.lam_arg(c)
            q = base_e if isinstance(base_e, Poly) else app('ext:arr', (base_e,))
            t = last(q)
            S.vars[nm] = Ref(I.newcell(S, V.mk(tuple(subst(d, ren) for d in c.dims), lambda idx: app('rd', (t,) + tuple(idx)), c.kind, c.enum)))
        elif isinstance(c, K):
            S.vars[nm] = c
        else:
            S.vars[nm] = Sc(last(q) if isinstance((q := I._encq(c)), Poly) else app('ext:tuple', (q,)), 'o')
    retro_events(I, evs, ren)
    retro_recs(I, nrec, lambda x: sub_arg(x, ren))
    rec.N, rec.cond, rec.stop = N, hd[2], hd[3]
    rec.slots = [[bound[1 + j], sl.name] + list(body[j]) for j, (key, sl) in enumerate(enc)]
    for pc, v, h in rets:
        pass


def arr_enc(a):
    free = [IX[q] for q in range(a.nd) if q not in a.enum]
    keys = sorted(a.el)
    bodies = [a.el[q] for q in keys]
    if free:
        b = tuple(atom('bv', (100 + i,), ('int', 'nonneg')) for i in range(len(free)))
        mp = {x: ap(y) for x, y in zip(free, b)}
        bodies = [subst(p, mp) for p in bodies]
        return ap(atom('lam', (b, tuple(a.dims), tuple(bodies))))
    return ('arr', tuple(a.dims), tuple(bodies))


# ------------------------------------------------------------------ comprehensions
def comprehension(I, n, S):
    if len(n.generators) == 1:
        g = n.generators[0]
        v = I.eval(g.iter, S)
        v = I.bindable(S, v) if not isinstance(v, SeqIter) else v
        items = iter_items(I, S, v) if not isinstance(v, SeqIter) else None
        saved = dict(S.vars)
        if items is not None:
            out = []
            lists = None
            for it in items:
                I.assign_to(g.target, it, S)
                c = ONE
                for cnd in g.ifs:
                    c = b_and(c, I.truth(S, I.eval(cnd, S)))
                if c is ZERO:
                    continue
                x = I.bindable(S, I.eval(n.elt, S))
                if c is ONE:
                    out.append(x)
                else:
                    out.append(Gv(c, x, Undef('filtered')))
                    I.note('conditional comprehension', n)
            S.vars = saved
            return LstC(out)
        depth = I.loop_depth
        I.loop_depth += 1
        try:
            lv = atom('lv', (depth,), ('int', 'nonneg'))
            N, item = sequence(I, S, v)
            I.assign_to(g.target, item(S, ap(lv)), S)
            c = ONE
            for cnd in g.ifs:
                c = b_and(c, I.truth(S, I.eval(cnd, S)))
            x = I.bindable(S, I.eval(n.elt, S))
            xc = I.content(S, x)
        finally:
            I.loop_depth -= 1
            S.vars = saved
        if isinstance(xc, Sc):
            if c is ONE:
                return V.mk((N,), lambda idx: subst(xc.p, {lv: idx[0]}), xc.kind, ())
            n2 = V.b_count(c, N, lv)
            return V.mk((n2,), lambda idx: subst(xc.p, {lv: V.b_nth(c, N, idx[0], lv)}), xc.kind, ())
        if isinstance(xc, Ar) and xc.nd == 1 and c is ONE and lv not in xc.dims[0].deps:
            return V.mk((N,) + xc.dims, lambda idx: subst(at(xc, [idx[1]]), {lv: idx[0]}), xc.kind)
        e = I.enc(S, x)
        b, bd = V.close(e if isinstance(e, Poly) else app('ext:tuple', (e,)), [lv])
        return I.opq('comp', [('lamv', app('lam', (b, (N,), (bd, subst(c, {lv: ap(b[0])}))), bound=b))])
    return I.opq('comp', [])


def dict_comprehension(I, n, S):
    g = n.generators[0]
    v = I.eval(g.iter, S)
    v = I.bindable(S, v) if not isinstance(v, SeqIter) else v
    items = iter_items(I, S, v) if not isinstance(v, SeqIter) else None
    saved = dict(S.vars)
    if items is None:
        return I.opq('dictcomp', [])
    out = {}
    for it in items:
        I.assign_to(g.target, it, S)
        skip = False
        for cnd in g.ifs:
            c = I.truth(S, I.eval(cnd, S))
            if c is ZERO:
                skip = True
        if skip:
            continue
        out[I.key(S, I.eval(n.key, S))] = I.bindable(S, I.eval(n.value, S))
    S.vars = saved
    return DctC(None, out)
