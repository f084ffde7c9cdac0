"""Abstract interpreter: python source (syntax tree) -> canonical value graph.

Nothing of the analysed program is executed.  Function bodies are walked once;
branches are joined with guarded values, loops become either pointwise array
definitions, reductions, or fixpoint ('eta') terms, and calls to functions of the
package are inlined (or summarised when listed as opaque).
"""
import ast
import warnings
from . import frames
import os
import warnings
warnings.simplefilter('ignore', SyntaxWarning)
from fractions import Fraction as F
from . import poly as P
from .poly import (Poly, IX, IXP, ZERO, ONE, NAN, const, const_val, is_const, ap,
                   add, sub, mul, neg, select, subst, app, atom, ge, gt, eq,
                   b_and, b_or, b_not, single_atom, atoms_of, indicator, assign,
                   div, ppow, power, scale, isnan)
from .values import *
from . import values as V


class Unsupported(Exception):
    pass


class AnalysisError(Exception):
    pass


class Module(object):
    def __init__(self, name, path, pkg, script=False):
        self.name = name
        self.path = path
        self.pkg = pkg
        with open(path, 'rb') as f:
            self.src = f.read().decode('utf-8')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = Spelling().visit(ast.parse(self.src, path))
        self.g = {}
        self.defs = {}
        if script:
            # the statements of a script form the body of one function
            self.g['__name__'] = ('expr', ast.copy_location(ast.Constant('__main__'), ast.Pass(lineno=1, col_offset=0)))
            for n in self.tree.body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._top(n)
            body = [n for n in self.tree.body if not isinstance(n, (ast.Import, ast.ImportFrom))]
            f = ast.parse('def script():\n    pass').body[0]
            f.body = body or f.body
            self.defs['script'] = f
            return
        for n in self.tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.defs[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names:
                nm = a.asname or a.name.split('.')[0]
                self.g[nm] = ('import', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.g[a.asname or a.name] = ('from', ('.' * n.level) + (n.module or ''), a.name)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.g[t.id] = ('expr', n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.g[n.target.id] = ('expr', n.value)
        elif isinstance(n, (ast.If, ast.Try)):
            for b in n.body:
                self._top(b)

    def line(self, n):
        return getattr(n, 'lineno', 0)


class Package(object):
    """the modules of one source tree"""

    def __init__(self, root, name='hapuamod', extra=()):
        self.root = root
        self.name = name
        self.mods = {}
        d = os.path.join(root, name) if name else root
        if not os.path.isdir(d):
            raise AnalysisError('package folder %s is missing' % d)
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                m = f[:-3]
                self.mods[m] = Module(m, os.path.join(d, f), self, m == '__main__')
        for f in extra:
            p = os.path.join(root, f)
            if os.path.exists(p):
                m = os.path.basename(f)[:-3]
                self.mods[m] = Module(m, p, self, True)

    def resolve_import(self, spec):
        """-> ('mod', name) or ('ext', dotted)"""
        parts = spec.split('.')
        if parts[0] == self.name and self.name:
            if len(parts) == 1:
                return ('pkg', None)
            if parts[1] in self.mods:
                if len(parts) == 2:
                    return ('mod', parts[1])
                return ('attr', parts[1], parts[2:])
            return ('ext', spec)
        if parts[0] in self.mods and len(parts) == 1 and spec in self.mods and spec not in ('out',) or \
                (parts[0] in self.mods and not self.name):
            return ('mod', parts[0])
        return ('ext', spec)


class St(object):
    __slots__ = ('vars', 'heap', 'pc', 'dead')

    def __init__(self, vars, heap, pc, dead=False):
        self.vars, self.heap, self.pc, self.dead = vars, heap, pc, dead

    def fork(self, c=None):
        return St(dict(self.vars), dict(self.heap), self.pc + ((c,) if c is not None else ()), self.dead)

    def take(self, o):
        self.vars, self.heap, self.pc, self.dead = o.vars, o.heap, o.pc, o.dead


class Frame(object):
    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod
        self.returns = []
        self.loops = []


class Spelling(ast.NodeTransformer):
    """`while True: if c: break; ...` is `while not c: ...`"""

    def visit_While(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Constant) and n.test.value and not n.orelse and len(n.body) > 1:
            h = n.body[0]
            if isinstance(h, ast.If) and len(h.body) == 1 and isinstance(h.body[0], ast.Break) and not h.orelse:
                n.test = ast.copy_location(ast.UnaryOp(ast.Not(), h.test), h.test)
                n.body = n.body[1:]
        return n


class Event(object):
    __slots__ = ('kind', 'pc', 'args', 'node', 'mod', 'seq', 'stage')

    def __init__(self, kind, pc, args, node, mod, seq):
        self.kind, self.pc, self.args, self.node, self.mod, self.seq = kind, pc, args, node, mod, seq

    def where(self):
        return '%s:%d' % (self.mod.name if self.mod else '?', getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return 'Ev(%s %s @%s)' % (self.kind, self.args, self.where())


ALIASES = {'numpy.bool8': 'numpy.bool_', 'numpy.absolute': 'numpy.abs'}


class Interp(object):
    def __init__(self, pkg, opaque=(), config=None):
        self.pkg = pkg
        self.opaque = dict(opaque) if isinstance(opaque, dict) else {k: None for k in opaque}
        self.cfg = config or {}
        self.frames_on = bool(self.cfg.get('frames'))
        self.events = []
        self.looprecs = []
        self.ncell = 0
        self.cellinfo = {}
        self.frames = []
        self.notes = []         # imprecision notes
        self.stores = {}        # cell -> list of (mod,node)
        self.ctr = 0
        self.loop_depth = 0
        self.inlined = set()
        self.callsites = 0
        self.defs = {}
        self.stage = frozenset()       # properties the reference model is about at this point
        self.stages = {}               # definition -> stage
        self.made = {}                 # definition -> where the code makes it
        self.at = None
        self.calls = []
        self.tracks = None
        self.undef_uses = []
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ utilities
    def note(self, msg, node=None):
        m = self.frames[-1].mod.name if self.frames else '?'
        self.notes.append('%s:%s: %s' % (m, getattr(node, 'lineno', '?'), msg))

    def newcell(self, S, content, info=None):
        self.ncell += 1
        c = self.ncell
        S.heap[c] = content
        if info:
            self.cellinfo[c] = info
        return c

    def event(self, S, kind, args, node=None):
        fr = self.frames[-1] if self.frames else None
        ev = Event(kind, S.pc, args, node, fr.mod if fr else None, len(self.events))
        ev.stage = self.stage
        self.events.append(ev)

    def composed(self):
        """the events with a column stored again straight after a store as one store of the composed value"""
        out = []
        for e in self.events:
            if e.kind == 'setattr' and isinstance(e.args[2], Poly) and self.tabular(e.args[0]):
                k = len(out) - 1
                while k >= 0 and out[k].kind == 'call' and 'logging' in str(out[k].args[0]):
                    k -= 1
                o = out[k] if k >= 0 else None
                if o is not None and o.kind == 'setattr' and o.args[:2] == e.args[:2] and o.pc is e.pc and isinstance(o.args[2], Poly):
                    here = single_atom(app('attr', (e.args[0], e.args[1])))
                    v = P.map_atoms(e.args[2], lambda a: o.args[2] if a is here else None, {})
                    n = Event('setattr', e.pc, (e.args[0], e.args[1], v), e.node, e.mod, o.seq)
                    n.stage = o.stage
                    out[k] = n
                    continue
            out.append(e)
        return out

    def opq(self, op, args, kind='o', flags=()):
        """uninterpreted result"""
        enc = []
        for a in args:
            e = V.lam_arg(a) if isinstance(a, (Val, Poly)) else a
            enc.append(e)
        return Sc(app('ext:' + op, tuple(enc), flags), kind)

    # ------------------------------------------------------------ materialise
    def content(self, S, v):
        """Ref -> content (Ar etc.), others unchanged"""
        while isinstance(v, Ref):
            c = S.heap.get(v.cell)
            for view in v.views:
                c = V.sel_read(c, view)
                if isinstance(c, Poly):
                    c = Sc(c, 'n')
            return c
        return v

    def arr(self, S, v):
        """value as Ar or Poly for elementwise computing"""
        v = self.content(S, v)
        if isinstance(v, Ar) and not v.dims:
            return v.el[()]
        if isinstance(v, (Ar, Poly)):
            return v
        if isinstance(v, Sc):
            return v.p
        if isinstance(v, K):
            return self.kpoly(v)
        if isinstance(v, (Tup, LstC)):
            return self.seq_to_ar(S, v.items)
        if isinstance(v, Gv):
            a, b = self.arr(S, v.a), self.arr(S, v.b)
            if isinstance(a, Poly) and isinstance(b, Poly):
                return select(v.c, a, b)
            return V.elementwise(lambda x, y: select(v.c, x, y), [a, b])
        if isinstance(v, Undef):
            self.undef_uses.append(v.name)
            return ap(atom('undefvar', (v.name,)))
        return self.enc(S, v) if not isinstance(self.enc(S, v), tuple) else app('ext:tuple', (self.enc(S, v),))

    def kpoly(self, v):
        if v.v is None:
            return ap(atom('none'))
        if isinstance(v.v, str):
            return ap(atom('str', (v.v,)))
        return ap(atom('k', (repr(v.v),)))

    def seq_to_ar(self, S, items):
        items = [self.content(S, x) for x in items]
        if not items:
            return Ar((ZERO,), (0,), {})
        if all(isinstance(x, (Sc, K)) for x in items):
            ps = [self.arr(S, x) for x in items]
            kinds = {x.kind for x in items if isinstance(x, Sc)}
            if len(ps) <= ENUM_MAX:
                return Ar((const(len(ps)),), (0,), {(i,): p for i, p in enumerate(ps)},
                          'b' if kinds == {'b'} else 'n')
            r = ps[-1]
            for i in range(len(ps) - 2, -1, -1):
                r = select(eq(sub(IXP[0], const(i))), ps[i], r)
            return Ar((const(len(ps)),), (), {(): r})
        arrs = [self.arr(S, x) for x in items]
        if all(isinstance(x, Ar) for x in arrs) and len(arrs) <= ENUM_MAX:
            nd = max(x.nd for x in arrs)
            dims = (const(len(arrs)),) + arrs[0].dims
            return V.mk(dims, lambda idx: at(arrs[int(const_val(idx[0]))], idx[1:]) if is_const(idx[0])
                        else ap(atom('oob')), arrs[0].kind)
        return app('ext:seq', tuple(self.enc(S, x) for x in items))

    def enc(self, S, v):
        """canonical encoding of any value as an argument"""
        v = self.content(S, v)
        if isinstance(v, Sc):
            return v.p
        if isinstance(v, Poly):
            return v
        if isinstance(v, K):
            return self.kpoly(v)
        if isinstance(v, Ar):
            return V.lam_arg(v)
        if isinstance(v, (Tup, LstC)):
            return ('seq',) + tuple(self.enc(S, x) for x in v.items)
        if isinstance(v, SeqG):
            r = self.per_case(S, v, lambda x: self.seq_to_ar(S, x.items) if x.items and all(
                isinstance(self.content(S, i), Sc) for i in x.items) else Undef('list'))
            if isinstance(r, Ref) or isinstance(r, Ar):
                return ('arrseq', self.enc(S, r))
            return v.enc(self, S)
        if isinstance(v, Gd):
            return ('gd', v.g, self.enc(S, v.v))
        if type(v).__name__ == 'ListMark':
            return ap(v.mu)
        if isinstance(v, Slc):
            return ('slice', self.enc(S, v.a), self.enc(S, v.b), self.enc(S, v.s))
        if isinstance(v, DctC):
            its = tuple((repr(k), self.enc(S, x)) for k, x in sorted(v.items.items(), key=lambda t: repr(t[0])))
            return ('dict', v.base if v.base is not None else ('k', 'none')) + its
        if isinstance(v, ObjC):
            return v.p
        if isinstance(v, Ext):
            return ap(atom('extname', (v.name,)))
        if isinstance(v, Fn):
            return ap(atom('fn', (v.name,)))
        if isinstance(v, Cls):
            return ap(atom('cls', (v.name,)))
        if isinstance(v, Mod):
            return ap(atom('mod', (v.mod.name,)))
        if isinstance(v, Gv):
            a, b = self.enc(S, v.a), self.enc(S, v.b)
            if isinstance(a, Poly) and isinstance(b, Poly):
                return select(v.c, a, b)
            return ('gv', v.c, a, b)
        if isinstance(v, Undef):
            return ap(atom('undefvar', (v.name,)))
        if isinstance(v, Bound):
            return ('bound', self.enc(S, v.obj), v.attr)
        return ap(atom('val', (type(v).__name__,)))

    # ------------------------------------------------------------ truth
    def truth(self, S, v):
        v = self.content(S, v)
        if isinstance(v, Sc):
            if v.kind == 'b':
                p = v.p
            elif v.kind == 'o':
                p = self.truth_o(v.p)
            else:
                p = b_not(eq(v.p))
            return self.refine(S, p)
        if isinstance(v, K):
            return ONE if v.v else ZERO
        if isinstance(v, Ar):
            if v.nd == 0 or all(is_const(d) and const_val(d) == 1 for d in v.dims):
                return self.truth(S, Sc(at(v, [ZERO] * v.nd), v.kind))
            self.note('truth of array')
            return app('truth', (V.lam_arg(v),), ('bool',))
        if isinstance(v, (Tup, LstC)):
            return ONE if v.items else ZERO
        if isinstance(v, Gv):
            return self.refine(S, select(v.c, self.truth(S, v.a), self.truth(S, v.b)))
        if isinstance(v, DctC):
            if v.items:
                return ONE
            return ZERO if v.base is None else app('truth', (v.base,))
        if isinstance(v, ObjC):
            return app('truth', (v.p,))
        if isinstance(v, Undef):
            self.undef_uses.append(v.name)
            return ap(atom('truth', (ap(atom('undefvar', (v.name,))),)))
        return ONE

    def truth_o(self, p):
        a = single_atom(p)
        if a is not None and a._isb:
            return p
        if is_const(p):
            return b_not(eq(p))
        if p.inds:
            r = P._lift1(self.truth_o, p)
            if r is not None:
                return r
        if a is not None and a.op == 'none':
            return ZERO
        if a is not None and a.op == 'str':
            return ONE if a.args[0] else ZERO
        return app('truth', (p,), ('bool',))

    def refine(self, S, p):
        for c in S.pc:
            if not p.inds:
                break
            ind = indicator(c)
            if ind and ind[0] in p.inds:
                p = assign(p, ind[0], 1 if ind[1] else 0)
        return p

    # ------------------------------------------------------------ joins
    def merge_val(self, S, c, a, b, ha, hb):
        """value = a (heap ha) if c else b (heap hb)"""
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and a.views == b.views:
            return a
        if isinstance(a, K) and isinstance(b, K) and a.v == b.v and type(a.v) == type(b.v):
            return a
        if isinstance(a, Sc) and isinstance(b, Sc):
            k = a.kind if a.kind == b.kind else ('n' if 'n' in (a.kind, b.kind) else 'o')
            return Sc(select(c, a.p, b.p), k)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(S, c, x, y, ha, hb) for x, y in zip(a.items, b.items)])
        if isinstance(a, (Ext, Fn, Mod, Cls)) and type(a) == type(b) and \
                getattr(a, 'name', None) == getattr(b, 'name', None):
            return a
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca = self.content(St({}, ha, ()), a)
            cb = self.content(St({}, hb, ()), b)
            m = self.merge_content(S, c, ca, cb, ha, hb)
            if m is not None:
                return Ref(self.newcell(S, m))
        ra = self.content(St({}, ha, ()), a) if isinstance(a, Ref) else a
        rb = self.content(St({}, hb, ()), b) if isinstance(b, Ref) else b
        if isinstance(ra, Ar) and isinstance(rb, Ar):
            m = self.merge_content(S, c, ra, rb, ha, hb)
            if m is not None:
                return Ref(self.newcell(S, m))
        # scalar vs array: broadcast select is not the same object; keep gamma
        return Gv(c, a, b)

    def merge_content(self, S, c, a, b, ha, hb):
        if a is b:
            return a
        if isinstance(a, Ar) and isinstance(b, Ar) and a.nd == b.nd:
            dims = tuple(x if x is y else select(c, x, y) for x, y in zip(a.dims, b.dims))
            en = [k for k in range(a.nd) if k in a.enum and k in b.enum and a.dims[k] is b.dims[k]]
            return (self.adef if self.cfg.get('adef') else lambda x: x)(V.mk(dims, lambda idx: select(c, at(a, idx), at(b, idx)),
                        a.kind if a.kind == b.kind else 'n', tuple(en)))
        if isinstance(a, LstC) and isinstance(b, LstC):
            if marked(a) and marked(b) and a.items[0] is b.items[0]:
                return join_marked(c, a, b)
            if len(a.items) == len(b.items):
                return LstC([self.merge_val(S, c, x, y, ha, hb) for x, y in zip(a.items, b.items)])
            return None
        if isinstance(a, SeqG) or isinstance(b, SeqG):
            if isinstance(a, (SeqG, LstC)) and isinstance(b, (SeqG, LstC)):
                return SeqG(c, a, b)
            return None
        if isinstance(a, DctC) and isinstance(b, DctC) and a.base is b.base:
            keys = set(a.items) | set(b.items)
            items = {}
            for k in keys:
                x = a.items.get(k)
                y = b.items.get(k)
                if x is None:
                    x = self.dct_missing(a, k)
                if y is None:
                    y = self.dct_missing(b, k)
                items[k] = self.merge_val(S, c, x, y, ha, hb)
            return DctC(a.base, items, a.removed & b.removed)
        if isinstance(a, ObjC) and isinstance(b, ObjC):
            keys = set(a.attrs) | set(b.attrs)
            at_ = {}
            for k in keys:
                x = a.attrs.get(k, Undef(k) if a.p is None else Sc(app('attr', (a.p, k)), 'o'))
                y = b.attrs.get(k, Undef(k) if b.p is None else Sc(app('attr', (b.p, k)), 'o'))
                at_[k] = self.merge_val(S, c, x, y, ha, hb)
            return ObjC(select(c, a.p, b.p), at_)
        return None

    def dct_missing(self, d, k):
        if d.base is None or k in d.removed:
            return Undef('key %r' % (k,))
        return Sc(self.item_poly(d.base, k), 'o')

    def item_poly(self, base, k):
        return app('item', (base, k if not isinstance(k, str) else ('k', k)))

    def join(self, S, c, S1, S2, base_pc):
        if S1.dead and S2.dead:
            S.dead = True
            S.take(S1)
            S.dead = True
            S.pc = base_pc
            return
        if S1.dead:
            S.take(S2)
            return
        if S2.dead:
            S.take(S1)
            return
        heap = {}
        S.heap = heap
        for cell in S1.heap:
            if cell in S2.heap:
                a, b = S1.heap[cell], S2.heap[cell]
                if a is b:
                    heap[cell] = a
                else:
                    m = self.merge_content(S, c, a, b, S1.heap, S2.heap)
                    if m is None:
                        self.note('heap merge of %s/%s' % (type(a).__name__, type(b).__name__))
                        m = self.gv_content(S, c, a, b, S1.heap, S2.heap)
                    heap[cell] = m
            else:
                heap[cell] = S1.heap[cell]
        for cell in S2.heap:
            if cell not in heap:
                heap[cell] = S2.heap[cell]
        vs = {}
        for k in set(S1.vars) | set(S2.vars):
            a = S1.vars.get(k)
            b = S2.vars.get(k)
            if a is None:
                a = Undef(k)
            if b is None:
                b = Undef(k)
            if a is b:
                vs[k] = a
            elif isinstance(a, Undef) and isinstance(b, Undef):
                vs[k] = a
            else:
                vs[k] = self.merge_val(S, c, a, b, S1.heap, S2.heap)
        S.vars = vs
        # path condition: common prefix, or the disjunction when returns happened inside
        S.pc = self.join_pc(S1.pc, S2.pc, base_pc, c)
        S.dead = False

    def join_pc(self, p1, p2, base, c):
        n = len(base)
        e1, e2 = p1[n:], p2[n:]
        if len(e1) <= 1 and len(e2) <= 1:
            return base
        r1 = r2 = ONE
        for x in e1:
            r1 = b_and(r1, x)
        for x in e2:
            r2 = b_and(r2, x)
        d = b_or(r1, r2)
        if d is ONE:
            return base
        return base + (d,)

    def gv_content(self, S, c, a, b, ha, hb):
        if isinstance(a, LstC) and isinstance(b, LstC):
            # symbolic-length list: keep as guarded sequence
            return SeqG(c, a, b)
        return ObjC(app('ext:merge', (c, self._encq(a), self._encq(b))))

    def _encq(self, a):
        try:
            r = self.enc(St({}, {}, ()), a)
        except Exception:
            r = ap(atom('val', (type(a).__name__,)))
        return r

    def per_case(self, S, v, f):
        """f of a list whose items depend on conditions, case by case"""
        if not isinstance(v, SeqG):
            return f(v)
        a, b = self.bindable(S, self.per_case(S, v.a, f)), self.bindable(S, self.per_case(S, v.b, f))
        return self.merge_val(S, v.c, a, b, S.heap, S.heap)

    # ------------------------------------------------------------ functions
    def call_fn(self, S, fn, args, kwargs, node=None):
        if len(self.frames) > 40:
            raise Unsupported('recursion too deep in %s' % fn.name)
        if sum(1 for f in self.frames if f.fn is fn.node) > 2:
            self.note('recursion on %s' % fn.name, node)
            return self.opq('rec:' + fn.name, [self.enc(S, a) for a in args])
        fr = Frame(fn.node, fn.mod)
        self.inlined.add((fn.mod.name, fn.node.name if hasattr(fn.node, 'name') else '<lambda>'))
        vs = self.bind(S, fn, args, kwargs)
        old_vars, old_pc = S.vars, S.pc
        S.vars = vs
        self.frames.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                r = self.eval(fn.node.body, S)
                return r
            self.exec_block(fn.node.body, S)
            if not S.dead:
                fr.returns.append((S.pc, NONE, S.heap))
            return self.finish_returns(S, fr, old_pc)
        finally:
            self.frames.pop()
            S.vars = old_vars
            S.pc = old_pc

    def finish_returns(self, S, fr, base_pc):
        if not fr.returns:
            S.dead = True
            return NONE
        n = len(base_pc)
        rets = fr.returns
        pc, val, heap = rets[-1]
        heap = dict(heap)
        for pc1, v1, h1 in reversed(rets[:-1]):
            c = ONE
            for x in pc1[n:]:
                c = b_and(c, x)
            T = St({}, None, base_pc)
            S1, S2 = St({'r': v1}, dict(h1), base_pc), St({'r': val}, heap, base_pc)
            self.join(T, c, S1, S2, base_pc)
            val, heap = T.vars['r'], T.heap
        S.heap = heap
        S.dead = False
        return val

    def bind(self, S, fn, args, kwargs):
        a = fn.node.args
        vs = {}
        if fn.closure is not None:
            vs.update(fn.closure)
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for i, nm in enumerate(names):
            if i < len(args):
                vs[nm] = args[i]
            elif nm in kwargs:
                vs[nm] = kwargs.pop(nm)
            else:
                j = i - (len(names) - len(a.defaults))
                if j >= 0:
                    vs[nm] = self.with_globals(fn, S, a.defaults[j])
                else:
                    vs[nm] = Undef(nm)
        if a.vararg:
            vs[a.vararg.arg] = Tup(args[len(names):])
        elif len(args) > len(names):
            self.note('too many arguments to %s' % fn.name)
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kwargs:
                vs[x.arg] = kwargs.pop(x.arg)
            elif a.kw_defaults[i] is not None:
                vs[x.arg] = self.with_globals(fn, S, a.kw_defaults[i])
            else:
                vs[x.arg] = Undef(x.arg)
        if a.kwarg:
            vs[a.kwarg.arg] = Ref(self.newcell(S, DctC(None, dict(kwargs))))
        elif kwargs:
            self.note('unknown keyword %s to %s' % (sorted(kwargs), fn.name))
            self.event(S, 'badcall', (fn.name,) + tuple(sorted(kwargs)))
        return vs

    def with_globals(self, fn, S, expr):
        self.frames.append(Frame(fn.node, fn.mod))
        try:
            old = S.vars
            S.vars = {}
            r = self.eval(expr, S)
            S.vars = old
            return r
        finally:
            self.frames.pop()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, S):
        for st in stmts:
            if S.dead:
                return
            m = getattr(self, 'x_' + type(st).__name__, None)
            if m is None:
                self.note('unsupported statement %s' % type(st).__name__, st)
                continue
            self.at = st
            m(st, S)

    def x_Expr(self, n, S):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, S)

    def x_Pass(self, n, S):
        pass

    def x_Assign(self, n, S):
        v = self.eval(n.value, S)
        for t in n.targets:
            self.assign_to(t, v, S)

    def x_AnnAssign(self, n, S):
        if n.value is not None:
            self.assign_to(n.target, self.eval(n.value, S), S)

    def x_AugAssign(self, n, S):
        op = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            cur = self.lookup(n.target.id, S, n)
            rhs = self.eval(n.value, S)
            if isinstance(cur, Ref):
                cc = self.content(S, cur)
                if isinstance(cc, Ar):
                    r = self.binop(op, cur, rhs, S, n)
                    rc = self.content(S, r)
                    self.write_ref(S, cur, rc, n)
                    return
                if isinstance(cc, (LstC, SeqG)) and op == 'Add':
                    other = self.content(S, rhs)
                    if isinstance(other, (LstC, Tup, SeqG, Ar)):
                        self.lib.method(self, S, cur, 'extend', [rhs], {}, n)
                        return
            S.vars[n.target.id] = self.bindable(S, self.binop(op, cur, rhs, S, n))
            return
        if isinstance(n.target, ast.Subscript):
            obj = self.eval(n.target.value, S)
            idx = self.eval_index(n.target.slice, S)
            rhs = self.eval(n.value, S)
            self.store_index(S, obj, idx, rhs, n, op)
            return
        if isinstance(n.target, ast.Attribute):
            obj = self.eval(n.target.value, S)
            cur = self.getattr_(S, obj, n.target.attr, n)
            rhs = self.eval(n.value, S)
            self.setattr_(S, obj, n.target.attr, self.binop(op, cur, rhs, S, n), n)

    def bindable(self, S, v):
        if isinstance(v, Ar):
            return Ref(self.newcell(S, v))
        if isinstance(v, (LstC, DctC, ObjC)):
            return Ref(self.newcell(S, v))
        if isinstance(v, Poly):
            return Sc(v)
        if isinstance(v, Tup):
            return Tup([self.bindable(S, x) for x in v.items])
        return v

    def adef(self, c):
        """name the big element expressions of an array (see poly.adefine)"""
        return Ar(c.dims, c.enum, {k: self.name_body(p) for k, p in c.el.items()}, c.kind)

    def name_body(self, p):
        if P.lead_neg(p) and big_body(p):
            return P.neg(self.name_body(P.neg(p)))
        r = P.adefine(p, big_body)
        if r is not p:
            n = P.single_atom(r).args[0]
            if n not in self.defs:
                self.defs[n] = len(self.defs)
                self.stages[n] = self.stage
                self.made[n] = getattr(self.at, 'lineno', 0)
            if self.cfg.get('match') is not None and len(P.MAXOF.get(p, ())) < 3:
                r = self.cfg['match'](r)
            if p in P.MAXOF:          # known by what it is the largest of, not by the order of comparison
                P.MAXOF.setdefault(r, P.MAXOF[p])
        return r

    def abbreviate(self, S, v):
        """name the big element expressions of an array"""
        if self.cfg.get('adef'):
            if isinstance(v, Ref) and not v.views:
                c = S.heap.get(v.cell)
                if isinstance(c, Ar):
                    S.heap[v.cell] = self.adef(c)
            elif isinstance(v, Sc) and not v.p.deps and big_body(v.p):
                v.p = self.name_body(v.p)
            return
        if isinstance(v, Ref) and not v.views:
            c = S.heap.get(v.cell)
            if isinstance(c, Ar) and c.kind != 'b' and any(len(p.terms) > 100 for p in c.el.values()):
                S.heap[v.cell] = Ar(c.dims, c.enum, {k: P.define(p) if len(p.terms) > 100 else p
                                                     for k, p in c.el.items()}, c.kind)

    def assign_to(self, t, v, S):
        if isinstance(t, ast.Name):
            S.vars[t.id] = self.bindable(S, v)
            self.abbreviate(S, S.vars[t.id])
            if self.tracks is not None:
                self.tracks(S, t, S.vars[t.id], self.frames[-1])
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(S, v, len(t.elts), t)
            for x, y in zip(t.elts, items):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign_to(x, y, S)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, S)
            idx = self.eval_index(t.slice, S)
            self.store_index(S, obj, idx, v, t)
        elif isinstance(t, ast.Attribute):
            self.setattr_(S, self.eval(t.value, S), t.attr, v, t)
        elif isinstance(t, ast.Starred):
            self.assign_to(t.value, v, S)

    def unpack(self, S, v, n, node):
        c = self.content(S, v)
        if isinstance(c, (Tup, LstC)):
            if len(c.items) == n:
                return c.items
            self.event(S, 'badunpack', (len(c.items), n), node)
            return [Undef('unpack')] * n
        if isinstance(c, Ar):
            return [self.wrap(S, V.sel_read(c, [('at', const(i))] + self.full_sels(c, 1)), c.kind) for i in range(n)]
        if isinstance(c, Gv):
            a = self.unpack(S, c.a, n, node)
            b = self.unpack(S, c.b, n, node)
            return [self.merge_val(S, c.c, x, y, S.heap, S.heap) for x, y in zip(a, b)]
        p = self.arr(S, c)
        return [Sc(app('item', (p, const(i))), 'o') for i in range(n)]

    def wrap(self, S, x, kind='n'):
        if isinstance(x, Poly):
            return Sc(x, kind)
        return x

    def x_Return(self, n, S):
        v = self.eval(n.value, S) if n.value is not None else NONE
        v = self.bindable(S, v)
        self.frames[-1].returns.append((S.pc, v, dict(S.heap)))
        S.dead = True

    def x_If(self, n, S):
        if len(n.body) == 1 and not n.orelse and isinstance(n.body[0], ast.Raise):
            e = n.body[0].exc
            e = e.func if isinstance(e, ast.Call) else e
            if isinstance(e, ast.Name) and e.id == 'AssertionError':      # an assertion spelled out
                for cond in self.disjuncts(n.test):
                    self.event(S, 'assert', (b_not(self.truth(S, self.eval(cond, S))),), n)
                return
        c = self.truth(S, self.eval(n.test, S))
        if self.cfg.get('adef') and not c.deps and big_body(c):
            c = self.name_body(c)
        if is_const(c):
            self.exec_block(n.body if const_val(c) else n.orelse, S)
            return
        base = S.pc
        S1, S2 = S.fork(c), S.fork(b_not(c))
        self.exec_block(n.body, S1)
        self.exec_block(n.orelse, S2)
        self.join(S, c, S1, S2, base)

    def x_Assert(self, n, S):
        # evaluate message lazily: it has no effect
        for cond in self.conjuncts(n.test):
            c = self.truth(S, self.eval(cond, S))
            self.event(S, 'assert', (c,), n)

    def conjuncts(self, t):
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            r = []
            for v in t.values:
                r += self.conjuncts(v)
            return r
        return [t]

    def disjuncts(self, t):
        """conditions whose negations together are the negation of t"""
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
            return [c for v in t.values for c in self.disjuncts(v)]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            cs = self.conjuncts(t.operand)
            if len(cs) > 1:
                return [ast.copy_location(ast.UnaryOp(ast.Not(), v), v) for v in cs]
        return [t]

    def x_Raise(self, n, S):
        nm = '?'
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                e = e.func
            nm = e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', '?')
        self.event(S, 'raise', (nm,), n)
        S.dead = True

    def x_Import(self, n, S):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            S.vars[nm] = self.import_val(a.name if a.asname else a.name.split('.')[0])

    def x_ImportFrom(self, n, S):
        for a in n.names:
            S.vars[a.asname or a.name] = self.import_from('.' * n.level + (n.module or ''), a.name)

    def x_Global(self, n, S):
        self.note('global statement', n)
        self.event(S, 'global', tuple(n.names), n)

    x_Nonlocal = x_Global

    def x_FunctionDef(self, n, S):
        S.vars[n.name] = Fn(n, self.frames[-1].mod, n.name, S.vars)

    def x_ClassDef(self, n, S):
        S.vars[n.name] = Cls(n, self.frames[-1].mod, n.name)

    def x_Delete(self, n, S):
        for t in n.targets:
            if isinstance(t, ast.Name):
                S.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, S)
                idx = self.eval_index(t.slice, S)
                self.del_index(S, obj, idx, t)

    def del_index(self, S, obj, idx, n):
        c = self.content(S, obj)
        if isinstance(c, DctC) and isinstance(obj, Ref) and len(idx) == 1 and isinstance(idx[0], K):
            it = dict(c.items)
            it.pop(idx[0].v, None)
            S.heap[obj.cell] = DctC(c.base, it, c.removed | {idx[0].v})
            return
        self.event(S, 'delitem', (self.enc(S, obj),) + tuple(self.enc(S, i) for i in idx), n)

    def x_With(self, n, S):
        objs = []
        for it in n.items:
            v = self.eval(it.context_expr, S)
            v = self.bindable(S, v)
            objs.append((v, it))
            if it.optional_vars is not None:
                self.assign_to(it.optional_vars, v, S)
        self.exec_block(n.body, S)
        if not S.dead:
            for v, it in objs:
                c = self.content(S, v)
                if isinstance(c, (Sc, ObjC)):
                    self.event(S, 'call', ('close', self.enc(S, v)), n)

    def x_Try(self, n, S):
        base = S.pc
        pre = S.fork()
        n_ev = len(self.events)
        S1 = S.fork()
        self.exec_block(n.body, S1)
        evs = self.events[n_ev:]
        self.exec_block(n.orelse, S1)
        if n.handlers:
            key = []
            for e in evs:
                if e.kind in ('call', 'extcall'):
                    key.append(e.args[0] if isinstance(e.args[0], str) else '?')
            ext = self.ext_calls_in(n.body)
            cur = S1
            for h in n.handlers:
                nm = self.exc_name(h)
                xa = atom('exc', (nm, tuple(ext), len([1 for k in pre.pc])))
                # the raised state: body effects up to the failing call are unknown, take the state
                # before the body
                S2 = pre.fork(ap(xa))
                if h.name:
                    S2.vars[h.name] = Sc(ap(atom('excval', (nm,))), 'o')
                self.exec_block(h.body, S2)
                T = St({}, None, base)
                S1b = St(cur.vars, cur.heap, cur.pc + (b_not(ap(xa)),), cur.dead)
                self.join(T, ap(xa), S2, S1b, base)
                cur = T
            S.take(cur)
        else:
            S.take(S1)
        if not S.dead or n.finalbody:
            dead = S.dead
            S.dead = False
            self.exec_block(n.finalbody, S)
            S.dead = S.dead or dead

    def exc_name(self, h):
        if h.type is None:
            return 'any'
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        r = []
        for t in ts:
            r.append(t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '?'))
        return '|'.join(sorted(r))

    def ext_calls_in(self, body):
        r = []
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.Call):
                    f = x.func
                    r.append(f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '?'))
        return sorted(set(r))

    def x_Break(self, n, S):
        self.frames[-1].loops[-1].append(('break', S.fork()))
        S.dead = True

    def x_Continue(self, n, S):
        self.frames[-1].loops[-1].append(('continue', S.fork()))
        S.dead = True

    # loops in loops.py
    def x_For(self, n, S):
        from . import loops
        loops.exec_for(self, n, S)

    def x_While(self, n, S):
        from . import loops
        loops.exec_while(self, n, S)

    # ------------------------------------------------------------ names
    def import_val(self, spec):
        r = self.pkg.resolve_import(spec)
        if r[0] == 'mod':
            return Mod(self.pkg.mods[r[1]])
        if r[0] == 'pkg':
            return Ext('@pkg')
        return Ext(spec)

    def import_from(self, modspec, name):
        if modspec in ('.', self.pkg.name) or modspec == '':
            if name in self.pkg.mods:
                return Mod(self.pkg.mods[name])
            m = self.pkg.mods.get('__init__')
            if m is not None and name in m.g:
                return self.mod_global(m, name)
            return Ext(modspec + '.' + name)
        ms = modspec
        if ms.startswith('.'):
            ms = self.pkg.name + ms
        r = self.pkg.resolve_import(ms)
        if r[0] == 'mod':
            return self.mod_global(self.pkg.mods[r[1]], name)
        return Ext(modspec + '.' + name)

    def mod_global(self, mod, name, S=None):
        if name in mod.defs:
            d = mod.defs[name]
            if isinstance(d, ast.FunctionDef):
                return Fn(d, mod, mod.name + '.' + name)
            return Cls(d, mod, mod.name + '.' + name)
        g = mod.g.get(name)
        if g is None:
            if name in mod.pkg.mods and mod.name == '__init__':
                return Mod(mod.pkg.mods[name])
            return None
        if g[0] == 'import':
            return self.import_val(g[1])
        if g[0] == 'from':
            return self.import_from(g[1], g[2])
        if g[0] == 'expr':
            T = St({}, {} if S is None else S.heap, ())
            self.frames.append(Frame(None, mod))
            try:
                v = self.eval(g[1], T)
                return self.bindable(T, v)
            finally:
                self.frames.pop()
        return None

    def lookup(self, name, S, node=None):
        v = S.vars.get(name)
        if v is not None:
            if isinstance(v, Undef):
                self.event(S, 'undef', (name,), node)
            elif isinstance(v, Gv) and (isinstance(v.a, Undef) or isinstance(v.b, Undef)):
                c = v.c if isinstance(v.a, Undef) else b_not(v.c)
                c = self.refine(S, c)
                w = v.b if isinstance(v.a, Undef) else v.a
                if c is not ZERO:
                    self.event(S, 'maybe_undef', (name, c), node)
                return w
            return v
        mod = self.frames[-1].mod
        v = self.mod_global(mod, name, S)
        if v is not None:
            return v
        if name in ('True', 'False'):
            return TRUE if name == 'True' else FALSE
        import builtins
        if hasattr(builtins, name) or name in ('__file__', '__name__'):
            return Ext('builtins.' + name)
        self.event(S, 'undef', (name,), node)
        return Undef(name)

    # ------------------------------------------------------------ expressions
    def eval(self, n, S):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note('unsupported expression %s' % type(n).__name__, n)
            return self.opq('expr:' + type(n).__name__, [self.enc(S, self.eval(c, S)) for c in ast.iter_child_nodes(n)
                                                          if isinstance(c, ast.expr)])
        return m(n, S)

    def e_Constant(self, n, S):
        v = n.value
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(P_const(v))
        return K(v)

    def e_Name(self, n, S):
        return self.lookup(n.id, S, n)

    def e_Tuple(self, n, S):
        items = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                c = self.content(S, self.eval(x.value, S))
                if isinstance(c, (Tup, LstC)):
                    items += c.items
                else:
                    self.note('starred', n)
            else:
                items.append(self.bindable(S, self.eval(x, S)))
        return Tup(items)

    def e_List(self, n, S):
        return LstC(self.e_Tuple(n, S).items)

    def e_Set(self, n, S):
        return LstC(self.e_Tuple(n, S).items)

    def e_Dict(self, n, S):
        items = {}
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                c = self.content(S, self.eval(v, S))
                if isinstance(c, DctC):
                    items.update(c.items)
                    base = c.base
                continue
            kk = self.eval(k, S)
            items[self.key(S, kk)] = self.bindable(S, self.eval(v, S))
        return DctC(base, items)

    def key(self, S, v):
        v = self.content(S, v)
        if isinstance(v, K):
            return v.v
        if isinstance(v, Sc) and is_const(v.p):
            return const_val(v.p)
        return ('sym', self.enc(S, v))

    def e_JoinedStr(self, n, S):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(ap(atom('str', (v.value,))))
            else:
                x = self.eval(v.value, S)
                spec = self.e_JoinedStr(v.format_spec, S) if v.format_spec is not None else None
                parts.append(app('ext:fmt', (self.enc(S, x), self.enc(S, spec) if spec is not None else ('k', ''))))
        if len(parts) == 1:
            a = single_atom(parts[0])
            if a is not None and a.op == 'str':
                return K(a.args[0])
        return Sc(app('ext:strcat', tuple(parts)), 'o')

    def e_IfExp(self, n, S):
        c = self.truth(S, self.eval(n.test, S))
        if is_const(c):
            return self.eval(n.body if const_val(c) else n.orelse, S)
        S1, S2 = S.fork(c), S.fork(b_not(c))
        a = self.bindable(S1, self.eval(n.body, S1))
        b = self.bindable(S2, self.eval(n.orelse, S2))
        base = S.pc
        S1.vars = dict(S1.vars)
        S1.vars['%r'] = a
        S2.vars['%r'] = b
        self.join(S, c, S1, S2, base)
        return S.vars.pop('%r')

    def e_BoolOp(self, n, S):
        isand = isinstance(n.op, ast.And)
        vals = []
        T = S
        r = None
        for x in n.values:
            v = self.eval(x, T)
            vals.append(v)
            t = self.truth(T, v)
            r = t if r is None else (b_and(r, t) if isand else b_or(r, t))
            if is_const(r) and (const_val(r) == 0) == isand:
                break
            T = T.fork(t if isand else b_not(t))
            # effects of later operands are dropped except heap growth
        S.heap.update({k: v for k, v in T.heap.items() if k not in S.heap})
        # value semantics for non booleans (x or default)
        if all(isinstance(v, Sc) and v.kind == 'b' for v in vals):
            return Sc(r, 'b')
        if len(vals) == 2 and not isand and not isinstance(self.content(S, vals[0]), Sc):
            pass
        return Sc(r, 'b')

    def e_UnaryOp(self, n, S):
        v = self.eval(n.operand, S)
        if isinstance(n.op, ast.Not):
            return Sc(b_not(self.truth(S, v)), 'b')
        c = self.content(S, v)
        if isinstance(n.op, ast.Invert):
            x = self.arr(S, c)
            kind = c.kind if isinstance(c, (Ar, Sc)) else 'n'
            f = b_not if kind == 'b' else (lambda p: sub(neg(p), ONE))
            if kind == 'o':
                f = lambda p: b_not(self.truth_o(p))
                kind = 'b'
            if isinstance(x, Ar):
                return amap(x, f, kind)
            return Sc(f(x), kind)
        x = self.arr(S, c)
        if isinstance(n.op, ast.USub):
            if isinstance(x, Ar):
                return amap(x, neg, 'n')
            return Sc(neg(x), 'n')
        return self.wrap(S, x)

    def e_BinOp(self, n, S):
        a = self.eval(n.left, S)
        b = self.eval(n.right, S)
        return self.binop(type(n.op).__name__, a, b, S, n)

    def binop(self, op, a, b, S, n):
        ca, cb = self.content(S, a), self.content(S, b)
        if isinstance(ca, SeqG) or isinstance(cb, SeqG):
            v = ca if isinstance(ca, SeqG) else cb
            xs = [self.bindable(S, self.binop(op, x if ca is v else ca, x if ca is not v else cb, S, n)) for x in (v.a, v.b)]
            r = self.merge_val(S, v.c, xs[0], xs[1], S.heap, S.heap)
            ys = [self.content(S, x) for x in xs]
            if isinstance(r, Gv) and all(isinstance(y, (LstC, SeqG)) for y in ys):
                return SeqG(v.c, *ys)
            return r
        if op == 'Add':
            if isinstance(ca, (LstC, Tup)) and isinstance(cb, (LstC, Tup)):
                return type(ca)(list(ca.items) + list(cb.items))
            if isinstance(ca, K) and isinstance(cb, K) and isinstance(ca.v, str) and isinstance(cb.v, str):
                return K(ca.v + cb.v)
            if self.is_str(ca) or self.is_str(cb):
                return Sc(app('ext:strcat', (self.enc(S, ca), self.enc(S, cb))), 'o')
        if op == 'Mult' and isinstance(ca, LstC) and isinstance(cb, Sc):
            if is_const(cb.p):
                return LstC(ca.items * int(const_val(cb.p)))
            if len(ca.items) == 1:
                return V.mk((cb.p,), lambda idx: self.arr(S, ca.items[0]))
        if op == 'Mod' and self.is_str(ca):
            return Sc(app('ext:strfmt', (self.enc(S, ca), self.enc(S, cb))), 'o')
        x, y = self.arr(S, ca), self.arr(S, cb)
        f = BINF.get(op)
        kinds = [c.kind if isinstance(c, (Ar, Sc)) else 'n' for c in (ca, cb)]
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if kinds == ['n', 'n']:
                return self.opq('bit', [op, x if isinstance(x, Poly) else V.lam_arg(x),
                                        y if isinstance(y, Poly) else V.lam_arg(y)], 'n')
            tx = (lambda p: p if kinds[0] == 'b' else self.truth_o(p))
            ty = (lambda p: p if kinds[1] == 'b' else self.truth_o(p))
            g = {'BitAnd': b_and, 'BitOr': b_or,
                 'BitXor': lambda p, q: sub(add(p, q), scale(mul(p, q), 2))}[op]
            r = V.elementwise(lambda p, q: g(tx(p), ty(q)), [x, y], 'b')
            return r if isinstance(r, Ar) else Sc(r, 'b')
        if f is None:
            return self.opq('op:' + op, [x if isinstance(x, Poly) else V.lam_arg(x),
                                         y if isinstance(y, Poly) else V.lam_arg(y)], 'n')
        r = V.elementwise(f, [x, y], 'n')
        if isinstance(r, Ar):
            return r
        return Sc(r, 'n')

    def is_str(self, c):
        if isinstance(c, K):
            return isinstance(c.v, str)
        if isinstance(c, Sc) and c.kind == 'o':
            a = single_atom(c.p)
            return a is not None and a.op in ('ext:strcat', 'ext:strfmt', 'str')
        return False

    def e_Compare(self, n, S):
        left = self.eval(n.left, S)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn, S)
            r = self.compare(type(op).__name__, left, right, S, n)
            if res is None:
                res = r
            else:
                res = Sc(b_and(self.truth(S, res), self.truth(S, r)), 'b')
            left = right
        return res

    def compare(self, op, a, b, S, n):
        ca, cb = self.content(S, a), self.content(S, b)
        if op in ('Is', 'IsNot'):
            r = self.is_same(S, ca, cb)
            return Sc(r if op == 'Is' else b_not(r), 'b')
        if op in ('In', 'NotIn'):
            if isinstance(cb, Ar) and cb.kind == 'b' and self.counted(ca):
                self.event(S, 'boolmix', ('in', self.enc(S, cb), self.enc(S, ca)), n)
            r = self.contains(S, cb, ca, n)
            if isinstance(r, Ar):
                return r
            return Sc(r if op == 'In' else b_not(r), 'b')
        if isinstance(ca, Gv) or isinstance(cb, Gv):
            g = ca if isinstance(ca, Gv) else cb
            l = self.compare(op, g.a if g is ca else ca, g.a if g is cb else cb, S, n)
            r = self.compare(op, g.b if g is ca else ca, g.b if g is cb else cb, S, n)
            return self.merge_val(S, g.c, self.bindable(S, l), self.bindable(S, r), S.heap, S.heap)
        if op in ('Eq', 'NotEq'):
            if isinstance(ca, K) or isinstance(cb, K):
                r = self.eq_k(S, ca, cb)
                return Sc(r if op == 'Eq' else b_not(r), 'b')
            if isinstance(ca, (Tup, LstC)) and isinstance(cb, (Tup, LstC)):
                r = ONE if len(ca.items) == len(cb.items) else ZERO
                for x, y in zip(ca.items, cb.items):
                    r = b_and(r, self.truth(S, self.compare('Eq', x, y, S, n)))
                return Sc(r if op == 'Eq' else b_not(r), 'b')
        for u, v in ((ca, cb), (cb, ca)):
            if isinstance(u, Ar) and u.kind == 'b' and self.counted(v):
                self.event(S, 'boolmix', (op, self.enc(S, u), self.enc(S, v)), n)
        x, y = self.arr(S, ca), self.arr(S, cb)
        f = {'Gt': lambda p, q: gt(sub(p, q)), 'GtE': lambda p, q: ge(sub(p, q)),
             'Lt': lambda p, q: gt(sub(q, p)), 'LtE': lambda p, q: ge(sub(q, p)),
             'Eq': eqv, 'NotEq': lambda p, q: b_not(eqv(p, q))}[op]
        if op in ('Eq', 'NotEq') and isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                ast.dump(n.left) == ast.dump(n.comparators[0]):
            g = f          # x == x: only NaN differs from itself
            f = lambda p, q: g(p, q) if p is not q else (P.isnan(p) if op == 'NotEq' else b_not(P.isnan(p)))
        r = V.elementwise(f, [x, y], 'b')
        return r if isinstance(r, Ar) else Sc(r, 'b')

    def counted(self, v):
        """a number that is not a truth value"""
        return isinstance(v, (Sc, Ar)) and v.kind == 'n' and not (isinstance(v, Sc) and is_const(v.p) and const_val(v.p) in (0, 1))

    def is_same(self, S, a, b):
        if isinstance(a, K) and isinstance(b, K):
            return ONE if a.v is b.v or a.v == b.v else ZERO
        if isinstance(a, Gv):
            return select(a.c, self.is_same(S, self.content(S, a.a), b), self.is_same(S, self.content(S, a.b), b))
        if isinstance(b, Gv):
            return self.is_same(S, b, a)
        k, o = (a, b) if isinstance(a, K) else (b, a)
        if isinstance(k, K) and k.v is None:
            if isinstance(o, Sc):
                if o.kind in ('n', 'b'):
                    at_ = single_atom(o.p)
                    if not (o.p.inds or (at_ is not None and at_.op in ('none', 'item', 'attr', 'in')) ):
                        return ZERO
                return isnone(o.p)
            if isinstance(o, ObjC):
                return isnone(o.p)
            return ZERO
        if isinstance(a, Sc) and isinstance(b, Sc):
            if b.kind == 'b' or a.kind == 'b':
                return eqv(a.p, b.p)
            return eqv(a.p, b.p)
        if isinstance(a, (Ext, Cls, Fn)) and isinstance(b, (Ext, Cls, Fn)):
            return ONE if a.name == b.name else ZERO
        return app('ext:is', (self.enc(S, a), self.enc(S, b)), ('bool',))

    def eq_k(self, S, a, b):
        if isinstance(a, K) and isinstance(b, K):
            return ONE if a.v == b.v else ZERO
        if isinstance(a, K):
            a, b = b, a
        if b.v is None:
            return self.is_same(S, a, b)
        if isinstance(a, Sc):
            return eqo(a.p, b.v)
        if isinstance(a, Gv):
            return select(a.c, self.eq_k(S, self.content(S, a.a), b), self.eq_k(S, self.content(S, a.b), b))
        return app('eqo', (self.enc(S, a), ('k', repr(b.v))))

    def contains(self, S, cont, x, n):
        if isinstance(cont, (Tup, LstC)):
            r = ZERO
            for it in cont.items:
                r = b_or(r, self.truth(S, self.compare('Eq', it, x, S, n)))
            return r
        if isinstance(cont, DctC):
            k = self.key(S, x)
            if k in cont.items and not isinstance(cont.items[k], Undef):
                v = cont.items[k]
                if isinstance(v, Gv):
                    c = v.c
                    return select(c, ZERO if isinstance(v.a, Undef) else ONE, ZERO if isinstance(v.b, Undef) else ONE)
                return ONE
            if cont.base is None or k in cont.removed:
                return ZERO
            return app('contains', (cont.base, ('k', k) if isinstance(k, str) else self.enc(S, x)))
        if isinstance(cont, Ar):
            p = self.arr(S, x)
            if isinstance(p, Poly):
                bodies = V.unenum(cont) if not (len(cont.enum) == cont.nd) else cont
                if cont.enum and len(cont.enum) == cont.nd:
                    r = ZERO
                    for q in cont.el.values():
                        r = b_or(r, eqv(q, p))
                    return r
                body = eqv(bodies.el[()], p)
                r = body
                for k in range(cont.nd - 1, -1, -1):
                    r = b_any(r, cont.dims[k], IX[k])
                return r
        return app('contains', (self.enc(S, cont), self.enc(S, x)))

    def e_Lambda(self, n, S):
        return Fn(n, self.frames[-1].mod, '<lambda>', S.vars)

    def e_Starred(self, n, S):
        return self.eval(n.value, S)

    def e_NamedExpr(self, n, S):
        v = self.eval(n.value, S)
        self.assign_to(n.target, v, S)
        return S.vars[n.target.id]

    def e_Slice(self, n, S):
        return Slc(*[self.eval(x, S) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_ListComp(self, n, S):
        from . import loops
        return loops.comprehension(self, n, S)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, S):
        from . import loops
        return loops.dict_comprehension(self, n, S)

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, n, S):
        obj = self.eval(n.value, S)
        if n.attr not in ('close', 'closed', 'isopen') and isinstance(obj, (Ref, Sc, Gv)):
            self.used(S, obj, n)
        return self.getattr_(S, obj, n.attr, n)

    def used(self, S, obj, n):
        """note that something that leads to an open file is used"""
        c = self.content(S, obj)
        if isinstance(c, Gv):
            self.used(S, c.a, n)
            self.used(S, c.b, n)
            return
        p = c.p if isinstance(c, (Sc, ObjC)) else None
        if p is None or isinstance(c, Sc) and c.kind != 'o':
            return
        h = handle_of(p)
        if h is not None:
            self.event(S, 'use', (h,), n)

    def getattr_(self, S, obj, attr, n):
        if isinstance(obj, Ext):
            if obj.name == '@pkg':
                if attr in self.pkg.mods:
                    return Mod(self.pkg.mods[attr])
                return Ext(self.pkg.name + '.' + attr)
            nm = obj.name + '.' + attr
            return self.lib.constant(nm) or Ext(ALIASES.get(nm, nm))
        if isinstance(obj, Mod):
            v = self.mod_global(obj.mod, attr, S)
            if v is None:
                self.event(S, 'undef', (obj.mod.name + '.' + attr,), n)
                return Undef(attr)
            return v
        c = self.content(S, obj)
        if self.frames_on:
            r = frames.attribute(self, S, obj, c, attr)
            if r is not None:
                return r
        r = self.lib.attribute(self, S, obj, c, attr, n)
        if r is not None:
            return r
        if isinstance(c, ObjC):
            if attr in c.attrs:
                return c.attrs[attr]
            return Sc(app('attr', (c.p, attr)), 'o')
        if isinstance(c, Gv):
            return Bound(obj, attr)
        if isinstance(c, Sc) and c.kind == 'o':
            if attr in ('iloc', 'values', 'array') and self.one_row(c.p):
                return obj
            if attr == 'name':
                a = single_atom(c.p)
                if a is not None and a.op in ('ext:m:createDimension', 'ext:m:createVariable') and len(a.args) > 1:
                    b = single_atom(a.args[1]) if isinstance(a.args[1], Poly) else None
                    if b is not None and b.op == 'str':
                        return K(b.args[0])
            return Sc(app('attr', (c.p, attr)), 'o')
        return Bound(obj, attr)

    def tabular(self, p):
        """an opaque table read from a file or interpolated from one: t['x'] and t.x are the same column"""
        a = single_atom(p) if isinstance(p, Poly) else None
        return a is not None and a.op in ('ext:call:pandas.read_csv', 'res:core.interpolate_at')

    def trail(self, S, c, idx):
        """x[i, :] of an opaque array is x[i]"""
        if isinstance(c, Sc) and c.kind == 'o':
            while len(idx) > 1 and frames.full(self.content(S, idx[-1])) and not isinstance(self.content(S, idx[0]), (K, Slc)):
                idx = idx[:-1]
        return idx

    def time_axis(self, p, what=None):
        """the variable 'time' of a data set (one-dimensional), or its attribute"""
        a = single_atom(p) if isinstance(p, Poly) else None
        if what is not None:
            return a is not None and a.op == 'attr' and a.args[1] == what and self.time_axis(a.args[0])
        return a is not None and a.op == 'item' and len(a.args) == 2 and a.args[1] == ('k', 'time')

    def one_row(self, p):
        """a column of what interpolate_at gives: rows are addressed by position"""
        a = single_atom(p) if isinstance(p, Poly) else None
        if a is None or a.op != "attr" or a.args[1] in ('iloc', 'loc', 'index', 'values', 'shape', 'columns'):
            return False
        b = single_atom(a.args[0]) if isinstance(a.args[0], Poly) else None
        return b is not None and b.op == 'res:core.interpolate_at'

    def column_of(self, S, c, idx):
        """name and table when the subscript is t['x'] or t.loc[:, 'x'] on an opaque table"""
        if not (isinstance(c, Sc) and c.kind == 'o'):
            return None
        k = self.content(S, idx[-1])
        if not (isinstance(k, K) and isinstance(k.v, str) and k.v.isidentifier()):
            return None
        if len(idx) == 1 and self.tabular(c.p):
            return c.p, k.v
        if len(idx) == 2 and frames.full(self.content(S, idx[0])):
            a = single_atom(c.p)
            if a is not None and a.head == 'attr' and a.args[1] == 'loc' and self.tabular(a.args[0]):
                return a.args[0], k.v
        return None

    def setattr_(self, S, obj, attr, v, n):
        c = self.content(S, obj)
        if self.frames_on and frames.store(self, S, obj, [K(attr)], v, n):
            return
        if isinstance(obj, Ref) and isinstance(c, ObjC):
            at_ = dict(c.attrs)
            at_[attr] = self.bindable(S, v)
            S.heap[obj.cell] = ObjC(c.p, at_)
        self.event(S, 'setattr', (self.enc(S, obj), attr, self.enc(S, v)), n)

    # ------------------------------------------------------------ subscripts
    def eval_index(self, n, S):
        if isinstance(n, ast.Tuple):
            return [self.eval(x, S) for x in n.elts]
        v = self.eval(n, S)
        if isinstance(v, Tup):
            return list(v.items)
        return [v]

    def e_Subscript(self, n, S):
        obj = self.eval(n.value, S)
        if isinstance(obj, (Ref, Sc, Gv)):
            self.used(S, obj, n)
        idx = self.eval_index(n.slice, S)
        return self.index(S, obj, idx, n)

    def index(self, S, obj, idx, n):
        if self.frames_on:
            r = frames.index(self, S, obj, idx, n)
            if r is not None:
                return r
        c = self.content(S, obj)
        if isinstance(c, (Tup, LstC)):
            return self.index_seq(S, obj, c, idx, n)
        if isinstance(c, DctC):
            k = self.key(S, idx[0])
            if k in c.items:
                v = c.items[k]
                if isinstance(v, Undef):
                    self.event(S, 'undef', ('key', repr(k)), n)
                elif isinstance(v, Gv) and (isinstance(v.a, Undef) or isinstance(v.b, Undef)):
                    cc = self.refine(S, v.c if isinstance(v.a, Undef) else b_not(v.c))
                    if cc is not ZERO:
                        self.event(S, 'maybe_undef', ('key %r' % (k,), cc), n)
                    return v.b if isinstance(v.a, Undef) else v.a
                return v
            if c.base is None:
                if isinstance(k, tuple):
                    r = None
                    for kk, vv in c.items.items():
                        cond = self.truth(S, self.compare('Eq', idx[0], num(P_const(kk)) if not isinstance(kk, str) else K(kk), S, n))
                        r = vv if r is None else self.merge_val(S, cond, vv, r, S.heap, S.heap)
                    if r is not None:
                        return r
                self.event(S, 'undef', ('key', repr(k)), n)
                return Undef('key %r' % (k,))
            if isinstance(k, tuple):
                return Sc(app('item', (c.base, k[1])), 'o')
            return Sc(self.item_poly(c.base, k), 'o')
        if isinstance(c, Ar):
            sels = self.selectors(S, c, idx, n)
            if sels is None:
                return self.opq('index', [self.enc(S, c)] + [self.enc(S, i) for i in idx])
            basic = all(s[0] in ('at', 'rng') for s in sels)
            r = V.sel_read(c, sels)
            if isinstance(r, Poly):
                return Sc(r, c.kind)
            if basic and isinstance(obj, Ref):
                return Ref(obj.cell, obj.views + (tuple(sels),))
            return r
        if isinstance(c, Gv):
            a = self.bindable(S, self.index(S, c.a, idx, n))
            b = self.bindable(S, self.index(S, c.b, idx, n))
            return self.merge_val(S, c.c, a, b, S.heap, S.heap)
        if isinstance(c, SeqG):
            return self.per_case(S, c, lambda x: self.index(S, x, idx, n))
        if isinstance(c, K) and isinstance(c.v, str) and len(idx) == 1 and isinstance(idx[0], Sc) and is_const(idx[0].p):
            try:
                return K(c.v[int(const_val(idx[0].p))])
            except Exception:
                pass
        if isinstance(c, K) and isinstance(c.v, str) and len(idx) == 1 and isinstance(self.content(S, idx[0]), Slc):
            def bnd(x):
                if x is None or isinstance(x, K) and x.v is None:
                    return None
                p = self.arr(S, x)
                return int(const_val(p)) if isinstance(p, Poly) and is_const(p) else 'sym'
            sl = self.content(S, idx[0])
            b = [bnd(x) for x in (sl.a, sl.b, sl.s)]
            if 'sym' not in b:
                return K(c.v[slice(*b)])
        if isinstance(c, Ext) or isinstance(c, Bound):
            return self.lib.index_special(self, S, c, idx, n)
        t = self.column_of(S, c, idx)
        if t is not None:
            return Sc(app('attr', t), 'o')
        idx = self.trail(S, c, idx)
        if len(idx) == 1 and isinstance(idx[0], Sc) and idx[0].p is ZERO and isinstance(c, Sc) and self.time_axis(c.p, 'shape'):
            return Sc(app('attr', (single_atom(c.p).args[0], 'size')), 'o')
        r = self.lib.index_obj(self, S, c, idx, n)
        if r is not None:
            return r
        base = self.enc(S, c)
        if isinstance(base, tuple):
            base = app('ext:tuple', (base,))
        if len(idx) == 1 and isinstance(idx[0], K):
            return Sc(self.item_poly(base, idx[0].v), 'o')
        return Sc(app('item', (base,) + tuple(self.enc(S, i) for i in idx)), 'o')

    def index_seq(self, S, obj, c, idx, n):
        i = self.content(S, idx[0])
        if isinstance(i, Slc):
            def g(x):
                if x is None:
                    return None
                p = self.arr(S, x)
                return int(const_val(p)) if isinstance(p, Poly) and is_const(p) else 'sym'
            ks = [g(x) for x in (i.a, i.b, i.s)]
            if 'sym' not in ks:
                return type(c)(c.items[slice(*ks)])
        p = self.arr(S, i) if not isinstance(i, Slc) else None
        if isinstance(p, Poly) and is_const(p):
            k = int(const_val(p))
            if -len(c.items) <= k < len(c.items):
                return c.items[k]
            self.event(S, 'badindex', (k, len(c.items)), n)
            return Undef('index')
        if isinstance(p, Poly) and c.items:
            r = c.items[-1]
            for k in range(len(c.items) - 2, -1, -1):
                r = self.merge_val(S, eq(sub(p, const(k))), c.items[k], r, S.heap, S.heap)
            return r
        return self.opq('index', [self.enc(S, c)] + [self.enc(S, x) for x in idx])

    def full_sels(self, a, start):
        return [('rng', ZERO, 1, a.dims[k]) for k in range(start, a.nd)]

    def selectors(self, S, a, idx, n):
        idx = [self.content(S, x) if not isinstance(x, Slc) else x for x in idx]
        # ellipsis
        if any(isinstance(x, K) and x.v is Ellipsis for x in idx):
            k = [i for i, x in enumerate(idx) if isinstance(x, K) and x.v is Ellipsis][0]
            nreal = sum(1 for x in idx if not (isinstance(x, K)))
            idx = idx[:k] + [Slc(None, None, None)] * (a.nd - nreal) + idx[k + 1:]
        sels = []
        ax = 0
        for x in idx:
            if isinstance(x, K) and x.v is None or (isinstance(x, Ext) and x.name == 'numpy.newaxis'):
                sels.append(('new',))
                continue
            if isinstance(x, Ar) and x.kind == 'b' and x.nd > 1:
                if x.nd == a.nd and len(idx) == 1:
                    return None
                return None
            if ax >= a.nd:
                self.event(S, 'badindex', ('too many',), n)
                return None
            dim = a.dims[ax]
            if isinstance(x, Slc):
                s = self.slice_sel(S, x, dim)
                if s is None:
                    return None
                sels.append(s)
            elif isinstance(x, Ar):
                if x.kind == 'b':
                    sels.append(('msk', x))
                else:
                    sels.append(('idx', x))
            elif isinstance(x, (Tup, LstC)):
                y = self.arr(S, x)
                if not isinstance(y, Ar):
                    return None
                sels.append(('msk', y) if y.kind == 'b' and y.dims[0] is not ZERO else ('idx', y))
            elif isinstance(x, Gv):
                y = self.arr(S, x)
                if isinstance(y, Poly):
                    sels.append(('at', norm_index(y, dim)))
                else:
                    sels.append(('idx', y) if y.kind != 'b' else ('msk', y))
            else:
                p = self.arr(S, x)
                if not isinstance(p, Poly):
                    return None
                if isinstance(x, Sc) and x.kind == 'b':
                    return None
                sels.append(('at', norm_index(p, dim)))
            ax += 1
        while ax < a.nd:
            sels.append(('rng', ZERO, 1, a.dims[ax]))
            ax += 1
        return sels

    def slice_sel(self, S, x, dim):
        def g(v):
            if v is None:
                return None
            c = self.content(S, v)
            if isinstance(c, K) and c.v is None:
                return None
            p = self.arr(S, c)
            return p
        a, b, s = g(x.a), g(x.b), g(x.s)
        st = 1
        if s is not None:
            if not is_const(s):
                return None
            st = int(const_val(s))
        def nb(p):
            if is_const(p) and const_val(p) < 0:
                return add(dim, p)
            return p
        if st > 0:
            a = ZERO if a is None else nb(a)
            b = dim if b is None else nb(b)
            if is_const(dim):
                a, b = minp(a, dim) if is_const(a) else a, minp(b, dim) if is_const(b) else b
            nn = sub(b, a)
            if st != 1:
                nn = app('floor', (div(add(nn, const(st - 1)), const(st)),), ('int',)) if not is_const(nn) else \
                    const(max(0, -((-int(const_val(nn))) // st)))
            elif is_const(nn) and const_val(nn) < 0:
                nn = ZERO
            return ('rng', a, st, nn)
        a = sub(dim, ONE) if a is None else nb(a)
        if b is None:
            nn = add(a, ONE)
        else:
            nn = sub(a, nb(b))
        if st != -1:
            nn = app('floor', (div(add(nn, const(-st - 1)), const(-st)),), ('int',))
        return ('rng', a, st, nn)

    def write_ref(self, S, ref, newc, node):
        """replace the content seen through ref by newc (Ar or Poly)"""
        base = S.heap[ref.cell]
        chain = [base]
        for v in ref.views:
            chain.append(V.sel_read(chain[-1], v))
        cur = newc
        for k in range(len(ref.views) - 1, -1, -1):
            cur = V.sel_write(chain[k], list(ref.views[k]), cur)
        if not ref.views:
            if isinstance(cur, Poly):
                cur = V.amap(base, lambda p: cur)
            elif cur.dims != base.dims:
                b2 = V.elementwise(lambda p, q: q, [base, cur], base.kind)
                cur = Ar(b2.dims, b2.enum, b2.el, base.kind)
            if isinstance(cur, Ar) and cur.enum != base.enum:
                cc = cur
                cur = V.mk(base.dims, lambda idx: at(cc, idx), cc.kind, base.enum)
        if self.cfg.get('adef') and isinstance(cur, Ar):
            cur = self.adef(cur)
        S.heap[ref.cell] = cur
        self.stores.setdefault(ref.cell, []).append((self.frames[-1].mod if self.frames else None, node))

    def store_index(self, S, obj, idx, v, n, op=None):
        if self.frames_on and frames.store(self, S, obj, idx, v, n, op):
            return
        c = self.content(S, obj)
        if isinstance(c, Gv):
            # store into whichever object: guard both
            for br, cond in ((c.a, c.c), (c.b, b_not(c.c))):
                cc = self.content(S, br)
                if isinstance(cc, Ar) and isinstance(br, Ref):
                    T = S.fork(cond)
                    self.store_index(T, br, idx, v, n, op)
                    S.heap[br.cell] = self.merge_content(S, cond, T.heap[br.cell], S.heap[br.cell], T.heap, S.heap)
            return
        if isinstance(c, Ar):
            if not isinstance(obj, Ref):
                return       # store into a temporary
            sels = self.selectors(S, c, idx, n)
            if sels is None:
                val = self.arr(S, v)
                enc = self.enc(S, val)
                iden = tuple(self.enc(S, i) for i in idx)
                m = idx[0]
                mc = self.content(S, m) if not isinstance(m, Slc) else m
                if len(idx) == 1 and isinstance(mc, Ar) and mc.kind == 'b' and mc.nd == c.nd and isinstance(val, Poly):
                    f = self.opf(op)
                    newc = V.mk(c.dims, lambda ii: select(at(mc, ii), f(at(c, ii), val), at(c, ii)), c.kind, c.enum)
                    self.write_ref(S, obj, newc, n)
                    return
                self.note('store with unmodelled index', n)
                newc = V.mk(c.dims, lambda ii: app('ext:stored', (at(c, ii), iden, enc) + tuple(ii)), c.kind, c.enum)
                self.write_ref(S, obj, newc, n)
                return
            val = self.arr(S, v)
            vk = self.content(S, v)
            if isinstance(val, Poly) and isinstance(vk, Sc) and vk.kind == 'o' and val.deps is None:
                pass
            newc = V.sel_write(c, sels, val, self.opf(op) if op else None)
            if c.kind == 'b' and not (isinstance(vk, (Sc, Ar)) and vk.kind == 'b'):
                newc = V.amap(newc, lambda p: p if all(a._isb for m in p.terms for a, e in m) else p)
            self.write_ref(S, obj, newc, n)
            return
        if op is not None:
            cur = self.index(S, obj, idx, n)
            cc = self.content(S, cur)
            v = self.binop(op, cur, v, S, n)
            if isinstance(cc, Ar) and isinstance(cur, Ref):
                self.write_ref(S, cur, self.content(S, v), n)
        if isinstance(c, DctC) and isinstance(obj, Ref):
            k = self.key(S, idx[0])
            if not isinstance(k, tuple):
                it = dict(c.items)
                it[k] = self.bindable(S, v)
                S.heap[obj.cell] = DctC(c.base, it, c.removed - {k})
                return
            it = dict(c.items)
            S.heap[obj.cell] = DctC(app('ext:dictset', (c.base if c.base is not None else ap(atom('none')), self.enc(S, idx[0]),
                                                        self.enc(S, v))), it, c.removed)
            return
        if isinstance(c, LstC) and isinstance(obj, Ref):
            p = self.arr(S, idx[0]) if not isinstance(idx[0], Slc) else None
            if isinstance(p, Poly) and is_const(p):
                k = int(const_val(p))
                items = list(c.items)
                if -len(items) <= k < len(items):
                    items[k] = self.bindable(S, v)
                    S.heap[obj.cell] = LstC(items)
                    return
            self.note('list store', n)
            S.heap[obj.cell] = ObjC(app('ext:listset', (self.enc(S, c), self.enc(S, idx[0]), self.enc(S, v))))
            return
        if self.lib.store_obj(self, S, obj, c, idx, v, n):
            return
        t = self.column_of(S, self.content(S, obj), idx)
        if t is not None:
            self.event(S, 'setattr', (t[0], t[1], self.enc(S, v)), n)
            return
        idx = self.trail(S, self.content(S, obj), idx)
        self.event(S, 'setitem', (self.enc(S, obj), ('seq',) + tuple(self.enc(S, i) for i in idx), self.enc(S, v)), n)

    def opf(self, op):
        if op is None:
            return lambda old, new: new
        if op == 'BitAnd':
            return b_and
        if op == 'BitOr':
            return b_or
        return BINF[op]

    # ------------------------------------------------------------ calls
    def e_Call(self, n, S):
        self.callsites += 1
        f = None
        if isinstance(n.func, ast.Name) and n.func.id == 'split' and self.cfg.get('model'):
            return self.split(S, self.truth(S, self.eval(n.args[0], S)))
        if isinstance(n.func, ast.Name) and n.func.id == 'stage' and self.cfg.get('model'):
            self.stage = frozenset(n.args[0].value.split())
            return NONE
        if isinstance(n.func, ast.Attribute):
            obj = self.eval(n.func.value, S)
            if isinstance(obj, (Ext, Mod)):
                f = self.getattr_(S, obj, n.func.attr, n)
            else:
                f = Bound(obj, n.func.attr)
        else:
            f = self.eval(n.func, S)
        if isinstance(f, Ext) and self.lib.is_log(f.name):
            return NONE
        if isinstance(f, Bound) and self.lib.is_log_obj(self, S, f):
            return NONE
        args = []
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                c = self.content(S, self.eval(a.value, S))
                if isinstance(c, (Tup, LstC)):
                    args += c.items
                elif isinstance(c, Ar) and is_const(c.dims[0]):
                    args += [self.wrap(S, V.sel_read(c, [('at', const(i))] + self.full_sels(c, 1)), c.kind)
                             for i in range(int(const_val(c.dims[0])))]
                else:
                    args.append(self.opq('star', [self.enc(S, c)]))
            else:
                args.append(self.bindable(S, self.eval(a, S)))
        for k in n.keywords:
            if k.arg is None:
                c = self.content(S, self.eval(k.value, S))
                if isinstance(c, DctC):
                    for kk, vv in c.items.items():
                        kwargs[kk] = vv
                    if c.base is not None:
                        kwargs['**'] = Sc(c.base, 'o')
                else:
                    kwargs['**'] = Sc(self.arr(S, c), 'o') if not isinstance(c, Sc) else c
            else:
                kwargs[k.arg] = self.bindable(S, self.eval(k.value, S))
        r = self.call(S, f, args, kwargs, n)
        if self.cfg.get('adef'):
            if isinstance(r, Ar):
                return self.adef(r)
            if isinstance(r, Sc) and not r.p.deps and big_body(r.p):
                return Sc(self.name_body(r.p), r.kind)
        return r

    def split(self, S, c):
        """case distinction requested by the reference model"""
        sp = self.cfg.get('split')
        if sp is None:
            return Sc(c, 'b')
        while True:
            for a, v in sp['atoms']:
                if a in c.inds:
                    c = P.assign(c, a, v)
            ind = [a for a in sorted(c.inds, key=lambda a: a.id) if not a.deps]
            if is_const(c) or not ind:
                return Sc(c, 'b')
            k = len(sp['atoms'])
            v = sp['dec'][k] if k < len(sp['dec']) else 1
            sp['atoms'].append((ind[0], v))
            P.assume(ind[0], v)

    def call(self, S, f, args, kwargs, n):
        if isinstance(f, Fn):
            if f.name in self.opaque:
                return self.call_opaque(S, f, args, kwargs, n)
            return self.call_fn(S, f, args, dict(kwargs), n)
        if isinstance(f, Ext):
            r = self.lib.call(self, S, f.name, args, kwargs, n)
            return r
        if isinstance(f, Bound):
            return self.lib.method(self, S, f.obj, f.attr, args, kwargs, n)
        if isinstance(f, Gv):
            a = self.bindable(S, self.call(S, f.a, args, kwargs, n))
            b = self.bindable(S, self.call(S, f.b, args, kwargs, n))
            return self.merge_val(S, f.c, a, b, S.heap, S.heap)
        if isinstance(f, Cls):
            self.event(S, 'call', ('new:' + f.name,) + tuple(self.enc(S, a) for a in args), n)
            return self.opq('new:' + f.name, [self.enc(S, a) for a in args])
        fp = self.enc(S, f)
        self.event(S, 'call', ('call', fp) + tuple(self.enc(S, a) for a in args) +
                   tuple((k, self.enc(S, v)) for k, v in sorted(kwargs.items())), n)
        return self.opq('call', [fp] + [self.enc(S, a) for a in args] +
                        [(k, self.enc(S, v)) for k, v in sorted(kwargs.items())])

    def call_opaque(self, S, f, args, kwargs, n):
        """summarised call: results are functions of all arguments"""
        spec = self.opaque.get(f.name) or {}
        vs = self.bind(S, f, args, dict(kwargs))
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        enc = tuple(self.enc(S, vs[x]) for x in names)
        res = app('res:' + f.name, enc)
        self.calls.append((f.name, S.pc, dict((x, vs[x]) for x in names), n))
        self.event(S, 'pkgcall', (f.name,) + enc, n)
        for w in spec.get('writes', ()):      # positions of arguments written
            v = vs[names[w]] if w < len(names) else None
            if isinstance(v, Ref):
                c = self.content(S, v)
                if isinstance(c, Ar):
                    newc = V.mk(c.dims, lambda idx: app('out', (res, w) + tuple(idx)), c.kind, c.enum)
                    self.write_ref(S, v, newc, n)
                else:
                    S.heap[v.cell] = ObjC(app('out', (res, w)))
        rs = spec.get('returns')
        if rs is None:
            return Sc(res, 'o')
        if isinstance(rs, (list, tuple)):
            return Tup([self.ret_value(S, r, app('item', (res, const(i))), i) for i, r in enumerate(rs)])
        return self.ret_value(S, rs, res, 0)

    def ret_value(self, S, ty, p, i):
        return self.bindable(S, typed(ty, p))


OPENERS = ('ext:call:netCDF4.Dataset', 'ext:call:open', 'ext:call:io.open', 'ext:call:netCDF4.MFDataset', 'ext:call:xarray.open_dataset',
           'ext:call:h5py.File', 'ext:call:scipy.io.netcdf_file', 'ext:call:codecs.open', 'ext:call:gzip.open')


def handle_of(p):
    """the open file a value is read from"""
    while True:
        a = single_atom(p) if isinstance(p, Poly) else None
        if a is None:
            return None
        if a.op in OPENERS:
            return a
        if a.op in ('attr', 'item') and a.args:
            p = a.args[0]
        else:
            return None


class Gd(Val):
    """an item appended under a condition to a list that grows in a loop"""
    def __init__(self, g, v):
        self.g, self.v = g, v


def marked(l):
    return bool(l.items) and type(l.items[0]).__name__ == 'ListMark'


def join_marked(c, a, b):
    n = 0
    while n < len(a.items) and n < len(b.items) and a.items[n] is b.items[n]:
        n += 1
    out = list(a.items[:n])
    for g, xs in (c, a.items[n:]), (b_not(c), b.items[n:]):
        for x in xs:
            h, v = (x.g, x.v) if isinstance(x, Gd) else (ONE, x)
            h = b_and(g, h)
            if h is ZERO:
                continue
            y = out[-1] if len(out) > n else None
            if y is not None and isinstance(v, Sc) and isinstance(y.v, Sc) and v.kind == y.v.kind and b_and(y.g, h) is ZERO:
                out[-1] = Gd(b_or(y.g, h), Sc(select(y.g, y.v.p, v.p), v.kind))
            else:
                out.append(Gd(h, v))
    return LstC(out)


class SeqG(object):
    """list content that depends on a condition"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def enc(self, I, S):
        def g(x):
            return x.enc(I, S) if isinstance(x, SeqG) else I.enc(S, x)
        return ('gvseq', self.c, g(self.a), g(self.b))


_SIZE = {}


def big_body(p):
    """worth a name: anything but a constant, an atom, or an affine function of one"""
    ms = [m for m in p.terms if m]
    if not ms:
        return False
    if len(ms) > 1 or len(ms[0]) > 1 or ms[0][0][1] != 1:
        return P.known_int(p) is False or len(p.terms) > 8
    return False


def typed(ty, p):
    """value of declared type whose data are reads of opaque p"""
    if ty is None:
        return Sc(p, 'o')
    kind = 'n'
    flags = ()
    t = ty
    if t.startswith('opt '):
        inner = typed(t[4:], p)
        return Gv(isnone(p), NONE, inner)
    if t == 'num':
        return Sc(p, 'n')
    if t == 'int':
        a = single_atom(p)
        if a is not None:
            return Sc(app(a.op, a.args, tuple(a.flags) + ('int',)) if 'int' in a.flags else Sc(_flag(a, ('int',)), 'n').p, 'n')
        return Sc(p, 'n')
    if t == 'bool':
        return Sc(ap(atom('bool', (p,))), 'b')
    if t == 'arr0':
        return Ar((), (), {(): p})
    if t == 'none':
        return NONE
    if t == 'obj':
        return Sc(p, 'o')
    if t == 'dict':
        return DctC(p, {})
    if t == 'handle':
        return ObjC(p)
    m = t.split(':')
    base = m[0]
    if base in ('ivec', 'imat'):
        flags = ('int',)
    if base in ('bvec',):
        kind = 'b'
    dims = []
    for k, d in enumerate(m[1].split(',')):
        if d.isdigit():
            dims.append(const(int(d)))
        elif d == '':
            dims.append(ap(atom('dim', (p, k), ('int', 'nonneg'))))
        else:
            e = ZERO
            s = d
            c = 0
            if '+' in d:
                s, c = d.split('+')
            elif '-' in d:
                s, c = d.split('-')
                c = -int(c)
            dims.append(add(ap(atom('size', (s,), ('int', 'positive'))), const(int(c))))

    def f(idx):
        if kind == 'b':
            return app('bool', (p,) + tuple(idx))
        return app('rd', (p,) + tuple(idx), flags)
    return V.mk(tuple(dims), f, kind)


def _flag(a, flags):
    return ap(atom(a.op, a.args + (('int',),), tuple(a.flags) + tuple(flags)))


def P_const(v):
    """exact rational for a literal, reading decimal literals as written"""
    if isinstance(v, float):
        if v != v:
            return 0
        return F(repr(v)) if abs(v) < 1e300 else F(v)
    return F(v)


def isnone(p):
    r = P._lift1(isnone, p)
    if r is not None:
        return r
    if is_const(p):
        return ZERO
    a = single_atom(p)
    if a is not None and a.op == 'none':
        return ONE
    if a is not None and (a._isb or a.op in ('str',)):
        return ZERO
    if a is not None and a.op in ('item', 'attr', 'in') or a is not None and a.op.startswith('res'):
        return ap(atom('isnone', (p,)))
    if a is None:
        return ZERO
    return ap(atom('isnone', (p,)))


P.CTORS['isnone'] = isnone


def eqo(p, s):
    def f(q):
        return eqo(q, s)
    r = P._lift1(f, p)
    if r is not None:
        return r
    a = single_atom(p)
    if a is not None and a.op == 'str':
        return ONE if a.args[0] == s else ZERO
    if a is not None and a.op == 'none':
        return ZERO
    if is_const(p):
        return ZERO
    return ap(atom('eqo', (p, ('k', s))))


def eqv(p, q):
    """p == q for numbers, booleans or opaque values"""
    for x, y in ((p, q), (q, p)):
        a = single_atom(x)
        if a is not None and a.op == 'str':
            return eqo(y, a.args[0])
        if x.inds and all(t._isb for m in x.terms for t, e in m) and is_const(y) and const_val(y) in (0, 1) and not x.inds - set() == set():
            if len(x.terms) <= 8:
                pass
    return eq(sub(p, q))


def floordiv(p, q):
    return app('floor', (div(p, q),), ('int',))


def _floor(p):
    if P.is_int(p):
        return p
    if is_const(p):
        return const(const_val(p).__floor__())
    # whole multiples of integers come out
    whole = {}
    for m, c in p.terms.items():
        if P.is_int(P._mk({m: P.F(1)})):
            w = c.__floor__()
            if w:
                whole[m] = P.F(w)
    if whole:
        w = P._mk(whole)
        return add(w, app('floor', (sub(p, w),), ('int',)))
    return None


P.CTORS['floor'] = _floor


def mod(p, q):
    return sub(p, mul(q, floordiv(p, q)))


BINF = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'Pow': ppow,
        'FloorDiv': floordiv, 'Mod': mod}
