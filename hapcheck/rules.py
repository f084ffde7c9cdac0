"""Rules decided on one abstraction of the code (no reference model): file handles, sources of irreproducibility, values
that are only part of a duration, masks used as indices, configuration keys."""
import ast
import os
import re
import textwrap
from . import poly as P
from . import side
from .poly import Poly, ZERO, ONE, b_and, b_or, b_not, single_atom, ap, atoms_of, show
from .interp import OPENERS, handle_of, SeqG
from .values import Ref, Ar, Sc, Tup, LstC, DctC, ObjC, Gv, K, Undef
from . import values as V


def run(it, cfg=None):
    P.reset()
    return side.run_fn(side.code(), it.fn, it.types, it.opaque, it.init, it.names, dict(it.cfg or {}, **(cfg or {})))


def polys(x, out=None):
    """the terms inside an encoded value"""
    if out is None:
        out = []
    if isinstance(x, Poly):
        out.append(x)
    elif isinstance(x, P.Atom):
        out.append(ap(x))
    elif isinstance(x, (tuple, list)):
        for y in x:
            polys(y, out)
    return out


def deep(p):
    """all atoms of a term, through the bodies of named intermediate values"""
    out = set(atoms_of(p))
    for d in P.closure(p):
        out |= atoms_of(P.DEFS[d][0])
    return out


def visit(p, seen, out, under=False):
    """all atoms; memory that is overwritten by a store the analysis does not resolve is not counted as unwritten"""
    if (p, under) in seen:
        return
    seen.add((p, under))
    for m in p.terms:
        for a, e in m:
            if a.op == 'uninit' and under:
                continue
            out.add(a)
            u = under or a.op in ('ext:stored', 'ext:index')
            for q in polys(a.args):
                visit(q, seen, out, u)


def sources_in(p):
    seen, out = set(), set()
    visit(p, seen, out)
    for d in P.closure(p):
        visit(P.DEFS[d][0], seen, out)
    return out


def guard(e):
    g = ONE
    for c in e.pc:
        g = b_and(g, c)
    return g


def where(r, e):
    return 'hapuamod/%s.py:%d' % (e.mod.name if e.mod else '?', getattr(e.node, 'lineno', 0))


# ---------------------------------------------------------------- open files
def handles(items):
    """every file opened by a function is closed on every path on which the function ends normally, and not used afterwards"""
    def rule(rep):
        total = 0
        for it in items:
            try:
                r = run(it)
            except Exception as e:
                rep.unk('%s:files' % it.fn, '%s: %s' % (type(e).__name__, e))
                continue
            rep.functions |= {'%s.%s' % x for x in r.I.inlined}
            rep.sites += r.I.callsites
            evs = r.I.events
            opened = [e for e in evs if e.kind == 'call' and isinstance(e.args[0], str) and 'ext:call:' + e.args[0] in OPENERS]
            ends = ZERO
            for e in evs:
                if e.kind == 'raise':
                    ends = b_or(ends, guard(e))
            for k, o in enumerate(opened):
                total += 1
                h = single_atom(P.app('ext:call:' + o.args[0], tuple(o.args[1:])))
                key = '%s:file#%d' % (it.fn, k + 1)
                name = show(ap(h), 4)[:160]

                def has(x):
                    return any(h in atoms_of(p) for p in polys(x))

                def is_h(x):
                    return any(single_atom(p) is h or any(m == ((h, 1),) for m in p.terms) for p in polys(x))
                closes = [e for e in evs if e.kind == 'call' and e.args[0] in ('close', '.close') and len(e.args) > 1 and
                          e.seq > o.seq and is_h(e.args[1])]
                left = b_and(guard(o), b_not(ends))
                for e in closes:
                    left = b_and(left, b_not(guard(e)))
                if h is None:
                    rep.unk(key, 'handle not found')
                    continue
                gone = escapes(r, h)
                if left is not ZERO and not (gone and not closes):
                    rep.bad(key, '%s (%s): the file opened by %s is not closed %s' % (
                        it.fn, where(r, o), name, 'on any path' if not closes else 'on the paths where ' + show(left, 4)[:300]))
                elif left is not ZERO:
                    rep.unk(key, 'the open file is handed to the caller')
                else:
                    rep.ok(key)
                key += ' used after close'
                bad = None
                for c in closes:
                    for e in evs:
                        if e.seq <= c.seq or b_and(guard(e), guard(c)) is ZERO or e.kind in ('setattr',) and not is_h(e.args[0]):
                            continue
                        if o.seq < e.seq and e is not o and [x for x in opened if x.seq > c.seq and x.seq <= e.seq and x.args == o.args]:
                            break                        # opened again
                        if uses(e, h, has, is_h):
                            bad = bad or (c, e)
                if bad:
                    rep.bad(key, '%s: the file opened at %s is closed at %s and used again at %s' % (
                        it.fn, where(r, o), where(r, bad[0]), where(r, bad[1])))
                else:
                    rep.ok(key)
        if not total:
            rep.unk('files', 'no file is opened')
    return rule


def uses(e, h, has, is_h):
    if e.kind == 'use':
        return e.args[0] is h
    if e.kind in ('setitem', 'setattr', 'delitem'):
        return any(handle_of(p) is h for p in polys(e.args[0]))
    if e.kind == 'pkgcall':
        return any(is_h(x) for x in e.args[1:])
    if e.kind == 'call' and isinstance(e.args[0], str):
        if any(is_h(x) for x in e.args[1:]):
            return True
        # an animation draws its frames, from the files it was given, when it is saved or shown
        if e.args[0].startswith('.') and len(e.args) > 1 and e.args[0] in ('.save', '.to_html5_video', '.to_jshtml'):
            return has(e.args[1])
        return e.args[0].startswith('.') and len(e.args) > 1 and any(handle_of(p) is h for p in polys(e.args[1]))
    return False


def encoded(r, v):
    try:
        return r.I.enc(r.S, v)
    except Exception:
        return ()


def escapes(r, h):
    if r.dead:
        return False
    return any(h in atoms_of(p) and any(single_atom(x) is h for x in [p]) for p in polys(encoded(r, r.ret)))


# ---------------------------------------------------------------- reproducibility
CLOCK = re.compile(r'^(datetime\.(datetime|date)\.(now|utcnow|today)|time\.\w+|pandas\.Timestamp\.(now|today|utcnow)|'
                   r'os\.(environ|getenv|getpid|getppid|urandom|listdir|scandir|walk|times|cpu_count|getcwd|stat|getlogin|uname)\b.*|'
                   r'os\.path\.(getmtime|getctime|getatime)|glob\.\w+|uuid\.\w+|secrets\.\w+|platform\.\w+|socket\.\w+|'
                   r'id|hash|getpass\.\w+|tempfile\.\w+|locale\.\w+)$')
RAND = re.compile(r'^(random|numpy\.random)\.(\w+)$')
SEEDED = ('Random', 'RandomState', 'default_rng', 'Generator', 'PCG64', 'SeedSequence', 'MT19937', 'Philox', 'SFC64')


def source(a, seeded):
    """why the value of an atom is not a function of the inputs; None if it is"""
    op = a.op
    if op == 'uninit':
        return 'memory that was never written'
    n = None
    if op.startswith('ext:call:'):
        n = op[9:]
    elif op == 'extname':
        n = str(a.args[0])
        if not n.startswith('os.environ'):
            return None
    if n is None:
        return None
    if CLOCK.match(n):
        return n + '()'
    m = RAND.match(n)
    if m:
        if m.group(2) in SEEDED:
            bare = not a.args or all(single_atom(x) is not None and single_atom(x).op == 'none' for x in polys(a.args))
            return n + '() without a seed' if bare else None
        if m.group(2) in ('seed', 'set_state', 'setstate'):
            return None
        if m.group(1) in seeded:
            return None
        return n + '()'
    return None


LOG = ('logging.', 'print', 'warnings.')
STAMPS = {'ModelStartTime'}


def repeatable(items, ref=True):
    def rule(rep):
        for it in items:
            try:
                r = run(it)
            except Exception as e:
                rep.unk('%s:sources' % it.fn, '%s: %s' % (type(e).__name__, e))
                continue
            rep.functions |= {'%s.%s' % x for x in r.I.inlined}
            rep.sites += r.I.callsites
            seeded = set()
            for e in r.I.events:
                if e.kind == 'call' and e.args[0] in ('random.seed', 'numpy.random.seed') and len(e.args) > 1:
                    seeded.add(e.args[0][:-5])
            memo = {}

            def why(p):
                if p not in memo:
                    w = None
                    for a in sources_in(p):
                        w = w or source(a, seeded)
                    memo[p] = w
                return memo[p]
            found = {}

            def sink(label, x, at=''):
                w = None
                for p in polys(x):
                    w = w or why(p)
                if w:
                    found.setdefault(label, (w, at))
                else:
                    found.setdefault(label, None)
            if not r.dead:
                sink('result', encoded(r, r.ret))
            for nm, v in zip(r.names, r.args):
                sink('argument %s' % nm, encoded(r, v))
            for k, e in enumerate(r.I.events):
                if e.kind in ('call', 'setitem', 'setattr', 'pkgcall', 'delitem', 'assert', 'raise'):
                    nm = e.args[0] if isinstance(e.args[0], str) else ''
                    if e.kind == 'call' and (nm.startswith(LOG) or 'ext:call:' + nm in OPENERS):
                        continue
                    if e.kind == 'call' and any(x.op == 'ext:call:logging.getLogger' for p in polys(e.args[1:2]) for x in atoms_of(p)):
                        continue
                    if e.kind == 'setattr' and len(e.args) > 1 and e.args[1] in STAMPS:
                        continue
                    if e.kind == 'call' and source_name(nm):
                        continue
                    lab = '%s %s' % (e.kind, nm or (e.args[1] if e.kind == 'setattr' else ''))
                    sink(lab, (e.args, e.pc), where(r, e))
            for lab, w in found.items():
                key = '%s:%s does not depend on the run' % (it.fn, lab)
                if w:
                    rep.bad(key, '%s: %s depends on %s%s' % (it.fn, lab, w[0], ' at ' + w[1] if w[1] else ''))
                else:
                    rep.ok(key)
    return rule


def source_name(n):
    return bool(CLOCK.match(n)) or bool(RAND.match(n))


MUT = {'append', 'extend', 'insert', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'remove', 'add', 'discard', 'sort', 'reverse'}


def hidden_state(rep):
    """no function keeps a memory of its own between calls: module variables, mutable defaults, function attributes"""
    pkg = side.code()
    for mn, m in sorted(pkg.mods.items()):
        tree = m.tree
        top = {}
        for n in tree.body:
            for t in ([n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else n.targets if isinstance(n, ast.Assign) else []):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        top[x.id] = n
        funs = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
        fnames = {f.name for f in funs}
        read = {}
        for f in funs:
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    read.setdefault(x.id, set()).add(f.name)
        for f in funs:
            key = '%s.%s:no memory between calls' % (mn, f.name)
            own = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
            own |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            glob = {y for x in ast.walk(f) if isinstance(x, ast.Global) for y in x.names}
            own -= glob
            bad = None
            dflt = {}
            pos = f.args.posonlyargs + f.args.args
            for a, d in list(zip(pos[len(pos) - len(f.args.defaults):], f.args.defaults)) + list(zip(f.args.kwonlyargs, f.args.kw_defaults)):
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and \
                        getattr(d.func, 'id', getattr(d.func, 'attr', '')) in ('dict', 'list', 'set', 'zeros', 'empty', 'array', 'full', 'ones', 'deque', 'OrderedDict', 'defaultdict'):
                    dflt[a.arg] = d
            rebound = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for x in ast.walk(f):
                tgt = None
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
                    ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
                    for t in ts:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) and y.id in glob and y.id in read:
                                bad = bad or (x, 'writes the module variable %s' % y.id)
                            if isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, (ast.Store, ast.Del)):
                                b = y.value
                                while isinstance(b, (ast.Subscript, ast.Attribute)):
                                    b = b.value
                                if isinstance(b, ast.Name):
                                    tgt = b.id
                                    bad = bad or held(x, tgt, own, top, dflt, rebound, fnames, read, isinstance(y, ast.Attribute))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
                    b = x.func.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        bad = bad or held(x, b.id, own, top, dflt, rebound, fnames, read, False)
            if bad:
                rep.bad(key, '%s.%s (hapuamod/%s.py:%d): %s, which the next call sees' % (mn, f.name, mn, bad[0].lineno, bad[1]))
            else:
                rep.ok(key)


def held(x, nm, own, top, dflt, rebound, fnames, read, attr):
    if nm in dflt and nm not in rebound:
        return x, 'changes the default value of its parameter %s' % nm
    if nm in own:
        return None
    if nm in top and nm in read and isinstance(top[nm], (ast.Assign, ast.AnnAssign)):
        return x, 'changes the module variable %s' % nm
    if nm in fnames and attr:
        return x, 'stores an attribute on the function %s' % nm
    return None


# ---------------------------------------------------------------- masks and indices
def masks(items):
    """a truth value is not compared with an index or searched for one"""
    def rule(rep):
        for it in items:
            try:
                r = run(it)
            except Exception as e:
                rep.unk('%s:masks' % it.fn, '%s: %s' % (type(e).__name__, e))
                continue
            rep.functions |= {'%s.%s' % x for x in r.I.inlined}
            n = {}
            seen = set()
            for e in r.I.events:
                if e.kind == 'boolmix' and id(e.node) not in seen:
                    seen.add(id(e.node))
                    op = e.args[0]
                    n[op] = n.get(op, 0) + 1
                    rep.bad('%s:mask %s#%d' % (it.fn, op, n[op]), '%s (%s): a truth mask is compared (%s) with an index' % (
                        it.fn, where(r, e), op))
            rep.ok('%s:%d comparisons of masks' % (it.fn, len(seen)))
    return rule


# ---------------------------------------------------------------- configuration specification
def parse_spec(path):
    sec = ''
    out = {'': {}}
    for line in open(path, encoding='utf-8', errors='replace'):
        s = line.strip()
        if not s or s.startswith('#'):
            continue
        m = re.match(r'^(\[+)\s*(.*?)\s*\]+', s)
        if m:
            sec = m.group(2).strip('\'"')
            out.setdefault(sec, {})
            continue
        if '=' in s:
            k, v = s.split('=', 1)
            out[sec][k.strip().strip('\'"')] = norm_check(v)
    return out


def norm_check(v):
    # comments end a value outside quotes
    q = None
    for i, c in enumerate(v):
        if q:
            q = None if c == q else q
        elif c in '"\'':
            q = c
        elif c == '#':
            v = v[:i]
            break
    v = v.strip()
    if len(v) > 1 and v[0] == v[-1] and v[0] in '"\'':
        v = v[1:-1].strip()
    m = re.match(r'^(\w+)\s*(?:\((.*)\))?\s*$', v, re.S)
    if not m:
        return (v, (), ())
    args, kw = [], []
    depth, cur, q = 0, '', None
    parts = []
    for c in m.group(2) or '':
        if q:
            q = None if c == q else q
        elif c in '"\'':
            q = c
        elif c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        if c == ',' and not q and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += c
    parts.append(cur)
    for p in parts:
        p = p.strip()
        if not p:
            continue
        k = re.match(r'^(\w+)\s*=\s*(.*)$', p, re.S)
        if k:
            kw.append((k.group(1), value(k.group(2))))
        else:
            args.append(value(p))
    f = m.group(1)
    # the bounds may be given by position
    if f in ('integer', 'float', 'string', 'float_list', 'int_list', 'string_list', 'list'):
        for nm, a in zip(('min', 'max'), args):
            kw.append((nm, a))
        args = []
    kw = [(k, x) for k, x in kw if not (k in ('min', 'max') and x == ('s', 'None'))]
    return (f, tuple(args), tuple(sorted(kw)))


def value(s):
    s = s.strip()
    if len(s) > 1 and s[0] == s[-1] and s[0] in '"\'':
        s = s[1:-1]
    try:
        return ('n', float(s))
    except ValueError:
        return ('s', s)


def keys_read():
    """string keys read by subscript, get or membership anywhere in the package"""
    out = set()
    for m in side.code().mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and '\n' not in x.value and len(x.value) < 60:
                out.add(x.value)
            if isinstance(x, ast.keyword) and x.arg:
                out.add(x.arg)
            if isinstance(x, ast.Attribute):
                out.add(x.attr)
    return out


def keys_set():
    """string keys stored by subscript in the package"""
    return {x.slice.value for m in side.code().mods.values() for x in ast.walk(m.tree)
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.slice, ast.Constant)}


def spec_file():
    from . import side as s
    d = os.path.join(s.REPO, 'hapuamod')
    return os.path.join(d, 'configspec.cnf')


def undeclared(items):
    """every setting the loader reads from the configuration is declared"""
    def rule(rep):
        cur = parse_spec(spec_file())
        for it in items:
            try:
                r = run(it)
            except Exception as e:
                rep.unk('%s:settings read' % it.fn, '%s: %s' % (type(e).__name__, e))
                continue
            rep.functions |= {'%s.%s' % x for x in r.I.inlined}
            ats = set()
            for e in r.I.events:
                for p in polys((e.args, e.pc)):
                    ats |= deep(p)
            for p in polys([encoded(r, x) for x in [r.ret] + list(r.args)]):
                ats |= deep(p)
            got = set()
            for a in ats:
                path = []
                while a is not None and a.op == 'item' and len(a.args) == 2 and isinstance(a.args[1], tuple) and a.args[1][0] == 'k':
                    path.append(a.args[1][1])
                    a = single_atom(a.args[0])
                if a is not None and a.op == 'ext:call:configobj.ConfigObj' and path:
                    got.add(tuple(reversed(path)))
            for path in sorted(got):
                key = 'setting %s is declared' % '/'.join(map(str, path))
                sec = path[-2] if len(path) > 1 else ''
                if path[-1] in cur.get(sec, {}) or path[-1] in cur or path[-1] in keys_set():
                    rep.ok(key)
                else:
                    rep.bad(key, '%s: the code reads the setting %s, which hapuamod/configspec.cnf does not declare' % (it.fn, '/'.join(map(str, path))))
    return rule


def config_keys(which):
    """declared keys against the reference specification and against the keys the code reads"""
    def rule(rep):
        here = os.path.dirname(os.path.abspath(__file__))
        ref = parse_spec(os.path.join(here, 'model', 'configspec.txt'))
        if not os.path.exists(spec_file()):
            rep.unk('configspec', 'specification file not found')
            return
        cur = parse_spec(spec_file())
        reads = keys_read()
        for sec in ref:
            for k, chk in ref[sec].items():
                key = 'configspec [%s] %s' % (sec, k)
                now = cur.get(sec, {}).get(k)
                if now is None:
                    rep.bad(key, '%s: the setting is no longer declared (hapuamod/configspec.cnf)' % key)
                    continue
                d1, d2 = dict(chk[2]), dict(now[2])
                if which == 'values':
                    a, b = (chk[0] if chk[0] != 'option' else 'option', d1.get('default')), (now[0], d2.get('default'))
                    if 'Unit' in k:
                        pass
                    txt = 'type or default'
                else:
                    a = (chk[0], sorted(chk[1]) if chk[0] == 'option' else chk[1], {x: y for x, y in d1.items() if x != 'default'}, 'default' in d1)
                    b = (now[0], sorted(now[1]) if now[0] == 'option' else now[1], {x: y for x, y in d2.items() if x != 'default'}, 'default' in d2)
                    txt = 'accepted values'
                if a != b:
                    rep.bad(key, '%s (hapuamod/configspec.cnf): the %s of the setting changed from %s to %s' % (key, txt, chk, now))
                else:
                    rep.ok(key)
                if which == 'values':
                    if k not in reads:
                        rep.bad(key + ' is used', '%s: the setting is declared but never read' % key)
                    else:
                        rep.ok(key + ' is used')
        for sec in cur:
            for k in cur[sec]:
                if k not in ref.get(sec, {}) and which == 'values':
                    key = 'configspec [%s] %s is used' % (sec, k)
                    if k not in reads:
                        rep.bad(key, '%s: the setting is declared but never read' % key)
                    else:
                        rep.ok(key)
    return rule
