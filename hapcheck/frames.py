"""Tables (pandas data frames) as row-wise named columns.

A table is a heap cell holding a dictionary whose items are the columns written
so far, each as the value of one generic row; '@rows', '@index' and '@cols'
describe the rows, the row labels and the known order of columns.  Used for
scripts whose whole result is one table.
"""
from .poly import ONE, ap, app, atom, const, is_const, const_val, select, mul
from .values import Sc, Ref, DctC, LstC, Tup, K, Slc, Val

NONE = K(None)
READERS = ('pandas.read_table', 'pandas.read_csv', 'pandas.read_fwf', 'pandas.DataFrame')


class Loc(Val):
    __slots__ = ('fr', 'how')

    def __init__(self, fr, how):
        self.fr, self.how = fr, how


def is_frame(c):
    return isinstance(c, DctC) and '@rows' in c.items


def strs(I, S, v):
    """list of column names, or None"""
    c = I.content(S, v)
    if isinstance(c, K) and isinstance(c.v, str):
        return [c.v]
    if isinstance(c, (Tup, LstC)):
        r = [I.content(S, x) for x in c.items]
        if all(isinstance(x, K) and isinstance(x.v, str) for x in r):
            return [x.v for x in r]
    return None


def new(I, S, c):
    return Ref(I.newcell(S, c))


def col(c, k):
    if k in c.items:
        return c.items[k]
    if c.base is None:
        return None
    return Sc(app('col', (c.base, k)), 'n')


def meta(c):
    return {k: v for k, v in c.items.items() if k in ('@rows', '@index')}


def sub_frame(I, S, c, names):
    it = meta(c)
    for k in names:
        v = col(c, k)
        if v is None:
            return None
        it[k] = v
    it['@cols'] = LstC([K(k) for k in names])
    return new(I, S, DctC(None, it))


def cols(I, S, c):
    o = c.items.get('@cols')
    if o is None:
        return None
    r = strs(I, S, o)
    return r


def make(I, S, name, args, kwargs, n):
    if name == 'pandas.DataFrame':
        if len(args) == 0 and 'data' not in kwargs:
            rows, it = Sc(ap(atom('none')), 'o'), {}
        else:
            d = I.content(S, args[0] if args else kwargs['data'])
            if not isinstance(d, DctC) or d.base is not None:
                return None
            it = dict(d.items)
            rows = Sc(ap(atom('none')), 'o')
        it['@rows'] = rows
        if 'index' in kwargs:
            it['@index'] = kwargs['index']
        return new(I, S, DctC(None, it))
    kw = dict(kwargs)
    nm = kw.get('names')
    f = 'pandas.read_csv' if name == 'pandas.read_table' and 'sep' in kw else name
    if name == 'pandas.read_table' and 'delimiter' in kw:
        f = 'pandas.read_csv'
        kw['sep'] = kw.pop('delimiter')
    I.event(S, 'call', (f,) + tuple(I.enc(S, a) for a in args) + tuple(('kw', k, I.enc(S, v)) for k, v in sorted(kw.items())), n)
    I.tables = getattr(I, 'tables', 0) + 1
    base = ap(atom('table', (I.tables,)))
    it = {'@rows': Sc(base, 'o')}
    if nm is not None and strs(I, S, nm):
        it['@cols'] = LstC([K(x) for x in strs(I, S, nm)])
    return new(I, S, DctC(base, it))


def attribute(I, S, obj, c, attr):
    if isinstance(c, Sc) and attr in ('values', 'array') and c.kind != 'o':
        return c
    if not is_frame(c) or not isinstance(obj, Ref):
        return None
    if attr in ('loc', 'iloc', 'at', 'iat'):
        return Loc(obj, attr)
    if attr == 'index':
        return c.items.get('@index', Sc(app('rowlabels', (I.enc(S, c.items['@rows']),)), 'o'))
    if attr in METHODS:
        return None
    v = col(c, attr)
    return v


def rows_of(I, S, c, mask):
    """rows selected by a condition"""
    it = dict(c.items)
    it['@rows'] = Sc(app('rows', (I.enc(S, c.items['@rows']), I.truth(S, mask))), 'o')
    return new(I, S, DctC(c.base, it))


def full(x):
    return isinstance(x, Slc) and all(y is None or isinstance(y, K) and y.v is None for y in (x.a, x.b, x.s))


def index(I, S, obj, idx, n):
    """-> value or None"""
    if isinstance(obj, Loc):
        c = I.content(S, obj.fr)
        if obj.how in ('loc', 'at'):
            r = idx[0]
            if not full(r):
                rc = I.content(S, r)
                if not (isinstance(rc, Sc) and rc.kind == 'b'):
                    return None
                c = I.content(S, rows_of(I, S, c, rc))
            if len(idx) == 1:
                return new(I, S, DctC(c.base, c.items))
            if full(idx[1]):
                return new(I, S, DctC(c.base, c.items))
            ks = strs(I, S, idx[1])
            if ks is None:
                return None
            if isinstance(I.content(S, idx[1]), K):
                if full(r):
                    return col(c, ks[0])
                return None
            return sub_frame(I, S, c, ks)
        if obj.how == 'iloc' and len(idx) == 2 and full(idx[0]):
            o = cols(I, S, c)
            if o is None:
                return None
            s = idx[1]
            if isinstance(s, Slc):
                b = []
                for y in (s.a, s.b, s.s):
                    y = I.content(S, y) if y is not None else None
                    if y is None or isinstance(y, K) and y.v is None:
                        b.append(None)
                    elif isinstance(y, Sc) and is_const(y.p):
                        b.append(int(const_val(y.p)))
                    else:
                        return None
                return sub_frame(I, S, c, o[slice(*b)])
            y = I.content(S, s)
            if isinstance(y, Sc) and is_const(y.p) and -len(o) <= int(const_val(y.p)) < len(o):
                return col(c, o[int(const_val(y.p))])
            if isinstance(y, (LstC, Tup)):
                q = [I.content(S, x) for x in y.items]
                if all(isinstance(x, Sc) and is_const(x.p) for x in q):
                    return sub_frame(I, S, c, [o[int(const_val(x.p))] for x in q])
        return None
    c = I.content(S, obj)
    if not is_frame(c):
        return None
    k = I.content(S, idx[0])
    if isinstance(k, K) and isinstance(k.v, str):
        return col(c, k.v)
    ks = strs(I, S, idx[0])
    if ks is not None:
        return sub_frame(I, S, c, ks)
    if isinstance(k, Sc) and k.kind == 'b':
        return rows_of(I, S, c, k)
    return None


def store(I, S, obj, idx, v, n, op=None):
    """-> True when handled"""
    how, fr = None, obj
    if isinstance(obj, Loc):
        how, fr = obj.how, obj.fr
    c = I.content(S, fr)
    if not is_frame(c) or not isinstance(fr, Ref):
        return False
    mask = None
    if how in ('loc', 'at'):
        if len(idx) != 2:
            return False
        if not full(idx[0]):
            m = I.content(S, idx[0])
            if not (isinstance(m, Sc) and m.kind == 'b'):
                return False
            mask = m.p
        ks = strs(I, S, idx[1])
    elif how is None:
        ks = strs(I, S, idx[0])
    else:
        return False
    if ks is None:
        return False
    it = dict(c.items)
    vc = I.content(S, v)
    parts = [vc] * len(ks)
    if isinstance(vc, (Tup, LstC)) and len(vc.items) == len(ks):
        parts = [I.content(S, x) for x in vc.items]
    for k, x in zip(ks, parts):
        old = col(c, k)
        if op is not None:
            if old is None:
                return False
            x = I.content(S, I.binop(op, old, x, S, n))
        if mask is not None:
            if old is None:
                old = Sc(ap(atom('undefvar', (k,))))
            x = I.content(S, I.merge_val(S, mask, x, old, S.heap, S.heap))
        it[k] = x
    o = cols(I, S, c)
    if o is not None:
        it['@cols'] = LstC([K(x) for x in o] + [K(k) for k in ks if k not in o])
    S.heap[fr.cell] = DctC(c.base, it)
    return True


METHODS = {'set_index', 'copy', 'rename', 'drop', 'assign', 'to_csv', 'reset_index', 'sort_index', 'insert', 'pop', 'get', 'where',
           'dropna', 'resample', 'mean', 'sum', 'apply', 'abs', 'min', 'max', 'join', 'merge', 'query', 'eval', 'head', 'tail'}


def method(I, S, obj, attr, args, kwargs, n):
    c = I.content(S, obj)
    if isinstance(c, Sc) and c.kind in ('n', 'b'):
        if attr in ('where', 'mask') and len(args) == 2:
            m = I.truth(S, args[0])
            o = I.content(S, args[1])
            return I.merge_val(S, m, *((c, o) if attr == 'where' else (o, c)), S.heap, S.heap)
        if attr in ('to_numpy', 'copy') and not args:
            return c
        if attr in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(args) == 1:
            return I.compare({'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}[attr], c, args[0], S, n)
        if attr in BIN and len(args) == 1:
            return I.binop(BIN[attr], c, args[0], S, n)
        if attr in ('apply', 'map', 'pipe') and len(args) == 1 and not kwargs:
            return I.call(S, args[0], [c], {}, n)
        return None
    if not is_frame(c) or not isinstance(obj, Ref):
        return None
    inplace = 'inplace' in kwargs and I.truth(S, kwargs['inplace']) is ONE
    kw = {k: v for k, v in kwargs.items() if k != 'inplace'}
    r = None
    if attr == 'copy':
        r = DctC(c.base, c.items)
    elif attr == 'set_index' and not (set(kw) - {'keys', 'drop'}):
        a = args[0] if args else kw.get('keys')
        k = strs(I, S, a)
        it = dict(c.items)
        if k is not None and len(k) == 1:
            v = col(c, k[0])
            if v is None:
                return None
            it.pop(k[0], None)
        elif isinstance(I.content(S, a), Sc):
            v = I.content(S, a)
        else:
            return None
        it['@index'] = v
        o = cols(I, S, c)
        if o is not None and k:
            it['@cols'] = LstC([K(x) for x in o if x != k[0]])
        r = DctC(c.base, it)
    elif attr == 'rename' and set(kw) == {'columns'}:
        m = I.content(S, kw['columns'])
        if not isinstance(m, DctC) or m.base is not None:
            return None
        it = dict(c.items)
        ren = {}
        for k, v in m.items.items():
            v = I.content(S, v)
            if not (isinstance(v, K) and isinstance(v.v, str)):
                return None
            ren[k] = v.v
        new_it = {}
        for k, v in it.items():
            if k not in ren:
                new_it[k] = v
        o = cols(I, S, c)
        for k, v in ren.items():
            x = col(c, k) if (o is None or k in o or k in it) else None
            if x is not None and (k in it or c.base is not None):
                new_it[v] = x
        if o is not None:
            new_it['@cols'] = LstC([K(ren.get(x, x)) for x in o])
        r = DctC(c.base, new_it)
    elif attr == 'drop' and set(kw) == {'columns'}:
        ks = strs(I, S, kw['columns'])
        if ks is None:
            return None
        it = {k: v for k, v in c.items.items() if k not in ks}
        o = cols(I, S, c)
        if o is not None:
            it['@cols'] = LstC([K(x) for x in o if x not in ks])
        r = DctC(c.base, it)
    elif attr == 'assign' and not args:
        f = new(I, S, DctC(c.base, c.items))
        for k, v in kwargs.items():
            if isinstance(I.content(S, v), Sc):
                store(I, S, f, [K(k)], v, n)
            else:
                store(I, S, f, [K(k)], I.call(S, v, [f], {}, n), n)
        return f
    elif attr == 'insert' and len(args) == 3:
        store(I, S, obj, [args[1]], args[2], n)
        return NONE
    elif attr == 'to_csv':
        it = {k: v for k, v in c.items.items() if k != '@cols'}
        base = None if c.base is None or '@cols' not in c.items else c.base
        if 'columns' in kw:
            ks = strs(I, S, kw['columns'])
            if ks is None:
                return None
            it = dict(meta(c), **{k: col(c, k) for k in ks})
            base = None
            kw.pop('columns')
        elif c.base is not None:
            o = cols(I, S, c)
            if o is not None:
                it = dict(meta(c), **{k: col(c, k) for k in o})
                base = None
        if base is not None:
            it['@rest'] = Sc(base, 'o')
        for k in sorted(it):
            I.event(S, 'call', ('table column', K(k).v, I.enc(S, it[k])), n)
        I.event(S, 'call', ('.to_csv', len(it)) + tuple(I.enc(S, a) for a in args) +
                tuple(('kw', k, I.enc(S, v)) for k, v in sorted(kw.items())), n)
        return NONE
    if r is None:
        return None
    if inplace:
        S.heap[obj.cell] = r
        return NONE
    return new(I, S, r)


BIN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'div': 'Div', 'truediv': 'Div', 'mod': 'Mod', 'pow': 'Pow'}
