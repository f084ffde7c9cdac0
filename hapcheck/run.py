#!/usr/bin/env python3
"""run.py <property> : decide one property from the current source of /repo."""
import sys
import os
import json
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
import threading
import ast
import warnings
import select
threading.stack_size(512 * 1024 * 1024)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


JOBS = int(os.environ.get('HAPCHECK_JOBS', '8'))
MAXCASES = 400
CASE_LIMIT = 150
LIMIT = float(os.environ.get('HAPCHECK_LIMIT', '600'))


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.viol = []        # (construct key, text)
        self.obl = []         # (construct, verdict)
        self.functions = set()
        self.notes = []
        self.sites = 0
        self.cur = None
        self.cases = 0
        self.deadline = time.time() + LIMIT

    def ok(self, what):
        self.obl.append((what, 'EQ'))

    def unk(self, what, why=''):
        self.obl.append((what, 'UNK'))
        if why:
            self.notes.append('%s: %s' % (what, why))

    def bad(self, key, text):
        self.obl.append((key, 'NE'))
        self.viol.append((key, text))


def do_fun(rep, it):
    """compare code and reference model, case by case when the model asks for a case distinction"""
    from hapcheck import side
    m, name = side.resolve(side.model(), it.model)
    node = m.defs.get(name)
    cases = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'split'
                for x in ast.walk(node))
    if not cases:
        out, funs, sites, notes, alts = compare_once(it, None)
        collect(rep, it, [('', out)], funs, sites, notes)
        return
    side.code()
    todo, running, res = [[]], {}, []
    funs, sites, notes = set(), 0, set()
    done = 0
    found = False

    def close(r):
        os.close(r)
        os.waitpid(running[r]['pid'], 0)
        del running[r]

    while (todo or running) and not found:
        while todo and (not running or len(running) < JOBS and roomy()):
            dec = todo.pop()
            if done + len(running) >= MAXCASES or time.time() > rep.deadline:
                res.append((show_dec(dec), [('case', 'UNK', 'cases %s not analysed (budget)' % dec)]))
                continue
            r, w = os.pipe()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)

                    def send(kind, x):
                        os.write(w, (json.dumps([kind, x]) + '\n').encode())
                    try:
                        compare_once(it, dec, send)
                    except Exception as e:
                        if os.environ.get('HAPCHECK_VERBOSE'):
                            traceback.print_exc()
                        send('out', ('case', 'UNK', 'analysis gave up: %s %s' % (type(e).__name__, str(e)[:200])))
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = {'pid': pid, 'dec': dec, 'buf': b'', 't': time.time(), 'out': [], 'end': False}
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in list(running):
            j = running[r]
            if r in rd:
                x = os.read(r, 1 << 20)
                if x:
                    j['buf'] += x
                    *lines, j['buf'] = j['buf'].split(b'\n')
                    for ln in lines:
                        kind, y = json.loads(ln)
                        if kind == 'out':
                            j['out'].append(tuple(y))
                            found = found or y[1] == 'NE'
                        elif kind == 'alts':
                            todo += y
                        else:
                            j['end'] = True
                            funs |= set(y[0])
                            sites = max(sites, y[1])
                            notes |= set(y[2])
                    continue
                if not j['end'] and not j['out']:
                    j['out'].append(('case', 'UNK', 'the analysis of the case died'))
                if os.environ.get('HAPCHECK_CASES'):
                    print('case', j['dec'], round(time.time() - j['t'], 1), [o[:2] for o in j['out'] if o[1] != 'EQ'][:4], flush=True)
                close(r)
                done += 1
                res.append((show_dec(j['dec']), j['out']))
            elif time.time() > min(j['t'] + CASE_LIMIT, rep.deadline + 30):
                os.kill(j['pid'], 9)
                close(r)
                done += 1
                res.append((show_dec(j['dec']), j['out'] + [('case', 'UNK', 'out of time')]))
    for r in list(running):
        os.kill(running[r]['pid'], 9)
        res.append((show_dec(running[r]['dec']), running[r]['out']))
        close(r)
    rep.cases += done
    collect(rep, it, sorted(res), funs, sites, notes)


def roomy():
    """enough memory left for another case?"""
    try:
        with open('/proc/meminfo') as f:
            for ln in f:
                if ln.startswith('MemAvailable'):
                    return int(ln.split()[1]) > 5 << 20
    except OSError:
        pass
    return True


def show_dec(dec):
    return ''.join(map(str, dec))


def collect(rep, it, res, funs, sites, notes):
    """one obligation per sink: worst verdict over the cases"""
    rep.functions |= funs
    rep.sites += sites
    rep.notes += list(notes)
    rank = {'EQ': 0, 'UNK': 1, 'NE': 2}
    best = {}
    for case, out in res:
        for path, v, text in out:
            if it.only and not it.only(path):
                continue
            key = '%s%s:%s' % (it.fn, it.tag, path)
            if key not in best or rank[v] > rank[best[key][0]]:
                best[key] = (v, text, case)
    for key, (v, text, case) in best.items():
        if v == 'EQ':
            rep.ok(key)
        elif v == 'UNK':
            rep.unk(key, text)
        else:
            rep.bad(key, text)


def judge(it, a, b, names, put=None, alias=None):
    """compare every sink of the two abstractions -> [(path, verdict, code, model, note)]"""
    from hapcheck.side import Side
    s = Side(a, b)
    s.cmp.alias = alias or {}
    res = []

    def record(path, v, p, q, note):
        res.append((path, v, p, q, note, getattr(s, 'stage', None)))
        if put:
            put(path, v, p, q, note)
    s.record = record
    if a.dead != b.dead:
        s.put('termination', 'NE', None, None, 'the function never returns' if a.dead else 'the function returns')
    if 'ret' in it.sinks and not b.dead and not a.dead:
        s.val('result', a.ret, b.ret)
    if 'args' in it.sinks:
        for nm, x, y in zip(names, a.args, b.args):
            s.val(nm, x, y)
    if 'alias' in it.sinks and not b.dead and not a.dead:
        s.aliases()
    if 'assert' in it.sinks:
        s.obligations('assert')
    if 'raise' in it.sinks:
        s.raises()
    if 'effects' in it.sinks:
        a.I.events, b.I.events = a.I.composed(), b.I.composed()
        s.effects(it.kinds or ('call', 'setitem', 'setattr', 'delitem', 'pkgcall'), extra='noextra' not in it.sinks,
                  ordered='ordered' in it.sinks)
    if 'defined' in it.sinks:
        names_b = {(e.kind, e.args[0]) for e in b.I.events if e.kind in ('undef', 'maybe_undef')}
        seen = set()
        for e in a.I.events:
            if e.kind in ('undef', 'uninit') and (e.kind, e.args[0]) not in names_b and (e.kind, e.args[0]) not in seen:
                seen.add((e.kind, e.args[0]))
                s.put('%s %s' % (e.kind, e.args[0]), 'NE', None, None, 'at %s' % e.where())
        s.put('every variable read has a value', 'EQ')
    return res


def blame(roots, mt, ref, stage):
    """the properties whose part of the reference model the earliest differences lie in; None: not known"""
    from hapcheck import poly as P
    if not roots:
        return stage or None
    used = mt.seen
    out = set()
    for m in roots:
        out |= ref.stages.get(m, frozenset())
        todo, seen = [m], set()
        while todo:                    # steps of the model the code has no counterpart of
            x = todo.pop()
            for d in P.defs_in(P.DEFS[x][0]):
                if d in used or d in seen or d not in ref.stages:
                    continue
                seen.add(d)
                out |= ref.stages[d]
                todo.append(d)
    return out or None


def operations(p, ops):
    """the terms with one of the given operations that p is built from"""
    from hapcheck import poly as P
    from hapcheck.compare import open_atoms
    out, todo, seen = set(), [p], set()
    while todo:
        for a in open_atoms(todo.pop()):
            if a.op in ops or a.op.startswith('ext:') and a.op[4:].split(':')[-1] in ops:
                out.add(a)
        for d in P.closure(p):
            if d not in seen:
                seen.add(d)
                todo.append(P.DEFS[d][0])
    return out


def compare_once(it, dec, send=None):
    from hapcheck import side
    from hapcheck import poly as P
    from hapcheck.side import Side, run_fn, code, model
    from hapcheck.poly import show
    from hapcheck.compare import Align
    mf = it.model
    mp = model()
    m, name = side.resolve(mp, mf)
    node = m.defs.get(name)
    names = it.names or [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
    cfg = dict(it.cfg or {})
    mcfg = dict(cfg, model=True)
    alts = []
    if dec is not None:
        sp = {'dec': list(dec), 'atoms': []}
        run_fn(mp, mf, it.types, it.opaque, it.init, names, dict(mcfg, split=sp))
        taken = [v for a, v in sp['atoms']]
        alts = [taken[:k] + [0] for k in range(len(dec), len(taken))]
        if send:
            send('alts', alts)
        P.ASSUME.clear()
        P.reset()
        facts = sp['atoms']
        for a, v in facts:
            P.assume(a, v)
        P.settle(facts)
    b = run_fn(mp, mf, it.types, it.opaque, it.init, names, mcfg)
    named = cfg.get('adef')
    if named:
        al = Align(lambda mt: run_fn(code(), it.fn, it.types, it.opaque, it.init, names, dict(cfg, match=mt)), b.I.defs)
        a = al.res
    else:
        a = run_fn(code(), it.fn, it.types, it.opaque, it.init, names, cfg)
    out = []

    def put(path, v, p, q, note):
        t = note
        if v == 'NE' and it.tells:
            x = operations(p, it.tells) if isinstance(p, P.Poly) else set()
            if not x - (operations(q, it.tells) if isinstance(q, P.Poly) else set()):
                v, t = 'UNK', 'the difference is not one of this property'
        if v == 'NE':
            line = a.f.node.lineno
            t = '%s (hapuamod/%s.py:%d): %s differs from the specified value' % (it.fn, a.f.mod.name, line, path)
            if note:
                t += ' [%s]' % note
            if p is not None and q is not None:
                t += '\n    code:      %s\n    specified: %s' % (show(p, 7)[:1500], show(q, 7)[:1500])
            if dec is not None and facts:
                t += '\n    in the case: ' + ' and '.join(('' if v else 'not ') + P.show_atom(x, 5)[:200] for x, v in facts)
        out.append((path, v, t))
        if send and (not it.only or it.only(path)):
            send('out', (path, v, t))
    if not named:
        judge(it, a, b, names, put)
    else:
        res = judge(it, a, b, names, alias=al.alias)
        roots = {m: (c, v) for c, m, v in al.roots}
        if roots:
            lv = al.live([x[3] for x in res if isinstance(x[3], P.Poly)])
            roots = {m: x for m, x in roots.items() if m in lv}
        for path, v, p, q, note, stage in res:
            rs = []
            if isinstance(q, P.Poly) and roots:
                cl = P.closure(q)
                rs = sorted((m for m in roots if m in cl), key=lambda m: b.I.defs.get(m, 0))
            if rs:
                # a definition the value depends on differs; the first one decides
                v = 'NE' if roots[rs[0]][1] == 'NE' else 'UNK'
                p, q = P.DEFS[roots[rs[0]][0]][0], P.DEFS[rs[0]][0]
                note = 'through an intermediate value'
                ln = a.I.made.get(roots[rs[0]][0])
                if ln:
                    note += ' computed at line %d' % ln
            if v == 'NE' and it.stages:
                bl = blame(rs, al.match, b.I, stage)
                if bl is not None and not bl & it.stages:
                    v = 'UNK'
                    note = 'the difference belongs to %s' % ' '.join(sorted(bl))
            put(path, v, p, q, note)
    fs = ['%s.%s' % x for x in a.I.inlined]
    if send:
        send('end', (fs, a.I.callsites, list(a.I.notes)))
    return out, set(fs), a.I.callsites, list(a.I.notes), alts


def work(prop, rep):
    from hapcheck import specs
    for it in specs.CHECKS[prop]:
        nm = it.fn if isinstance(it, specs.Fun) else it.name
        if time.time() > rep.deadline:
            rep.unk(nm, 'out of time')
            continue
        rep.cur = nm
        try:
            if isinstance(it, specs.Fun):
                do_fun(rep, it)
            else:
                it.f(rep)
        except Exception as e:
            if os.environ.get('HAPCHECK_VERBOSE'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.unk(nm, 'analysis gave up: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
        rep.cur = None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rep = Report(prop)
    th = threading.Thread(target=work, args=(prop, rep), daemon=True)
    th.start()
    th.join(LIMIT + 60)
    if th.is_alive():
        rep.unk(rep.cur or 'analysis', 'out of time')
    known = {}
    kf = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                known[key.strip()] = text.strip()
    new = []
    for key, text in rep.viol:
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
        else:
            new.append((key, text))
    n = len(rep.obl)
    eqn = sum(1 for o in rep.obl if o[1] == 'EQ')
    unk = sum(1 for o in rep.obl if o[1] == 'UNK')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Value-graph normalisation of the current source against the reference model: '
                           'each obligation is one sink (result component, final content of an argument, assertion, '
                           'effect, structural rule instance); "undecided" ones raise no alarm.',
            'functions': sorted(rep.functions), 'call_sites': rep.sites, 'cases': rep.cases,
            'obligations': n, 'discharged': eqn, 'undecided': unk,
            'undecided_list': [o[0] for o in rep.obl if o[1] == 'UNK'][:60],
            'rule_instances': [o[0] for o in rep.obl][:400],
            'violation_list': [{'construct': k, 'text': t} for k, t in new],
            'imprecision_notes': sorted(set(rep.notes))[:60],
        },
        'assumptions': ['real arithmetic for floating point', 'numpy/pandas functions behave as modelled in hapcheck/lib.py',
                        'declared argument shapes of hapcheck/specs.py'],
        'violations': len(new),
        'wall_s': round(time.time() - t0, 2),
    }
    d = os.environ.get('HAPCHECK_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (
        prop, n, eqn, unk, len(rep.viol), time.time() - t0))
    if os.environ.get('HAPCHECK_VERBOSE'):
        for o in rep.obl:
            print('   ', o[1], o[0])
        for x in sorted(set(rep.notes)):
            print('    note', x)
    if new:
        rp = os.path.join(d, prop + '.violation.txt')
        with open(rp, 'w') as f:
            for k, t in new:
                f.write(t + '\n')
        for k, t in new:
            print(t)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
