"""Show where two normal forms differ (for reports)."""
from . import poly as P
from .poly import Poly, Atom, show


def _mono(m, c):
    return show(P._mk({m: c}), 4)


def diff(p, q, out, path='', depth=0):
    if p is q or depth > 30 or len(out) > 12:
        return
    if isinstance(p, tuple) and isinstance(q, tuple):
        if len(p) != len(q):
            out.append('%s: %d / %d parts' % (path, len(p), len(q)))
            return
        for i, (x, y) in enumerate(zip(p, q)):
            diff(x, y, out, '%s.%d' % (path, i), depth + 1)
        return
    if isinstance(p, Atom) and isinstance(q, Atom):
        if p.op != q.op or len(p.args) != len(q.args):
            out.append('%s: %s / %s' % (path, P.show_atom(p, 4)[:300], P.show_atom(q, 4)[:300]))
            return
        for i, (x, y) in enumerate(zip(p.args, q.args)):
            diff(x, y, out, '%s>%s.%d' % (path, p.op, i), depth + 1)
        return
    if not (isinstance(p, Poly) and isinstance(q, Poly)):
        if p != q:
            out.append('%s: %s / %s' % (path, str(p)[:200], str(q)[:200]))
        return
    a = {m: c for m, c in p.terms.items() if q.terms.get(m) != c}
    b = {m: c for m, c in q.terms.items() if p.terms.get(m) != c}
    # pair monomials that differ in one atom of the same kind
    used = set()
    rest_a = []
    for m, c in a.items():
        hit = None
        for m2, c2 in b.items():
            if m2 in used or c2 != c:
                continue
            s1 = [t for t in m if t not in m2]
            s2 = [t for t in m2 if t not in m]
            if len(s1) == 1 and len(s2) == 1 and s1[0][1] == s2[0][1] and s1[0][0].op == s2[0][0].op and s1[0][0].args:
                hit = (m2, s1[0][0], s2[0][0])
                break
        if hit:
            used.add(hit[0])
            diff(hit[1], hit[2], out, path, depth + 1)
        else:
            rest_a.append((m, c))
    for m, c in rest_a[:6]:
        out.append('%s: only in first: %s' % (path, _mono(m, c)[:400]))
    for m, c in [(m, c) for m, c in b.items() if m not in used][:6]:
        out.append('%s: only in second: %s' % (path, _mono(m, c)[:400]))


def text(p, q):
    out = []
    diff(p, q, out)
    return out
