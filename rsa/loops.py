"""Values that a loop accepts together."""
from .core import G, TRUE, FALSE, strip, isconst


def peel(n):
    """(mu, path): the loop-carried value behind constant subscripts."""
    path = []
    while True:
        s = n
        while s.op == 'wrap' and s.info in ('copy', 'deepcopy', 'float',
                                            'list', 'array', 'tuple'):
            s = s.args[0]
        if s.op == 'sub' and isconst(s.args[1]) and isinstance(
                s.args[1].info, (int, str)):
            path.append(s.args[1])
            n = s.args[0]
            continue
        if s.op == 'mu':
            return s, path[::-1]
        return None, None


class Out:
    """One way through a loop body (or the whole function)."""

    def __init__(self, loop, kind, pc, vals, state):
        self.loop, self.kind, self.pc = loop, kind, pc
        self.vals, self.state = vals, state


def chain(vals, pc):
    """{loop: {name: (mu, path)}} and the leaves outside loops."""
    loops, top = {}, {}
    for name, v in vals.items():
        todo, seen = [(v, (), None)], set()
        while todo:
            n, path, inside = todo.pop()
            for c, l in G.leaves(n, TRUE):
                m, p = peel(l)
                if m is None or inside is not None and not reaches(
                        m, inside):
                    continue
                full = tuple(p) + path
                k = (m.uid, tuple(x.vn for x in full))
                if k in seen:
                    continue
                seen.add(k)
                loops.setdefault(m.info, {}).setdefault(
                    name, []).append((m, full))
                todo.append((m.args[0], full, None))
                if m.next is not None:
                    todo.append((m.next, full, m))
    return loops


def reaches(m, target, d=0):
    """Does the loop-carried value m start as target?"""
    if m.vn == target.vn:
        return True
    if d > 6:
        return False
    for c, l in G.leaves(m.args[0], TRUE):
        q, _ = peel(l)
        if q is not None and reaches(q, target, d + 1):
            return True
    return False


def at(it, v, path):
    for k in path:
        v = it.index(v, k)
    return v


def outs(r, vals, limit=400):
    """Every way the values are (not) replaced, for each loop."""
    it = r.it
    res = []
    for L, names in chain(vals, r.end.pc).items():
        keys = {}
        for name, ms in names.items():
            for m, path in ms:
                for k, x in L.mus.items():
                    if x is m or x.vn == m.vn:
                        keys.setdefault(name, (k, m, path))
        for kind, st in L.outs:
            cur = [(st.pc, {})]
            for name, (k, m, path) in keys.items():
                v = st.s.get(k, m)
                v = at(it, v, path) if v.vn != m.vn else v
                new = []
                for pc, d in cur:
                    for c, l in G.leaves(v, pc):
                        if not G.sat(c):
                            continue
                        q, _ = peel(l)
                        same = q is not None and q.vn == m.vn
                        new.append((c, dict(d, **{
                            name: None if same else l})))
                cur = new
                if len(cur) > limit:
                    return None
            for pc, d in cur:
                res.append(Out(L, kind, pc, d, st))
    # what an inner loop already accepted
    mine = {m.vn for d in chain(vals, r.end.pc).values()
            for ms in d.values() for m, _ in ms}

    def handed(v):
        m = peel(v)[0]
        return m is not None and m.vn in mine

    fresh = {}
    for o in res:
        for n, v in o.vals.items():
            if v is not None and not handed(v):
                fresh.setdefault((n, v.vn), []).append(o.loop.depth)
    out = []
    for o in res:
        vals = {}
        for n, v in o.vals.items():
            if v is not None:
                if handed(v):
                    v = None            # handed on from an inner loop
                elif max(fresh[(n, v.vn)]) > o.loop.depth:
                    v = None
            vals[n] = v
        if any(v is not None for v in vals.values()):
            out.append(Out(o.loop, o.kind, o.pc, vals, o.state))
    return out
