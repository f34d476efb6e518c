"""Queries shared by the rules."""
from .core import G, TRUE, FALSE, strip, isconst, show, Node
from .front import Missing


def optional_fields(an):
    """(cls, attr) that may hold an omitted optional argument."""
    out = set()
    for g in omitted(an):
        out |= set(g)
    for f in an.entries():
        if f.name != '__init__' and not f.name.startswith('set_'):
            continue        # results, not settings
        try:
            r = an.inits[f.cls.name] if f.cls is not None and \
                f.name == '__init__' and f.cls.name in an.inits \
                else an.run(f)
        except Missing:
            continue
        for e in r.events:
            if e.kind == 'store' and e.a.cls:
                for c, l in G.leaves(e.b, e.pc):
                    s = l
                    while s.op == 'wrap' and s.info in ('copy', 'deepcopy'):
                        s = s.args[0]
                    if s.op == 'param' and G.sat(G.b.AND(c, G.isnone(s))):
                        out.add((e.a.cls, e.name))
    return out


def omitted(an):
    """Settings made by a call that may be left out altogether, which are
    None until then; those in one group are set together."""
    out = []
    for f in an.entries():
        if not f.name.startswith('set_') or f.cls is None or \
                len(f.defaults()) < len(f.params) - 1:
            continue
        i = an.inits.get(f.cls.name)
        if i is None or i.end is None:
            continue
        r = an.run(f)
        group = {}
        for e in r.events:
            if e.kind != 'store' or e.a.cls != f.cls.name:
                continue
            v = i.final(e.name)
            if v is None or not any(
                    isconst(strip(l)) and strip(l).info is None
                    for _, l in G.leaves(v, i.end.pc)):
                continue
            if all(given(l) for _, l in G.leaves(e.b, e.pc)):
                group.setdefault(e.pc, []).append((f.cls.name, e.name))
        out.extend(group.values())
    return out


def given(n):
    """An argument, perhaps converted."""
    n = strip(n)
    while n.op in ('fn', 'mcall', 'wrap') and n.args and n.info in (
            'float', 'astype', 'reshape', 'ravel', 'array', 'asarray',
            'flatten', 'copy', 'atleast_1d', 'numpy.atleast_1d'):
        n = strip(n.args[0])
    return n.op == 'param'


def none_source(n, pc):
    """Leaves of n that may be None under pc."""
    out = []
    for c, l in G.leaves(n, pc):
        s = l
        while s.op == 'wrap' and s.info in ('copy', 'deepcopy'):
            s = s.args[0]
        f = G.b.AND(c, G.isnone(s))
        if f != FALSE and G.sat(f):
            out.append((f, s))
    return out


def children(n):
    for a in n.args:
        yield a
    for _, v in n.kw or ():
        yield v
    if n.op == 'mu' and n.next is not None:
        yield n.next
    if n.op in ('phi', 'bool'):
        for v in G.b.support(n.info):
            for x in G.atoms[v][1]:
                yield x
    if n.op == 'dict':
        for k in n.info[0]:
            yield k


def closure(n, stop=None, gates=True):
    """All nodes a value is built from."""
    seen, todo = {}, [n]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen[x.uid] = x
        if stop and stop(x):
            continue
        if gates:
            todo.extend(children(x))
        else:
            todo.extend(x.args)
            todo.extend(v for _, v in x.kw or ())
            if x.op == 'mu' and x.next is not None:
                todo.append(x.next)
    return list(seen.values())


def mentions(n, pred, gates=True):
    return any(pred(x) for x in closure(n, gates=gates))


def bdd_nodes(f):
    out = []
    for v in G.b.support(f):
        out.extend(G.atoms[v][1])
    return out


FRESH_OPS = {'bin', 'un', 'bool', 'const', 'fn', 'call', 'collect',
             'collectcat', 'dictcollect', 'listrep', 'concat', 'rnd', 'obj',
             'tuple', 'list', 'dict', 'set', 'dyncall', 'iota', 'func', 'ext',
             'class', 'lambda', 'module', 'partial', 'unbound', 'cbarg'}


def roots(n):
    """Nodes whose run-time object the value may share memory with."""
    from .interp import isview
    out, seen, todo = {}, set(), [n]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'phi':
            todo.extend(x.args)
        elif x.op == 'wrap':
            if not x.extra:
                todo.append(x.args[0])
        elif x.op == 'mu':
            todo.append(x.args[0])
            if x.next is not None:
                todo.append(x.next)
        elif x.op == 'sub':
            i = x.args[1]
            if isview(x) or (i.op == 'const') or i.op in (
                    'iota', 'param', 'bin', 'mu'):
                if strip(x.args[0]).op in ('tuple', 'list'):
                    pass
                todo.append(x.args[0])
        elif x.op == 'iterel':
            todo.append(x.args[0])
        elif x.op in ('append', 'extend', 'update', 'mut', 'slot'):
            todo.append(x.args[0])
        elif x.op == 'fn' and x.info in ('T', 'swapaxes'):
            todo.append(x.args[0])
        elif x.op == 'fn' and x.info == 'zip':
            todo.extend(x.args)
        elif x.op in ('tuple', 'list') and x is not n:
            todo.extend(x.args)
        elif x.op == 'attr':
            out[x.uid] = x
            todo.append(x.args[0])
        elif x.op in FRESH_OPS:
            if x.extra and isinstance(x.extra, tuple):
                out[x.uid] = x
        else:
            out[x.uid] = x
    return list(out.values())


def field_root(n):
    """field chain -> (class, attr, base object)."""
    if n.op == 'field':
        return n.args[0].cls, n.info, n.args[0]
    return None


def same(a, b, pc=TRUE):
    """Do both values agree under pc?"""
    a, b = G.simp(a, pc), G.simp(b, pc)
    if a.vn == b.vn:
        return True
    la, lb = G.leaves(a, pc), G.leaves(b, pc)
    if len(la) > 32 or len(lb) > 32:
        return False
    for c, x in la:
        for d, y in lb:
            f = G.b.AND(c, d)
            if x.vn != y.vn and G.sat(f):
                if G.simp(x, f).vn != G.simp(y, f).vn:
                    return False
    return True


def fname(e):
    return '%s:%s' % (e.fn, e.line)


def public(an):
    """Public entry points: no leading underscore."""
    return [f for f in an.entries()
            if not f.name.startswith('_') or f.name == '__init__']


def runs(an, only=None):
    for f in an.entries():
        if only and not only(f):
            continue
        try:
            if f.name == '__init__' and f.cls is not None and \
                    f.cls.name in an.inits:
                yield f, an.inits[f.cls.name]
            else:
                yield f, an.run(f)
        except Missing:
            continue
