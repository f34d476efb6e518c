"""C35: no option is silently ignored."""
import ast

from ..core import G, strip
from ..q import runs, closure, bdd_nodes

LOG = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log',
       'warn'}
PURE = ('numpy.', 'scipy.', 'copy.', 'math.', 'itertools.', 'builtins.',
        'functools.', 'collections.')


def effect(e):
    """Does the event do anything that the caller can notice?"""
    if e.kind in ('store', 'gstore', 'mutate'):
        return True
    name = str(e.name)
    if e.kind == 'mcall':
        return name.split('.')[-1] not in LOG
    if e.kind == 'call':
        if name == 'print' or '.seed' in name or 'numpy.save' in name:
            return True
        return '.' in name and not name.startswith(PURE) and \
            name.split('.')[-1] not in LOG
    return False


def nodes(x):
    if hasattr(x, 'uid') and hasattr(x, 'op'):
        yield x
    elif isinstance(x, dict):
        for y in x.values():
            yield from nodes(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from nodes(y)


def reached(r):
    """Everything the outcome depends on."""
    out = {}

    def value(n):
        for x in closure(n):
            if x.vn in out:
                continue
            out[x.vn] = x
            if x.op == 'lambda' and r.end is not None:
                for name in captured(x):
                    v = r.end.s.get(('v', x.extra.id, name))
                    if v is not None:
                        value(v)

    def cond(f):
        for n in bdd_nodes(f):
            value(n)

    end = r.end.pc if r.end is not None else 1
    if r.ret is not None:
        value(G.simp(r.ret, end))
    for e in r.events:
        if not effect(e):
            continue
        cond(G.b.restrict(e.pc, end))
        for x in (e.a, e.b, e.c):
            for n in nodes(x):
                value(G.simp(n, G.b.AND(e.pc, end)))
    if r.end is not None:
        for k, v in r.end.s.items():
            if isinstance(k, tuple) and k and k[0] == 'o' and hasattr(
                    v, 'uid'):
                value(G.simp(v, end))
    for L in r.it.allloops:
        for f in L.breaks + L.outs:
            if isinstance(f, int):
                cond(f)
    return out


def captured(n):
    """Names a nested function reads from around it."""
    own = {a.arg for x in ast.walk(n.info.node) if isinstance(
        x, ast.arguments) for a in x.args + x.kwonlyargs}
    out = set()
    for x in ast.walk(n.info.node):
        if isinstance(x, ast.Name):
            (own if isinstance(x.ctx, ast.Store) else out).add(x.id)
    return out - own


def options(an, R):
    for f, r in runs(an):
        if f.name.startswith('_') and f.name != '__init__':
            continue
        got = reached(r)
        for p, n in r.params.items():
            if p == 'self':
                continue
            w = 'option %s of %s' % (p, f.full)
            if n.vn in got:
                R.ok('effect', w)
            else:
                R.bad('effect', w, 'has no effect on anything the function '
                      'returns, stores, draws or writes', at=f.full)


RULES = [options]
