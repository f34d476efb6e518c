"""C19: options are passed through unchanged."""
import ast

from ..core import G, TRUE, FALSE, strip, isconst, show
from ..q import runs, closure, bdd_nodes

TARGETS = ('atlas.', 'houghtransform.', 'plotting.')
SAME = ('copy', 'deepcopy', 'list', 'tuple', 'asarray', 'array', 'float',
        'int', 'str', 'bool')


def target(f, fn):
    """Does f hand its work to fn?"""
    if fn.name.startswith('_') and fn.name != '__init__':
        return False
    if fn.full == 'util.load_calibration_lines':
        return True
    if f.cls is not None and fn.cls is not None and \
            f.cls.name == fn.cls.name:
        return f.full == 'atlas.Atlas.__init__'
    if fn.full.startswith('houghtransform.') and not (
            f.cls is not None and f.cls.name == 'Calibrator'):
        return False
    return fn.full.startswith(TARGETS)


def delegates(f, r):
    """Calls that leave f for the module that does the work."""
    out = []
    inner = set()
    for e in r.events:
        if e.kind == 'icall' and target(f, e.name):
            # outermost: no other delegate between f and the call
            if not any(s in inner for s in e.stack[1:]):
                out.append(e)
            inner.add(e.name.full)
    return out


def unwrap(n, p):
    """The value without conversions that keep its content."""
    while True:
        if n.op == 'wrap' and n.info in SAME:
            n = n.args[0]
        elif n.op in ('list', 'tuple') and len(n.args) == 1 and not n.kw:
            n = n.args[0]
        elif n.op == 'fn' and n.info in ('int', 'str', 'bool', 'round') and \
                n.info != 'round' and len(n.args) == 1:
            n = n.args[0]
        else:
            return n


def judge(r, e, p, v):
    """('ok'|'bad'|'unk', text) for what the callee's option p receives."""
    me = r.params[p]
    for c, l in G.leaves(v, e.pc):
        if not G.sat(c):
            continue
        s = unwrap(l, p)
        if s.vn == me.vn:
            continue
        if G.simp(me, c).vn == G.simp(s, c).vn:
            continue
        none = G.isnone(me)
        if none != FALSE and G.implies(c, none):
            continue            # the caller gave nothing
        if isconst(s):
            # the caller's value is that very constant on this path
            if G.implies(c, G.cmp('==', me, s)) or (
                    isinstance(s.info, bool) and G.implies(
                        c, G.truth(me) if s.info else
                        G.b.NOT(G.truth(me)))):
                continue
            return 'bad', 'receives %s instead when %s' % (
                show(s, 2), G.bshow(c, 2))
        if s.op == 'param' and s.info in r.params and \
                r.params[s.info].vn == s.vn:
            return 'bad', 'receives %s instead when %s' % (
                s.info, G.bshow(c, 2))
        if any(x.op == 'unknown' for x in closure(s, gates=False)):
            return 'unk', 'receives %s' % show(s, 3)
        if e.name.name == '__init__' and s.op == 'obj':
            return 'unk', 'receives a new object'
        return 'bad', 'receives %s when %s' % (show(s, 3)[:160],
                                               G.bshow(c, 2))
    return 'ok', ''


def options(an, R):
    for f, r in runs(an):
        if f.cls is None or f.cls.name not in ('Calibrator', 'Atlas'):
            continue
        if r.end is None or f.name.startswith('_') and \
                f.name != '__init__':
            continue
        ds = delegates(f, r)
        given = []
        for e in ds:
            common = [p for p in r.params if p in e.b
                      and e.name.pos[:1] != [p]]
            res = {p: judge(r, e, p, e.b[p]) for p in common}
            if common:
                given.append((e, common, res))
        if not given:
            continue
        # a delegate that is given none of the options does other work
        hand = [x for x in given if any(v[0] == 'ok' for v in
                                        x[2].values())] or given
        for e, common, res in hand:
            for p in common:
                w = '%s of %s, handed to %s' % (p, f.full, e.name.qual)
                v, text = res[p]
                if v == 'bad' and not alone(hand, e, p):
                    v = 'ok'
                if v == 'ok':
                    R.ok('passed-on', w, '')
                    if f.cls.name == 'Calibrator':
                        default(R, f, e, p, w)
                elif v == 'bad':
                    R.bad('passed-on', w, '%s' % text, e)
                else:
                    R.unk('passed-on', w, text)
            synonyms(an, R, f, r, e, common)
        if f.cls.name == 'Calibrator':
            handed(R, f, r, [e for e, _, _ in hand])
        unused(R, f, r)


def default(R, f, e, p, w):
    """Left out, the option means what it means to the operation."""
    mine, its = f.defaults().get(p), e.name.defaults().get(p)
    if mine is None or its is None:
        return
    try:
        a, b = ast.literal_eval(mine), ast.literal_eval(its)
    except ValueError:
        return
    if a is None or a == b and (type(a) is bool) == (type(b) is bool):
        R.ok('same-default', w, repr(a))
    else:
        R.bad('same-default', w, 'left out, it is %r instead of %r' % (a, b),
              at='%s:%s' % (R.path(f.full), f.node.lineno))


def alone(hand, e, p):
    """Is there a path on which only e could receive the option?"""
    left = e.pc
    for x, common, res in hand:
        if x is not e and p in res and res[p][0] == 'ok':
            left = G.b.AND(left, G.b.NOT(x.pc))
    return G.sat(left)


def synonyms(an, R, f, r, e, common):
    """Options of the callee filled from another option of the caller."""
    mine = {v.vn: k for k, v in r.params.items()}
    for q, v in e.b.items():
        if q in common or q == (e.name.pos[:1] or [None])[0]:
            continue
        for c, l in G.leaves(v, e.pc):
            s = unwrap(l, q)
            k = mine.get(s.vn)
            if k is not None and k in e.b:
                R.bad('passed-on', '%s of %s, handed to %s' % (
                    k, f.full, e.name.qual), 'fills the option %s there'
                    % q, e)


def handed(R, f, r, es):
    """Work is handed on along every path, and its result returned."""
    pc = FALSE
    for e in es:
        pc = G.b.OR(pc, e.pc)
    miss = G.b.AND(r.end.pc, G.b.NOT(pc))
    if G.sat(miss):
        R.bad('handed-on', f.full, 'nothing is handed on when %s'
              % G.bshow(miss, 2), at='%s:%s' % (R.path(f.full),
                                                f.node.lineno))
    else:
        R.ok('handed-on', f.full, '%d calls' % len(es))
    for e in es:
        if e.name.name == '__init__' or e.res is None:
            continue
        vals = [l for c, l in G.leaves(e.res, e.pc) if G.sat(c)]
        if all(isconst(l) and l.info is None for l in vals):
            continue
        bad = None
        for s, v in r.exits:
            both = G.b.AND(s.pc, e.pc)
            if not G.sat(both):
                continue
            for c, l in G.leaves(e.res, both):
                if not G.sat(c) or (isconst(l) and l.info is None):
                    continue
                for d, m in G.leaves(v, c):
                    if G.sat(d) and m.vn != l.vn and \
                            unwrap(m, '').vn != l.vn:
                        bad = bad or (d, l, m)
        if bad:
            R.bad('returned', 'result of %s, called by %s' % (
                e.name.qual, f.full), 'is %s, but %s is returned when %s' % (
                    show(bad[1], 1)[:60], show(bad[2], 1)[:60],
                    G.bshow(bad[0], 2)), e)
        else:
            R.ok('returned', 'result of %s, called by %s' % (
                e.name.qual, f.full), '')


def unused(R, f, r):
    """Every option has a use."""
    seen = set()

    def add(x):
        seen.update(y.vn for y in closure(x))
    for e in r.events:
        for x in (e.a, e.b, e.c, e.res):
            for y in nodes_of(x):
                add(y)
        for x in bdd_nodes(e.pc):
            add(x)
    for s, v in r.exits:
        add(v)
        for x in bdd_nodes(s.pc):
            add(x)
    for p, n in r.params.items():
        R.put(n.vn in seen, 'has-effect', '%s of %s' % (p, f.full), '',
              'has no effect')


def nodes_of(x):
    if hasattr(x, 'uid'):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from nodes_of(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from nodes_of(y)


RULES = [options]
