"""Shared scenarios for the line-list rules (C04, C05, C06)."""
from .core import G, TRUE, FALSE, strip, isconst, show
from .rows import Rows, row, cells
from .interp import ismask

COLS = ('element', 'wavelength', 'intensity')


def loader(an, **given):
    """Run load_calibration_lines in one scenario.

    given: vacuum, brightest (bool), intensity (None/'float'/'list'),
    elements ('list'/'str'), nist, sep (bool)
    """
    def pre(r):
        f = TRUE
        A, N = G.b.AND, G.b.NOT

        def lit(p, on):
            return p if on else N(p)
        f = A(f, lit(G.truth(r.p('vacuum')), given.get('vacuum', False)))
        f = A(f, lit(G.isnone(r.p('brightest_n_lines')),
                     not given.get('brightest', False)))
        mi = r.p('min_intensity')
        kind = given.get('intensity', 'float')
        if kind is not None:
            f = A(f, lit(G.isnone(mi), False))
        for t in ('int', 'float', 'list', 'ndarray', 'str', 'tuple'):
            f = A(f, lit(G.isinst(mi, (t,)), kind == t))
        el = r.p('elements')
        for t in ('str', 'list', 'ndarray', 'tuple'):
            f = A(f, lit(G.isinst(el, (t,)),
                         t == given.get('elements', 'list')))
        f = A(f, lit(G.lt(G.const(0), r.p('min_distance')),
                     given.get('sep', True)))
        return f
    ll = G.const('nist' if given.get('nist', True) else 'lines.csv')
    bind = {'linelist': ll}
    if given.get('intensity', 'float') is None:
        bind['min_intensity'] = G.const(None)
    return an.func('util', 'load_calibration_lines', pre=pre, bind=bind)


SCEN = [dict(vacuum=v, brightest=b, intensity=i, elements='list')
        for v in (True, False) for b in (True, False)
        for i in (None, 'float', 'list')] + [
    dict(vacuum=True, brightest=True, intensity='int', elements='str'),
    dict(vacuum=False, brightest=True, intensity='int', elements='str'),
    dict(vacuum=False, brightest=False, intensity='float', elements='str',
         nist=False),
    dict(vacuum=False, brightest=True, intensity='ndarray',
         elements='list', nist=False),
    dict(vacuum=True, brightest=True, intensity='list', elements='list',
         sep=False)]


def label(s):
    return ','.join('%s=%s' % (k, v) for k, v in sorted(s.items()))


def rowcell(c, k):
    """The field k of the row that the cell c was read from."""
    _, base, j, _ = c
    return G.raw('sub', (G.raw('sub', (base, j)), G.const(k)))


def outputs(r):
    """The three returned columns, as expressions about one generic row."""
    R = Rows(r)
    for p in r.params:
        if G.implies(r.end.pc, G.isinst(r.p(p), ('str',))):
            R.arr[p] = False
    j = row()
    out = []
    for k in range(3):
        n = r.it.index(r.ret, G.const(k))
        out.append(G.simp(R.at(n, j), r.end.pc))
    return R, out


def walk(R, jj):
    """[(step, row index it is applied to)], first applied first.

    sel(i, j): the row of the source that position j of the selection came
    from.  The outermost sel of the chain is the first selection applied.
    """
    chain = []
    while jj.op == 'sel':
        chain.append((jj.args[0], jj))
        jj = jj.args[1]
    return chain, jj


def stepkind(s):
    """mask / sorter / slice / index."""
    t = strip(s)
    if t.op == 'slice':
        return 'slice'
    if t.op == 'const' and t.info == 'reversed':
        return 'reverse'
    if ismask(t) or t.op == 'bool':
        return 'mask'
    if t.op == 'collect' and boolish(t.args[0]):
        return 'mask'
    if t.op == 'phi':
        a, b = stepkind(t.args[0]), stepkind(t.args[1])
        return a if a == b else 'index'
    if t.op == 'fn' and t.info in ('ones', 'ones_like', 'isclose', 'isfinite',
                                   'isin', 'in1d'):
        return 'mask'
    return 'index'


def boolish(n):
    s = strip(n)
    if s.op == 'bool':
        return True
    if s.op == 'const':
        return isinstance(s.info, bool)
    if s.op == 'phi':
        return boolish(s.args[0]) and boolish(s.args[1])
    return False


def facts(R, chain, pc):
    """Condition that every selected row satisfies because of the masks."""
    f = pc
    for s, j in chain:
        if stepkind(s) == 'mask':
            f = G.b.AND(f, G.truth(G.simp(R.at(s, j), pc)))
    return f


def only(n, pc):
    """The single table cell an output reads, or None."""
    cs = cells(n, pc)
    keys = {(b.vn, j.vn, c.vn if c is not None else None)
            for _, b, j, c in cs}
    if len(keys) == 1:
        return cs[0]
    return None
