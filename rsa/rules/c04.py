"""C04: element, wavelength and intensity of a line stay together."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..lines import (loader, outputs, only, walk, stepkind, facts, SCEN,
                     label, COLS)
from ..linear import implies
from ..q import mentions, closure
from ..rows import Rows, cells, row

FIELDS = {'element': 0, 'wavelength': 1, 'intensity': 2}


def diff(W, a, b):
    """First selection in which two row indices differ."""
    x, _ = walk(W, a)
    y, _ = walk(W, b)
    for (s, _), (t, _) in zip(x, y):
        if s.vn != t.vn:
            return '%s / %s' % (show(s, 3)[:90], show(t, 3)[:90])
    k = min(len(x), len(y))
    rest = (x + y)[0:0] + (x[k:] or y[k:])
    return 'only one was selected by %s' % (
        show(rest[0][0], 3)[:120] if rest else '?')


def eqrow(a, b, pc):
    """Do two row indices agree under pc?"""
    return a.vn == b.vn or G.simp(a, pc).vn == G.simp(b, pc).vn


def loaded(an, R):
    """The columns returned by the loader are read from the same rows."""
    for s in SCEN:
        r = loader(an, **s)
        what = label(s)
        if r.ret is None:
            R.unk('aligned-columns', what, 'nothing returned')
            continue
        W, out = outputs(r)
        pc = r.end.pc
        cs = [only(o, pc) for o in out]
        if any(c is None for c in cs):
            R.unk('aligned-columns', what, 'column %s reads several cells'
                  % COLS[[c is None for c in cs].index(True)])
            continue
        good = True
        for k, c in enumerate(cs):
            col = c[3]
            if col is None or not isconst(col):
                R.unk('aligned-columns', what, 'column %s' % COLS[k])
                good = False
            elif col.info != k and col.info - 3 != k:
                good = False
                R.bad('aligned-columns', 'load_calibration_lines',
                      'value %d returned (the %s) is column %s of the line '
                      'list (%s)' % (k, COLS[k], show(col, 1), what),
                      at=r.name)
            elif k and (c[2].vn != cs[0][2].vn or c[1].vn != cs[0][1].vn):
                good = False
                R.bad('aligned-columns', 'load_calibration_lines',
                      '%s and %s come from different rows: %s (%s)' % (
                          COLS[0], COLS[k], diff(W, cs[0][2], c[2]), what),
                      at=r.name)
        if good:
            R.ok('aligned-columns', what, '%d selections in lockstep'
                 % len(walk(W, cs[0][2])[0]))


def atlas_rows(an, R):
    """Each line object is built from one row."""
    n = 0
    for name in ('add', 'add_user_atlas'):
        def pre(r):
            f = G.b.NOT(G.truth(r.p('vacuum')))
            for p in ('min_atlas_wavelength', 'max_atlas_wavelength',
                      'brightest_n_lines', 'intensities'):
                if p in r.params:
                    f = G.b.AND(f, G.b.NOT(G.isnone(r.p(p))))
            if name == 'add':
                f = G.b.AND(f, G.isinst(r.p('min_intensity'), ('float',)))
            return f
        r = an.method('Atlas', name, pre=pre,
                      bind={'linelist': G.const('nist')})
        W = Rows(r)
        evs = [e for e in r.events if e.kind == 'icall' and
               e.name.full == 'atlas.AtlasLine.__init__']
        for e in evs:
            n += 1
            part = {}
            for f in FIELDS:
                v = e.b.get(f)
                if v is not None:
                    part[f] = cells(W.flat(G.simp(v, e.pc)), e.pc)
            one_row(R, r, W, name, e, part)
    if not n:
        R.unk('one-row', 'AtlasLine', 'no construction found')


def user_order(an, R):
    """A column the caller passed keeps its order, whatever the options."""
    r = an.method('Atlas', 'add_user_atlas')
    evs = [e for e in r.events if e.kind == 'icall' and
           e.name.full == 'atlas.AtlasLine.__init__']
    if not evs:
        R.unk('user-order', 'add_user_atlas', 'no line is built')
    for e in evs:
        got = {}
        for f in FIELDS:
            v = e.b.get(f)
            if v is None:
                continue
            for x in closure(G.simp(v, e.pc)):
                if x.op == 'fn' and x.info in MOVES and x.args:
                    src = column(x.args[0])
                    if src is not None:
                        got.setdefault((x.info, x.args[1:] and tuple(
                            a.vn for a in x.args[1:])), {})[f] = (x, src)
        ok = True
        for (how, _), fs in got.items():
            if how in ('flip', 'reversed', 'roll') and len(fs) == 3:
                continue
            for f, (x, src) in sorted(fs.items()):
                ok = False
                R.bad('user-order', '%s of a user line' % f,
                      'is taken from the reordered column %s while the '
                      'other columns keep their order' % show(x, 2), e)
        if ok:
            R.ok('user-order', 'add_user_atlas:%d' % e.line,
                 'no column is reordered on its own')


MOVES = {'sort', 'sorted', 'unique', 'reversed', 'flip', 'flipud', 'roll',
         'permutation'}


def column(x, d=0):
    """The parameter whose elements are put in another order."""
    x = strip(x)
    if d > 8:
        return None
    if x.op == 'param':
        return x.info
    if x.op == 'phi':
        return column(x.args[0], d + 1) or column(x.args[1], d + 1)
    if x.op in ('bin', 'un') or x.op == 'fn':
        for a in x.args:
            c = column(a, d + 1)
            if c:
                return c
    return None


def one_row(R, r, W, name, e, part):
    fs = sorted(part)
    ok = True
    for f in fs:
        for c, b, j, col in part[f]:
            if b.op == 'param' or strip(b).op == 'param':
                want = {'element': 'elements', 'wavelength': 'wavelengths',
                        'intensity': 'intensities'}[f]
                if strip(b).info != want:
                    ok = False
                    R.bad('one-row', '%s of a user line' % f, 'is taken from '
                          '%s' % show(b, 2), e)
            elif col is not None and isconst(col) and \
                    col.info != FIELDS[f]:
                ok = False
                R.bad('one-row', '%s of a loaded line' % f, 'is column %s '
                      'of the line list' % show(col, 1), e)
    for i, f in enumerate(fs):
        for g in fs[i + 1:]:
            for c, b, j, col in part[f]:
                for d, b2, j2, col2 in part[g]:
                    if not G.sat(G.b.AND(c, d)):
                        continue
                    if col is None and col2 is None:
                        if j.vn != j2.vn:
                            ok = False
                            R.bad('one-row', '%s and %s of a user line'
                                  % (f, g), 'are taken at %s and %s' % (
                                      show(j, 3), show(j2, 3)), e)
                    elif col is not None and col2 is not None:
                        if not eqrow(j, j2, G.b.AND(c, d)):
                            ok = False
                            R.bad('one-row', '%s and %s of a loaded line'
                                  % (f, g), 'come from different rows: %s'
                                  % diff(W, j, j2), e)
    read = [f for f in fs if part[f]]
    if ok:
        if len(read) >= 2:
            R.ok('one-row', '%s:%d' % (name, e.line), ', '.join(read))
        else:
            R.unk('one-row', '%s:%d' % (name, e.line), 'fields %s' % read)


def objects(an, R):
    """A line object stores and reports each field under its own name."""
    r = an.inits.get('AtlasLine')
    if r is None:
        an.prog.method('AtlasLine', '__init__')
        return
    for f in FIELDS:
        v = r.final(f)
        p = r.p(f)
        if v is None:
            R.bad('field', 'AtlasLine.%s' % f, 'is not set', at=r.name)
            continue
        other = [q for q in ('element', 'wavelength', 'intensity', 'source')
                 if q != f and q in r.params and
                 mentions(v, lambda x, q=q: x.vn == r.p(q).vn)]
        if other:
            R.bad('field', 'AtlasLine.%s' % f, 'holds %s' % show(v, 2),
                  at=r.name)
        elif strip(v).vn == p.vn or mentions(v, lambda x: x.vn == p.vn):
            R.ok('field', 'AtlasLine.%s' % f, show(v, 2))
        else:
            R.bad('field', 'AtlasLine.%s' % f, 'holds %s' % show(v, 2),
                  at=r.name)


def getters(an, R):
    for cls in ('Atlas', 'Calibrator'):
        for g, f in (('get_lines', 'wavelength'), ('get_elements', 'element'),
                     ('get_intensities', 'intensity')):
            try:
                r = an.method(cls, g)
            except Exception:
                if cls == 'Atlas':
                    raise
                continue
            if r.ret is None:
                continue
            bad = good = False
            v = strip(r.ret)
            el = strip(v.args[0]) if v.op == 'collect' else None
            if v.op == 'fn' and v.info in MOVES and v.args and mentions(
                    v.args[0], lambda x: x.op == 'collect'):
                R.bad('getter', '%s.%s' % (cls, g), 'does not keep the '
                      'order of the lines: %s' % show(v, 3), at=r.name)
            elif el is not None and el.op in ('field', 'attr') and \
                    el.info in FIELDS:
                if el.info == f:
                    R.ok('getter', '%s.%s' % (cls, g), show(v, 3))
                else:
                    R.bad('getter', '%s.%s' % (cls, g), 'returns the %s of '
                          'every line' % el.info, at=r.name)
            else:
                R.unk('getter', '%s.%s' % (cls, g), show(v, 3))


def plotted(an, R):
    """The stems, dashes and labels of an element are its own lines."""
    def pre(r):
        f = G.b.NOT(G.truth(r.p('vacuum')))
        f = G.b.AND(f, G.isinst(r.p('min_intensity'), ('float',)))
        f = G.b.AND(f, G.isinst(r.p('elements'), ('list',)))
        f = G.b.AND(f, G.lt(G.const(0), r.p('min_distance')))
        return G.b.AND(f, G.isnone(r.p('brightest_n_lines')))
    r = an.func('plotting', 'plot_calibration_lines', pre=pre,
                bind={'linelist': G.const('nist')})
    W = Rows(r)
    n = 0
    for e in r.evs('call', 'mcall'):
        nm = str(e.name).split('.')[-1]
        if nm not in ('stem', 'vlines', 'text', 'scatter', 'bar', 'annotate'):
            continue
        if not G.sat(e.pc):
            continue
        args = list(e.b)
        xs = []
        for a in args[:2]:
            v = G.simp(a, e.pc)
            x = W.at(v, row()) if W.isarr(v) else W.flat(v)
            x = G.simp(x, e.pc)
            cs = [c for c in cells(x, e.pc) if c[3] is not None]
            if cs:
                xs.append((a, cs))
        what = '%s:%d' % (nm, e.line)
        if not xs:
            continue
        n += 1
        ok = True
        (a0, c0) = xs[0]
        for a, cs in xs[1:]:
            for c, b, j, col in c0:
                for d, b2, j2, col2 in cs:
                    if G.sat(G.b.AND(c, d)) and not eqrow(
                            j, j2, G.b.AND(c, d)):
                        ok = False
                        R.bad('plotted-row', 'plt.%s' % nm, 'positions and '
                              'heights come from different lines: %s'
                              % diff(W, j, j2), e)
        cols = [cs[0][3].info for a, cs in xs if isconst(cs[0][3])]
        if cols and cols[0] != 1 or len(cols) > 1 and cols[1] != 2:
            ok = False
            R.bad('plotted-row', 'plt.%s' % nm, 'draws %s' % ' against '.join(
                COLS[c] for c in cols), e)
        # the label names the element of the drawn lines
        kw = dict(e.c or {})
        lab = kw.get('label') or kw.get('s') or (
            args[2] if nm in ('text', 'annotate') and len(args) > 2 else None)
        names = [x for x in closure(lab)
                 if x.op == 'sub' and strip(x.args[0]).op == 'param'
                 and strip(x.args[0]).info == 'elements'] \
            if lab is not None else []
        if names:
            c, b, j, col = c0[0]
            chain, j0 = walk(W, j)
            f = facts(W, chain, G.b.AND(e.pc, c))
            el = G.raw('sub', (G.raw('sub', (b, j)), G.const(0)))
            if implies(f, G.cmp('==', el, names[0])):
                R.ok('plotted-label', what, 'element of the line == label')
            elif any(stepkind(s) == 'index' and mentions(
                    s, lambda x: x.vn == names[0].vn) for s, _ in chain):
                R.unk('plotted-label', what, 'selection not understood')
            else:
                ok = False
                R.bad('plotted-label', 'plt.%s' % nm, 'labels lines of '
                      'other elements with %s' % show(names[0], 2), e)
        if ok:
            R.ok('plotted-row', what, '%d arguments' % len(xs))
    if not n:
        R.unk('plotted-row', 'plot_calibration_lines', 'no line is drawn')


RULES = [loaded, atlas_rows, user_order, objects, getters, plotted]
