"""C26: every Hough point obeys the constraints and its own pair."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..grid import Grid
from ..lines import walk, facts, stepkind
from ..linear import entails, implies
from ..q import closure, same
from ..ratform import Rat
from ..rows import row, cells

GEN = ('generate_hough_points', 'generate_hough_points_brute_force')
LIM = ('min_slope', 'max_slope', 'min_intercept', 'max_intercept')


def zero(n):
    r = Rat(lambda x: x.vn if x.op not in ('bin', 'un', 'const', 'wrap')
            else None)
    try:
        p, q = r.rat(n)
    except Exception:
        return None
    return not p


def columns(r, W):
    v = r.final('hough_points')
    for c, l in G.leaves(v, r.end.pc):
        yield c, [G.simp(W.cell(l, row(), G.const(k), 0), c)
                  for k in (0, 1)]


def rowsof(n, base):
    """Row indices at which a scalar expression reads the parameter."""
    out = {}
    for c, b, j, col in cells(n):
        b = strip(b)
        if b.op == 'param' and b.info == base and col is None:
            out[j.vn] = j
    return list(out.values())


def points(an, R):
    for name in GEN:
        r = an.method('HoughTransform', name)
        if r.end is None:
            R.unk('own-pair', name, 'never returns')
            continue
        W = Grid(r)
        what = 'points of ' + r.fn.full
        for c, (g, b) in columns(r, W):
            jj = rowsof(b, 'x') + rowsof(b, 'y')
            ok = False
            known = []
            for j in {x.vn: x for x in jj}.values():
                e = G.bin('-', G.bin('+', b, G.bin(
                    '*', g, sub(r, W, 'x', j))), sub(r, W, 'y', j))
                z = zero(e)
                known.append(z)
                if z:
                    ok = True
            if ok:
                R.ok('own-pair', what, 'intercept = y - gradient * x of one '
                     'pair')
            elif known and None not in known and resolved(g) and resolved(b):
                R.bad('own-pair', what, 'gradient %s and intercept %s do not '
                      'belong to one pair' % (show(g, 5)[:200],
                                              show(b, 5)[:250]),
                      at=r.name)
            else:
                R.unk('own-pair', what, show(b, 4)[:200])
            limits(an, R, r, W, what, c, g, b)


def sub(r, W, name, j):
    return G.raw('sub', (r.p(name), j))


def resolved(n):
    """Only reads of x, y and the slope limits."""
    for x in closure(n, stop=lambda y: y.op in ('sel', 'row') or (
            y.op == 'fn' and y.info == 'linspace'), gates=False):
        if x.op in ('sub', 'bin', 'un', 'const', 'param', 'sel', 'row',
                    'wrap', 'field', 'iota'):
            continue
        if x.op == 'fn' and x.info in ('linspace', 'arange', 'sort',
                                       'argsort'):
            continue
        return False
    return True


def limits(an, R, r, W, what, pc, g, b):
    lim = {k: r.init(k) for k in LIM}
    # selections of the finished columns: the innermost masks
    seen = {}
    for n in (b, g):
        st = None
        for c, base, j, col in cells(n):
            k = trailing(j)
            st = k if st is None or len(k) < len(st) else st
        seen[n.vn] = st or []
    sb, sg = seen[b.vn], seen[g.vn]
    if [s.vn for s, _ in sb] != [s.vn for s, _ in sg]:
        if sb and sg or (sb or sg):
            R.bad('both-columns', what, 'gradients are selected by %s, '
                  'intercepts by %s' % (
                      [show(s, 3)[:120] for s, _ in sg],
                      [show(s, 3)[:120] for s, _ in sb]), at=r.name)
        return
    R.ok('both-columns', what, '%d selections in both columns' % len(sb))
    f = facts(W, sb, pc)
    for k, val, up in (('min_slope', g, 0), ('max_slope', g, 1),
                       ('min_intercept', b, 0), ('max_intercept', b, 1)):
        w = '%s of %s' % (k, what)
        out = G.lt(lim[k], val) if up else G.lt(val, lim[k])
        by = spaced(val, lim, up)
        if by:
            R.ok('limit', w, 'evenly spaced between the limits')
        elif entails(f, G.b.NOT(out)):
            R.ok('limit', w, 'entailed by the selection')
        elif all(stepkind(s) == 'mask' for s, _ in sb) and (
                resolved(val)):
            R.bad('limit', w, 'is not enforced by %s' % (
                G.bshow(f, 3)[:300]), at=r.name)
        else:
            R.unk('limit', w, G.bshow(f, 3)[:200])
    # nothing else is removed
    inside = TRUE
    for k, val, up in (('min_slope', g, 0), ('max_slope', g, 1),
                       ('min_intercept', b, 0), ('max_intercept', b, 1)):
        inside = G.b.AND(inside, G.lt(val, lim[k]) if up
                         else G.lt(lim[k], val))
    if all(stepkind(s) == 'mask' for s, _ in sb):
        g0 = facts(W, sb, TRUE)
        left = G.b.AND(G.b.AND(inside, pc), G.b.NOT(g0))
        if entails(G.b.AND(inside, pc), g0):
            R.ok('keeps-inside', what, '')
        elif spaced(g, lim, 0) and spaced(g, lim, 1) and entails(
                G.b.AND(inside, pc), g0):
            R.ok('keeps-inside', what, '')
        elif G.sat(left):
            R.bad('keeps-inside', what, 'points inside the limits are '
                  'removed when %s' % G.bshow(left, 2)[:300], at=r.name)
    else:
        bad = [s for s, _ in sb if stepkind(s) in ('slice',)]
        if bad:
            R.bad('keeps-inside', what, 'only %s are kept' % show(
                bad[0], 3), at=r.name)


def trailing(j):
    """[(mask, row)] selections applied after the columns were flattened."""
    out = []
    while j.op == 'sel':
        s = j.args[0]
        if isconst(s) and s.info in ('major', 'minor'):
            out = []
        else:
            out.append((s, j))
        j = j.args[1]
    # only what follows the last flattening counts
    return out


def spaced(val, lim, up):
    """Drawn from linspace(min_slope, max_slope)."""
    v = strip(val)
    if v.op == 'sub' and strip(v.args[0]).op == 'fn' and \
            strip(v.args[0]).info == 'linspace':
        a = strip(v.args[0]).args
        return len(a) >= 2 and a[0].vn == lim['min_slope'].vn and \
            a[1].vn == lim['max_slope'].vn
    return False


def extend(an, R):
    r = an.method('HoughTransform', 'add_hough_points')
    v = r.final('hough_points')
    old = r.init('hough_points')
    for c, l in G.leaves(v, r.end.pc):
        s = strip(l)
        what = 'points after ' + r.fn.full
        if s.op == 'fn' and s.info in ('vstack', 'concatenate', 'row_stack',
                                       'append'):
            parts = s.args[0].args if strip(s.args[0]).op in (
                'tuple', 'list') and s.info != 'append' else s.args[:2]
            parts = [strip(p) for p in parts]
            if s.info == 'append' and not ('axis' in dict(s.kw or ())
                                           or len(s.args) > 2):
                R.bad('keeps-old', what, 'are flattened', at=r.name)
                continue
            mine = [p for p in parts if p.vn == strip(old).vn]
            new = [p for p in parts if p.vn != strip(old).vn]
            src = []
            for p in new:
                for d, x in G.leaves(p, c):
                    x = strip(x)
                    src.append(x.op == 'param' or (
                        x.op in ('field', 'attr') and x.info == 'hough_points'))
            if not mine:
                R.bad('keeps-old', what, 'the old points are %s' % show(s, 3),
                      at=r.name)
            elif new and all(src):
                R.ok('keeps-old', what, 'old and new points stacked')
            else:
                R.unk('keeps-old', what, show(s, 3)[:200])
        elif s.vn == strip(old).vn:
            R.bad('keeps-old', what, 'nothing is added when %s' % G.bshow(
                c, 2), at=r.name)
        elif not any(x.vn == strip(old).vn for x in closure(s)):
            R.bad('keeps-old', what, 'the old points are lost: %s' % show(
                s, 3), at=r.name)
        else:
            R.unk('keeps-old', what, show(s, 3)[:200])


def half(W, x, edges, j):
    """Is x the centre of the bin whose lower edge is edges[j]?"""
    def e(k):
        return G.raw('sub', (edges, k))
    one = G.const(1)
    forms = [
        G.bin('+', e(j), G.bin('/', G.bin('-', e(one), e(G.const(0))),
                               G.const(2))),
        G.bin('/', G.bin('+', e(j), e(G.bin('+', j, one))), G.const(2)),
        G.bin('+', e(j), G.bin('/', G.bin('-', e(G.const(-1)),
                                          e(G.const(-2))), G.const(2))),
    ]
    return any(zero(G.bin('-', x, f)) for f in forms)


def ranked(an, R):
    for name in ('bin_hough_points',):
        r = an.method('HoughTransform', name)
        hist(an, R, r)
        v = r.final('hough_lines')
        W = Grid(r)
        H = [r.final(k) for k in ('hist', 'xedges', 'yedges')]
        for c, l in G.leaves(v, r.end.pc):
            for k in (0, 1):
                x = G.simp(W.cell(l, row(), G.const(k), 0), c)
                what = '%s of a Hough line' % ('dispersion', 'intercept')[k]
                x = undiff(W, x)
                edge = H[1 + k]
                js = [b for b in subs(x, edge)
                      if not isconst(b.args[1])]
                other = [b for b in subs(x, H[2 - k])]
                if other:
                    R.bad('bin-centre', what, 'uses the edges of the other '
                          'axis: %s' % show(x, 4)[:200], at=r.name)
                    continue
                if not js:
                    R.unk('bin-centre', what, show(x, 4)[:200])
                    continue
                if any(half(W, x, edge, b.args[1]) for b in js):
                    R.ok('bin-centre', what, '')
                elif all(y.op in ('bin', 'const', 'wrap') or (
                        y.op == 'sub' and y.args[0].vn in {
                            h.vn for h in H}) for y in closure(
                            x, stop=lambda y: y.op == 'sub',
                            gates=False)):
                    R.bad('bin-centre', what, 'is %s' % show(x, 4)[:250],
                          at=r.name)
                else:
                    R.unk('bin-centre', what, show(x, 4)[:200])
                ordering(R, r, what, js, H, k)


def undiff(W, x):
    """np.diff(edges)[k] is edges[k + 1] - edges[k]."""
    m = {}
    for y in closure(x, gates=False):
        if y.op == 'sub' and strip(y.args[0]).op == 'fn' and strip(
                y.args[0]).info == 'diff' and len(
                strip(y.args[0]).args) == 1:
            e, k = strip(y.args[0]).args[0], y.args[1]
            if isconst(k) and isinstance(k.info, int) and k.info < 0:
                hi, lo = k, G.const(k.info - 1)
            else:
                hi, lo = G.bin('+', k, G.const(1)), k
            m[y.vn] = G.bin('-', G.raw('sub', (e, hi)),
                            G.raw('sub', (e, lo)))
    return W.it.subst(x, m) if m else x


def subs(x, edge):
    out = []
    for y in closure(x, gates=False):
        if y.op == 'sub' and y.args[0].vn == edge.vn:
            out.append(y)
    return out


def ordering(R, r, what, js, H, k):
    """Lines come from the bins in descending order of their count."""
    for b in js[:1]:
        j = b.args[1]
        sorts = [y for y in closure(j) if y.op == 'fn'
                 and y.info == 'argsort']
        if len(sorts) != 1:
            R.unk('most-populated', what, '%d sorts' % len(sorts))
            continue
        key = sorts[0].args[0]
        neg = False
        flat = False
        while True:
            if key.op == 'wrap':
                flat = flat or key.info == 'flat'
                key = key.args[0]
            elif key.op == 'un' and key.info == '-':
                neg = not neg
                key = key.args[0]
            elif key.op == 'bin' and key.info == '*' and any(
                    isconst(a) and a.info == -1 for a in key.args):
                neg = not neg
                key = [a for a in key.args if not isconst(a)][0]
            else:
                break
        if key.vn != H[0].vn:
            R.bad('most-populated', what, 'bins are ordered by %s' % show(
                key, 3)[:150], at=r.name)
            continue
        rev = 0
        for y in closure(j):
            if y.op == 'slice' and len(y.args) == 3 and isconst(
                    y.args[2]) and y.args[2].info == -1:
                rev += 1
            if y.op == 'fn' and y.info in ('flip', 'reversed', 'flipud'):
                rev += 1
            if y.op == 'const' and y.info == 'reversed':
                rev += 1
        if (rev % 2 == 1) != neg:
            R.ok('most-populated', what, 'descending counts')
        else:
            R.bad('most-populated', what, 'the least populated bins come '
                  'first', at=r.name)
        # the coordinate of the bin along this axis
        un = [y for y in closure(j) if y.op == 'fn' and
              y.info == 'unravel_index'] + [
            y for y in closure(j) if y.op == 'call' and
            y.info == 'numpy.unravel_index']
        if un and j.op == 'sub' and isconst(j.args[1]) and isinstance(
                j.args[1].info, int):
            if j.args[1].info == k:
                R.ok('bin-axis', what, '')
            else:
                R.bad('bin-axis', what, 'is looked up with the index along '
                      'axis %d of the histogram' % j.args[1].info, at=r.name)
            sh = un[0].args[1] if len(un[0].args) > 1 else None
            if sh is not None:
                good = sh.op == 'attr' and sh.info == 'shape' and \
                    sh.args[0].vn == H[0].vn
                if good:
                    R.ok('bin-axis', 'shape for ' + what, '')
                else:
                    R.unk('bin-axis', 'shape for ' + what, show(sh, 3))
        else:
            R.unk('bin-axis', what, show(j, 4)[:150])


def hist(an, R, r):
    """The histogram counts dispersions against intercepts."""
    p = r.init('hough_points')
    H = [r.final(k) for k in ('hist', 'xedges', 'yedges')]
    for k, name in enumerate(('hist', 'xedges', 'yedges')):
        h = H[k]
        if h.op == 'sub' and isconst(h.args[1]) and strip(
                h.args[0]).op in ('fn', 'call') and str(strip(
                    h.args[0]).info).endswith('histogram2d'):
            R.put(h.args[1].info == k, 'binning', name, '',
                  'is value %s of the histogram' % h.args[1].info)
            f = strip(h.args[0])
        else:
            R.unk('binning', name, show(h, 3)[:150])
            return
    for k in (0, 1):
        a = f.args[k]
        W = Grid(r)
        good = a.op == 'sub' and a.args[0].vn == p.vn and \
            a.args[1].op == 'tuple' and isconst(a.args[1].args[1])
        if good:
            R.put(a.args[1].args[1].info == k, 'binning',
                  'axis %d' % k, '', 'counts column %s of the points'
                  % a.args[1].args[1].info)
        else:
            R.unk('binning', 'axis %d' % k, show(a, 3)[:150])
    bins = dict(f.kw or ()).get('bins')
    if bins is None and len(f.args) > 2:
        bins = f.args[2]
    if bins is not None and strip(bins).op in ('tuple', 'list') and len(
            strip(bins).args) == 2:
        for k, q in enumerate(('xbins', 'ybins')):
            x = strip(bins).args[k]
            while x.op == 'wrap' or x.op == 'fn' and x.info == 'int':
                x = x.args[0]
            if x.vn == r.p(q).vn:
                R.ok('binning', q, '')
            elif x.op == 'param':
                R.bad('binning', q, 'axis %d is binned by %s' % (k, x.info),
                      at=r.name)
            else:
                R.unk('binning', q, show(x, 2))
    else:
        R.unk('binning', 'bins', show(bins, 2) if bins is not None else '')


def calibrator(an, R):
    """The calibrator hands over its pairs and settings."""
    r = an.method('Calibrator', 'do_hough_transform')
    want = {'min_slope': 'min_slope', 'max_slope': 'max_slope',
            'min_intercept': 'min_intercept',
            'max_intercept': 'max_intercept', 'num_slopes': 'num_slopes',
            'xbins': 'xbins', 'ybins': 'ybins'}
    seen = set()
    con = TRUE
    for e in r.events:
        if e.kind != 'icall' or e.name.cls is None or \
                e.name.cls.name != 'HoughTransform':
            continue
        for p, v in e.b.items():
            if p in want:
                f = strip(v)
                while f.op == 'fn' and f.info == 'int':
                    f = strip(f.args[0])
                w = '%s given to %s' % (p, e.name.qual)
                if f.op == 'field' and f.args[0].cls == 'Calibrator':
                    R.put(f.info == want[p], 'settings', w, '',
                          'is the calibrator\'s %s' % f.info, e)
                    seen.add(p)
                else:
                    R.unk('settings', w, show(v, 2))
            elif p in ('x', 'y') and e.name.name in GEN:
                k = 'xy'.index(p)
                W = Grid(r)
                w = '%s given to %s' % (p, e.name.qual)
                good = all(col(l) == k for c, l in G.leaves(v, e.pc))
                if good:
                    R.ok('pairs', w, 'column %d of the pairs' % k)
                elif all(col(l) is not None for c, l in G.leaves(
                        v, e.pc)):
                    R.bad('pairs', w, 'is column %d of the pairs' % [
                        col(l) for c, l in G.leaves(v, e.pc)
                        if col(l) != k][0], e)
                else:
                    R.unk('pairs', w, show(v, 3)[:150])
    # constraints are set before the points are generated
    order_ = [e.name.name for e in r.events if e.kind == 'icall' and
              e.name.cls is not None and e.name.cls.name == 'HoughTransform']
    if 'set_constraints' in order_:
        first = [i for i, n in enumerate(order_) if n in GEN]
        if first and order_.index('set_constraints') > min(first):
            R.bad('settings', 'constraints of the transform', 'are set after '
                  'the points are generated', at=r.name)
        else:
            R.ok('settings', 'constraints of the transform', 'set first')
    # and the points are generated afresh
    s = an.method('HoughTransform', 'set_constraints')
    for k in LIM:
        v = s.final(k)
        R.put(v.vn == s.p(k).vn or strip(v).vn == s.p(k).vn, 'settings',
              '%s of set_constraints' % k, '', 'is stored as %s' % show(
                  v, 3))


def col(n):
    n = strip(n)
    if n.op == 'sub' and n.args[1].op == 'tuple' and len(
            n.args[1].args) == 2 and isconst(n.args[1].args[1]):
        return n.args[1].args[1].info
    if n.op == 'sub' and isconst(n.args[1]) and strip(
            n.args[0]).op == 'fn' and strip(n.args[0]).info == 'T':
        return n.args[1].info
    return None


RULES = [points, extend, ranked, calibrator]
