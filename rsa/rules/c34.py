"""C34: plots show the given solution and the data of the calibrator."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..interp import fullslice
from ..q import closure, mentions
from ..rows import Rows, row
from ..spaces import Spaces, told, root
from .c08 import differs

ARR = {'peaks', 'matched_peaks', 'matched_atlas', 'pixel_list', 'spectrum'}
MATCHED = {'matched_peaks', 'matched_atlas'}
OWN = {'peaks', 'pairs', 'candidates', 'pixel_list'} | MATCHED
FUNCS = ('plot_fit', 'plot_search_space', 'plot_arc')


class W(Rows):
    def _isarr(self, n):
        if n.op == 'field' and n.info in ARR:
            return True
        if ispoly(n):
            return self.isarr(n.args[1])
        return super()._isarr(n)

    def at(self, n, j, d=0):
        s = strip(n)
        if ispoly(s):
            return G.raw('dyncall', [s.args[0], super().at(
                s.args[1], j, d + 1)] + list(s.args[2:]), None, s.kw)
        return super().at(n, j, d)


class Series:
    """Points (or a line through them): x and y of the same items."""

    def __init__(self, lib, e, x, y, kind='points'):
        self.lib, self.e, self.x, self.y, self.kind = lib, e, x, y, kind
        self.pc = e.pc

    def __repr__(self):
        return '%s(%s, %s)' % (self.kind, show(self.x, 2)[:50],
                               show(self.y, 2)[:50])


def column(m, k):
    return G.raw('sub', (m, G.raw('tuple', (G.raw('slice', (
        G.const(None),) * 3), G.const(k)))))


def bare(n):
    n = strip(n)
    while n.op == 'wrap' or n.op == 'fn' and n.info in (
            'array', 'asarray', 'copy', 'list') and len(n.args) == 1:
        n = strip(n.args[0])
    return n


def drawn(r):
    """Everything drawn, whatever the library."""
    out = []
    for e in r.events:
        if e.kind not in ('call', 'mcall'):
            continue
        name = str(e.name).split('.')[-1]
        a, kw = list(e.b or ()), dict(e.c or ())
        if e.kind == 'call' and 'plotly' in str(e.name):
            if name in ('Scatter', 'Scattergl', 'Line'):
                x, y = kw.get('x'), kw.get('y')
                if x is None or y is None:
                    continue
                out.append(seg(Series('plotly', e, x, y)))
            continue
        if name in ('axhline', 'axvline', 'add_hline', 'add_vline'):
            k = 'y' if 'hline' in name else 'x'
            v = kw.get(k, a[0] if a and a[0].op != 'star' else None)
            if v is not None:
                lib = 'plotly' if name[:3] == 'add' else 'matplotlib'
                none = G.const(None)
                out.append(Series(lib, e, none, v, 'horizontal') if k == 'y'
                           else Series(lib, e, v, none, 'vertical'))
            continue
        if e.kind == 'mcall' and name == 'add_shape':
            if {'x0', 'x1', 'y0', 'y1'} <= set(kw):
                if strip(kw['x0']).vn == strip(kw['x1']).vn:
                    out.append(Series('plotly', e, kw['x0'], G.raw('list', (
                        kw['y0'], kw['y1'])), 'vertical'))
                elif strip(kw['y0']).vn == strip(kw['y1']).vn:
                    out.append(Series('plotly', e, G.raw('list', (
                        kw['x0'], kw['x1'])), kw['y0'], 'horizontal'))
            continue
        if e.kind == 'call' and 'matplotlib' not in str(e.name):
            continue
        if name in ('scatter', 'plot', 'step', 'semilogy', 'errorbar'):
            x, y = kw.get('x'), kw.get('y')
            if len(a) > 1 and a[0].op != 'star':
                x, y = a[:2]
            elif a and a[0].op == 'star':
                t = strip(a[0].args[0])
                if t.op == 'fn' and t.info == 'T' and len(t.args) == 1:
                    x, y = [column(t.args[0], k) for k in (0, 1)]
            if x is not None and y is not None:
                out.append(seg(Series('matplotlib', e, x, y)))
        elif name in ('hlines', 'vlines'):
            v = (a + [None] * 3)[:3]
            for i, k in enumerate(('y', 'xmin', 'xmax') if name == 'hlines'
                                  else ('x', 'ymin', 'ymax')):
                v[i] = kw.get(k, v[i])
            if None in v:
                continue
            ends = G.raw('list', (v[1], v[2]))
            out.append(Series('matplotlib', e, ends, v[0], 'horizontal')
                       if name == 'hlines' else
                       Series('matplotlib', e, v[0], ends, 'vertical'))
    return out


# what draws data by other means
OTHER = {'fill_between', 'fill', 'bar', 'stem', 'hist', 'imshow', 'eventplot',
         'add_collection', 'add_artist', 'add_patch', 'add_line',
         'axvspan', 'axhspan', 'axline', 'fill_betweenx', 'loglog',
         'semilogx', 'barh', 'add_traces', 'add_scatter', 'add_bar',
         'add_hrect', 'add_vrect', 'update_shapes', 'add_shapes'}


def unread(r, lib):
    """Something may be drawn that drawn() does not list."""
    seen = {s.e.uid for s in drawn(r)}
    for e in r.events:
        name = str(e.name).split('.')[-1]
        if e.uid in seen or e.kind not in ('call', 'mcall', 'dyncall'):
            continue
        if not G.sat(library(r, e.pc, lib)):
            continue
        if name in OTHER or name in ('scatter', 'plot', 'step', 'vlines',
                                     'hlines', 'add_shape', 'Scatter',
                                     'Scattergl', 'errorbar'):
            return True
        if name == 'update_layout' and 'shapes' in dict(e.c or ()):
            return True
    return False


def seg(s):
    """A line between two points of the same height or place."""
    x, y = strip(s.x), strip(s.y)
    if x.op in ('list', 'tuple') and y.op in ('list', 'tuple') and \
            len(x.args) == len(y.args) == 2:
        if y.args[0].vn == y.args[1].vn:
            s.kind, s.y = 'horizontal', y.args[0]
        elif x.args[0].vn == x.args[1].vn:
            s.kind, s.x = 'vertical', x.args[0]
    return s


def runs(an):
    for name in FUNCS:
        yield name, an.func('plotting', name)


# ---- rows ----------------------------------------------------------------
class Same(Spaces):
    """Both lists of matches have the same rows (C08)."""

    def space(self, n, d=0):
        s = bare(n)
        while s.op == 'sub' and strip(s.args[1]).op == 'tuple' and len(
                strip(s.args[1]).args) == 2 and fullslice(
                strip(s.args[1]).args[0]) and isconst(
                strip(s.args[1]).args[1]):
            n = s.args[0]           # one column
            s = bare(n)
        return self.canon(super().space(n, d))

    def canon(self, k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'base':
                n = BASE.get(k[1])
                if n in MATCHED:
                    return ('base', 'matched')
                return k
            k = tuple(self.canon(x) for x in k)
            if k and k[0] == 'zip' and len(set(k[1:])) == 1:
                return k[1]
        return k


BASE = {}


def bases(r):
    """vn of every field of the calibrator read."""
    BASE.clear()
    todo = []
    for e in r.events:
        for x in (e.a, e.b, e.c, e.res):
            if hasattr(x, 'uid'):
                todo.append(x)
            elif isinstance(x, (list, tuple)):
                todo += [y for y in x if hasattr(y, 'uid')]
                todo += [y[1] for y in x if isinstance(y, tuple) and
                         len(y) == 2 and hasattr(y[1], 'uid')]
            elif isinstance(x, dict):
                todo += [y for y in x.values() if hasattr(y, 'uid')]
    seen = set()
    for x in todo:
        for y in closure(x):
            if y.vn not in seen:
                seen.add(y.vn)
                if y.op == 'field':
                    BASE[y.vn] = y.info


def origin(k):
    k = root(k) if k is not None else None
    if k == ('base', 'matched'):
        return 'matched'
    if isinstance(k, tuple) and len(k) == 2 and k[0] == 'base':
        return BASE.get(k[1])
    return None


def rows(an, R):
    for name, r in runs(an):
        bases(r)
        S = Same(r)
        sp = r.params.get('spectrum')
        n = 0
        for s in drawn(r):
            if s.kind != 'points':
                continue
            n += 1
            w = 'points drawn by %s (%s): %s against %s' % (
                name, s.lib, short(s.y), short(s.x))
            pc = s.pc
            for c, x in G.leaves(s.x, pc):
                for d, y in G.leaves(s.y, c):
                    if G.sat(d):
                        onerow(R, r, S, w, s, G.simp(x, d), G.simp(y, d))
        if not n:
            R.unk('rows', name, 'nothing drawn is recognised')


def short(n):
    return show(n, 2)[:60]


def onerow(R, r, S, w, s, x, y):
    k, l = S.space(x), S.space(y)
    if k is None or l is None:
        return
    if k == l:
        R.ok('rows', w, told(k)[:120])
        return
    a, b = origin(k), origin(l)
    if a != b:
        if a in OWN | {'matched'} and b in OWN | {'matched'}:
            R.bad('rows', w, 'x values of the %s, y values of the %s' % (
                a, b), s.e)
        return
    if a is None and k != l:
        return
    if k[0] == 'sel' and l[0] == 'sel' or k[0] != 'sel' and l[0] != 'sel' \
            and not differs(r, k, l):
        return
    R.bad('rows', w, 'x values of the %s, y values of the %s' % (
        told(k)[:100], told(l)[:100]), s.e)


# ---- the solution --------------------------------------------------------
def ispoly(n):
    n = strip(n)
    return n.op == 'dyncall' and len(n.args) >= 3 and strip(
        n.args[0]).op == 'field' and strip(n.args[0]).info == 'polyval'


def solution(an, R):
    r = an.func('plotting', 'plot_fit')
    bases(r)
    Q = W(r)
    j = row()
    own = r.p('fit_coeff')
    per = {}
    for s in drawn(r):
        per.setdefault(s.lib, []).append(s)
    # the coefficients of every evaluation
    for name, q in runs(an):
        given = q.params.get('fit_coeff')
        for e in q.events:
            v = e.res if e.kind in ('dyncall', 'mcall', 'call') else None
            if v is None or not hasattr(v, 'uid') or not ispoly(v):
                continue
            w = 'solution evaluated by %s' % name
            if given is None:
                continue
            a = strip(v).args[1]
            if any(lines(z) or ispoly(z) for z in direct(a)):
                R.bad('coefficients', w, 'evaluated at a wavelength: %s' %
                      show(a, 3)[:120], e)
            c = strip(strip(v).args[2])
            if c.vn == given.vn:
                R.ok('coefficients', w)
            elif c.op in ('field', 'param') or isconst(c):
                R.bad('coefficients', w, 'with %s instead of those given'
                      % show(c, 2), e)
            else:
                R.unk('coefficients', w, show(c, 2)[:120])
    for lib in ('matplotlib', 'plotly'):
        curve = points = None
        resid = []
        what = 'plot_fit (%s)' % lib
        ss = per.get(lib, [])
        opaque = 0
        for s in ss:
            if s.kind != 'points':
                continue
            x, y = at(Q, s.x, j), at(Q, s.y, j)
            P = strip(x)
            if not ispoly(P):
                if ispoly(strip(y)):
                    P, y, x = strip(y), x, y
                else:
                    opaque += 1
                    continue
            F = strip(P.args[1])
            if strip(y).vn == F.vn:
                if any(z.op == 'field' and z.info == 'pixel_list'
                       for z in closure(F)):
                    curve = s
                else:
                    points = s
                continue
            if mentions(y, spectral(r)):
                continue
            judge(R, r, what, s, P, y, resid)
        for k, v, text in (('curve', curve, 'the solution against the pixel '
                            'axis'), ('points', points, 'the fitted peaks '
                                      'against their wavelengths')):
            w = '%s: %s' % (what, text)
            if v is not None:
                R.ok('solution', w)
            elif opaque or not ss:
                R.unk('solution', w, 'not found')
            else:
                R.bad('solution', w, 'is not drawn', at='plotting.plot_fit')
        if not resid:
            R.unk('residuals', what, 'not found')
        rms(R, what, ss, resid)


def at(Q, n, j, d=0):
    """Value of one row; the element picked by an index in it as well."""
    return pick(Q, Q.at(n, j))


def pick(Q, n, d=0):
    n = strip(n)
    if d > 20:
        return n
    if n.op == 'sub' and strip(n.args[1]).op == 'fn' and strip(
            n.args[1]).info in ('argmin', 'argmax'):
        x, i = strip(n.args[0]), strip(n.args[1])
        if Q.isarr(x):
            v = Q.at(x, i)
            if v.vn != n.vn:
                return pick(Q, v, d + 1)
    if n.op == 'bin':
        return G.bin(n.info, *[pick(Q, a, d + 1) for a in n.args])
    if n.op == 'un':
        return G.un(n.info, pick(Q, n.args[0], d + 1))
    return n


def spectral(r):
    sp = r.params.get('spectrum')
    return lambda z: z.op == 'field' and z.info == 'spectrum' or \
        sp is not None and z.vn == sp.vn


def lines(z):
    return z.op == 'field' and z.info in ('atlas_lines', 'matched_atlas') \
        or z.op == 'attr' and z.info == 'wavelength'


def judge(R, r, what, s, P, y, resid):
    w = what + ': residuals'
    if strip(y).vn == P.vn:
        R.bad('residuals', w, 'the wavelength of the solution against '
              'itself', s.e)
        return
    if not mentions(y, lines):
        R.unk('residuals', w, show(y, 3)[:120])
        return
    p = G.poly_of(strip(y).vn)
    m = ((P.vn, 1),)
    k = p.get(m, 0)
    if abs(k) == 1 and not [q for q in p if q != m and any(
            v == P.vn for v, _ in q)]:
        resid.append(s)
        other = [c for q, c in p.items() if q != m and len(q) == 1]
        if len(p) == 2 and other and other[0] != -k:
            R.bad('residuals', w, show(y, 4)[:160], s.e)
        else:
            R.ok('residuals', w, show(y, 3)[:120])
        nearest(R, w, s, P, y)
    elif len(p) == 2 and k and all(len(q) == 1 for q in p):
        resid.append(s)
        R.bad('residuals', w, 'a multiple of one of the two: %s' %
              show(y, 4)[:160], s.e)
    elif any(z.vn == P.vn for z in direct(y)):
        R.unk('residuals', w, show(y, 3)[:120])
    else:
        resid.append(s)
        R.bad('residuals', w, 'do not compare a line with the wavelength of '
              'the solution at that peak: %s' % show(y, 4)[:160], s.e)


def nearest(R, w, s, P, y):
    """A line looked up in the atlas is the one closest to the solution."""
    for z in direct(y):
        if z.op != 'attr' or z.info != 'wavelength':
            continue
        e = strip(z.args[0])
        if e.op != 'sub':
            continue
        i = strip(e.args[1])
        if isconst(i):
            R.bad('residuals', w, 'always of the same line of the atlas: %s'
                  % show(e, 2)[:120], s.e)
        elif i.op == 'fn' and i.info in ('argmin', 'argmax'):
            a = strip(i.args[0])
            q = strip(a.args[0]) if a.op == 'fn' and a.info == 'abs' else a
            ok = i.info == 'argmin' and a is not q
            if q.op == 'bin' and q.info == '-':
                t = [strip(b) for b in q.args]
                if not any(b.vn == P.vn or ispoly(b) and not
                           b.args[1].vn == strip(P.args[1]).vn for b in t):
                    R.unk('residuals', w, show(i, 4)[:160])
                    continue
                R.put(ok, 'residuals', w + ': of the nearest line', '',
                      'the line is not the nearest: %s' % show(i, 4)[:160],
                      s.e)
            else:
                R.unk('residuals', w, show(i, 4)[:160])


def direct(n):
    """What the value is computed from, not what selects it."""
    return closure(n, stop=lambda z: z.op == 'fn' and z.info in (
        'argmin', 'argmax'), gates=False)


def rms(R, what, ss, resid):
    w = what + ': rms of the residuals'
    ys = {bare(s.y).vn for s in resid}
    n = 0
    other = []
    for s in ss:
        if s.kind != 'horizontal':
            continue
        y = strip(s.y)
        sign = y
        while sign.op == 'un' or sign.op == 'bin' and sign.info == '*' and \
                any(isconst(a) and a.info in (-1, -1.0) for a in sign.args):
            sign = strip([a for a in sign.args if not isconst(a)][0])
        q = sign
        if q.op == 'fn' and q.info in ('std', 'nanstd', 'ptp', 'mean',
                                       'median') and len(q.args) == 1 and \
                bare(q.args[0]).vn in ys:
            other.append((q, s))
        if not (q.op == 'fn' and q.info == 'sqrt' or q.op == 'bin' and
                q.info == '**'):
            continue
        n += 1
        if not ys:
            R.unk('rms', w, 'no residuals found')
            continue
        m = strip(q.args[0])
        if q.op == 'bin' and not (isconst(q.args[1]) and
                                  q.args[1].info == 0.5):
            R.unk('rms', w, show(q, 3)[:120])
            continue
        if not any(z.vn in ys or bare(z).vn in ys for z in closure(m)):
            if any(z.op in ('collect', 'collectcat', 'field', 'append')
                   for z in closure(m)):
                R.bad('rms', w, 'is that of something else: %s' % show(
                    q, 4)[:160], s.e)
            else:
                R.unk('rms', w, show(q, 3)[:120])
            continue
        good = meansquare(m, ys)
        if good is None:
            R.unk('rms', w, show(m, 4)[:160])
        else:
            R.put(good, 'rms', w, show(m, 3)[:120], 'is the root of %s'
                  % show(m, 4)[:160], s.e)
    if other and not n:
        q, s = other[0]
        R.bad('rms', w, 'is not drawn, but the %s of them' % q.info, s.e)


def meansquare(m, ys):
    """True / False / None (not understood)."""
    if m.op == 'fn' and m.info in ('mean', 'nanmean', 'average') and \
            len(m.args) == 1:
        s = bare(m.args[0])
        if s.op == 'bin' and s.info == '**' and bare(s.args[0]).vn in ys \
                and isconst(s.args[1]):
            return s.args[1].info == 2
        if s.op == 'bin' and s.info == '*' and all(
                bare(a).vn in ys for a in s.args):
            return True
        if s.op == 'fn' and s.info == 'square' and bare(
                s.args[0]).vn in ys:
            return True
        if s.vn in ys or s.op == 'fn' and s.info == 'abs':
            return False
    if m.op == 'fn' and m.info in ('sum', 'nansum', 'median', 'max', 'std'):
        s = bare(m.args[0])
        if s.op == 'bin' and s.info == '**':
            return False
    return None


# ---- the count drawn at a peak --------------------------------------------
def picked(n):
    """The list that a selected row comes from."""
    n = bare(n)
    if n.op == 'sub' and strip(n.args[1]).op == 'sel':
        return strip(n.args[0]).vn
    return None


def counts(an, R):
    r = an.func('plotting', 'plot_fit')
    bases(r)
    Q = W(r)
    j = row()
    spec = spectral(r)
    for s in drawn(r):
        if s.kind == 'points':
            P, y = strip(at(Q, s.x, j)), at(Q, s.y, j)
        else:
            P, y = strip(s.x), s.y
        if s.kind == 'horizontal' or not ispoly(P):
            continue
        F = bare(P.args[1])
        w = 'plot_fit (%s): count of the spectrum drawn at a peak' % s.lib
        done = set()
        for z in closure(y):
            if z.op != 'sub' or z.args[1].op == 'slice' or not mentions(
                    z.args[0], spec):
                continue
            i = bare(z.args[1])
            if i.vn in done or i.vn == j.vn or isconst(i):
                continue
            done.add(i.vn)
            c = direct(i)
            if any(lines(x) or ispoly(x) for x in c):
                R.bad('counts', w, 'counted by a wavelength: %s' %
                      show(i, 3)[:120], s.e)
            elif any(bare(x).vn == F.vn for x in c) or picked(F) and any(
                    picked(x) == picked(F) for x in c):
                own = any(x.op == 'field' and x.info == 'pix_to_rawpix'
                          for x in c)
                R.put(own, 'counts', w, show(i, 3)[:120], 'at the position '
                      'of the peak, not at its place in the spectrum: %s' %
                      show(i, 3)[:120], s.e)
            elif any(x.op == 'field' and x.info in ARR | {'atlas_lines'}
                     for x in c):
                R.bad('counts', w, 'that of another place: %s instead of %s'
                      % (show(i, 3)[:100], show(F, 2)[:80]), s.e)
            else:
                R.unk('counts', w, show(i, 3)[:120])


# ---- the same with either library ----------------------------------------
def library(r, f, lib):
    """Condition under which something is drawn, with this library chosen."""
    b = G.b
    for v in b.support(f):
        for n in G.atoms[v][1]:
            n = strip(n)
            if n.op == 'field' and n.info in ('plot_with_matplotlib',
                                              'plot_with_plotly'):
                f = b.restrict(f, b.var(v) if n.info == 'plot_with_' + lib
                               else b.NOT(b.var(v)))
    return f


def form(Q, r, s, j):
    """The coordinates of one row, however the rows are written."""
    def one(n):
        n = bare(n)
        if n.op in ('list', 'tuple') and not n.kw:
            return ('list',) + tuple(one(a) for a in n.args)
        for L in s.e.loops or ():
            io = getattr(L, 'iota', None)
            if io is not None:
                n = Q.it.subst(n, {io.vn: j})
        n = bare(n)
        if n.op == 'sub' and strip(n.args[1]).vn == j.vn:
            return bare(n).vn
        if Q.isarr(n):
            return strip(Q.at(n, j)).vn
        return n.vn
    x, y = one(s.x), one(s.y)
    if s.kind == 'vertical':
        y = None            # the extent of a marker is a matter of style
    if s.kind == 'horizontal':
        x = None
    return s.kind, x, y


def libraries(an, R):
    for name in ('plot_search_space', 'plot_arc'):
        r = an.func('plotting', name)
        bases(r)
        Q = W(r)
        j = row()
        got = {'matplotlib': {}, 'plotly': {}}
        for s in drawn(r):
            f = library(r, s.pc, s.lib)
            if not G.sat(f):
                continue
            k = form(Q, r, s, j)
            c, t = got[s.lib].get(k, (FALSE, s))
            got[s.lib][k] = (G.b.OR(c, f), t)
        a, b = got['matplotlib'], got['plotly']
        if not a or not b:
            R.unk('libraries', name, 'nothing drawn is recognised')
            continue
        left, right = [], []
        for k in a:
            if k in b:
                c, d = a[k][0], b[k][0]
                w = '%s: %s' % (name, tell(a[k][1]))
                if c == d or not G.sat(G.b.OR(
                        G.b.AND(c, G.b.NOT(d)), G.b.AND(d, G.b.NOT(c)))):
                    R.ok('libraries', w)
                else:
                    x = G.b.AND(c, G.b.NOT(d))
                    y = G.b.AND(d, G.b.NOT(c))
                    R.bad('libraries', w, 'drawn with only one of the '
                          'libraries when %s' % G.bshow(
                              x if G.sat(x) else y, 2)[:120], a[k][1].e)
            else:
                left.append(a[k][1])
        right = [b[k][1] for k in b if k not in a]
        vague = {lib: unread(r, lib) for lib in got}
        keys = {id(s): k for g in (a, b) for k, (c, s) in g.items()}
        for s in left:
            k = keys[id(s)]
            t = next((t for t in right if keys[id(t)] == (
                k[0], k[2], k[1])), None)
            if t is not None and k[0] == 'points':
                R.bad('libraries', '%s: %s' % (name, tell(s)), 'x and y are '
                      'the other way round with %s' % t.lib, s.e)
                right.remove(t)
                continue
            t = next((t for t in right if t.kind == s.kind), None)
            report(R, name, s, t, vague)
            if t is not None:
                right.remove(t)
        for t in right:
            report(R, name, t, None, vague)


def tell(s):
    return '%s of %s against %s' % (
        {'points': 'points', 'horizontal': 'line', 'vertical': 'line'}[
            s.kind], short(s.y) if s.kind != 'vertical' else 'a marker',
        short(s.x) if s.kind != 'horizontal' else 'the pixels')


KNOWN = {'field', 'param', 'const', 'bin', 'un', 'list', 'tuple', 'sub',
         'slice', 'wrap', 'obj', 'phi', 'iota', 'row', 'dyncall', 'collect',
         'attr', 'bool', 'collectcat', 'listrep', 'star', 'sel', 'ext',
         'func'}


def plain(n):
    return all(z.op in KNOWN or z.op == 'fn' and z.info in (
        'max', 'min', 'len', 'ptp', 'log10', 'abs', 'arange', 'array', 'T',
        'argsort', 'unique', 'int', 'minimum', 'maximum', 'where', 'sum',
        'mean', 'median', 'std', 'nanmax', 'nanmin', 'nanmean', 'log',
        'sqrt', 'nanmedian', 'percentile')
        for z in closure(n))


def report(R, name, s, t, vague):
    w = '%s: %s' % (name, tell(s))
    other = 'plotly' if s.lib == 'matplotlib' else 'matplotlib'
    ns = [s.x, s.y] + ([t.x, t.y] if t else [])
    if all(plain(n) for n in ns) and not vague[other]:
        R.bad('libraries', w, 'drawn with %s, but %s draws %s' % (
            s.lib, other, tell(t) if t else 'nothing like it'), s.e)
    else:
        R.unk('libraries', w, 'no counterpart with %s' % other)


RULES = [rows, solution, counts, libraries]
