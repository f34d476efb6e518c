"""C14: pixels, wavelengths, dispersions and intensities are kept apart."""
from ..core import G, TRUE, strip, isconst, show, Node
from ..kinds import (Kinds, U, BOT, P, W, I, D, unit, coef, join, clash,
                     known, names, elem, many, value, joins)
from ..entry import API
from ..q import bdd_nodes, runs

u = U
E = unit(E=1)
KEL, CEL, PA, RH = unit(K=1), unit(degC=1), unit(Pa=1), unit(RH=1)
PAIRS = ('tab', (u(P), u(W)))
POINTS = ('tab', (u(D), u(W)))
TABLE = ('tab', (u(E), u(W), u(I)))
SOLUTION = ('row', (u(coef()), u(P), u(W), u(W), u(W), BOT, BOT))

PARAMS = {
    'peaks': u(P), 'spectrum': u(I), 'pix': u(P), 'wave': u(W),
    'pixel_list': u(P), 'min_wavelength': u(W), 'max_wavelength': u(W),
    'min_atlas_wavelength': u(W), 'max_atlas_wavelength': u(W),
    'min_slope': u(D), 'max_slope': u(D), 'min_intercept': u(W),
    'max_intercept': u(W), 'range_tolerance': u(W),
    'linearity_tolerance': u(W), 'candidate_tolerance': u(W),
    'ransac_tolerance': u(W), 'fit_tolerance': u(W), 'tolerance': u(W),
    'wavelength': u(W), 'wavelengths': u(W), 'intensities': u(I),
    'intensity': u(I), 'min_intensity': u(I), 'min_distance': u(W),
    'min_separation': u(W), 'temperature': u(KEL), 'pressure': u(PA),
    'relative_humidity': u(RH), 'fit_coeff': u(coef()), 'hp': POINTS,
    'window_width': u(P), 'elements': u(E), 'element': u(E),
    'matched_peaks': u(P), 'matched_atlas': u(W),
    'minimum_fit_error': u(W), 'num_pix': u(P), 'vapour_pressure': u(PA),
}
# (function, parameter) where the name alone does not say it
SPECIFIC = {
    ('HoughTransform.generate_hough_points', 'x'): u(P),
    ('HoughTransform.generate_hough_points', 'y'): u(W),
    ('HoughTransform.generate_hough_points_brute_force', 'x'): u(P),
    ('HoughTransform.generate_hough_points_brute_force', 'y'): u(W),
    ('filter_wavelengths', 'lines'): TABLE,
    ('filter_intensity', 'lines'): TABLE,
    ('get_vapour_pressure', 'temperature'): u(CEL),
    ('edlen_refraction', 'temperature'): u(CEL),
    ('Calibrator.manual_refit', 'x0'): u(coef()),
    ('Calibrator._adjust_polyfit', 'fit'): u(coef()),
    ('Calibrator.set_hough_properties', 'num_slopes'): BOT,
}
FIELDS = {
    'Calibrator': {
        'peaks': u(P), 'spectrum': u(I), 'pixel_list': u(P),
        'num_pix': u(P), 'pix_known': u(P), 'wave_known': u(W),
        'matched_peaks': u(P), 'matched_atlas': u(W), 'residuals': u(W),
        'residual': u(W), 'rms': u(W), 'pairs': PAIRS,
        'hough_points': POINTS, 'hough_lines': POINTS,
        'fit_coeff': u(coef()), 'fit_tolerance': u(W),
        'ransac_tolerance': u(W), 'linearity_tolerance': u(W),
        'range_tolerance': u(W), 'candidate_tolerance': u(W),
        'min_wavelength': u(W), 'max_wavelength': u(W),
        'min_slope': u(D), 'max_slope': u(D), 'min_intercept': u(W),
        'max_intercept': u(W), 'minimum_fit_error': u(W),
        'polyval': ('polyval',), 'polyfit': ('polyfit',),
        'pix_to_rawpix': ('pix', BOT),
        'candidates': ('tab', (u(P), u(W), BOT))},
    'HoughTransform': {
        'hough_points': POINTS, 'hough_lines': POINTS, 'xedges': u(D),
        'yedges': u(W), 'min_slope': u(D), 'max_slope': u(D),
        'min_intercept': u(W), 'max_intercept': u(W), 'hist': BOT},
    'Atlas': {
        'min_wavelength': u(W), 'max_wavelength': u(W),
        'min_atlas_wavelength': u(W), 'max_atlas_wavelength': u(W),
        'min_intensity': u(I), 'min_distance': u(W),
        'range_tolerance': u(W)},
    'AtlasLine': {'wavelength': u(W), 'intensity': u(I), 'element': u(E)},
    'SyntheticSpectrum': {'min_wavelength': u(W), 'max_wavelength': u(W)},
}
RETURNS = {
    'Calibrator.fit': SOLUTION, 'Calibrator.match_peaks': SOLUTION,
    'Calibrator.manual_refit': ('row', SOLUTION[1][:5]),
    'Calibrator.get_pix_wave_pairs': ('tab', (BOT, u(P), u(W))),
    'Atlas.get_lines': u(W), 'Atlas.get_intensities': u(I),
    'Atlas.get_elements': u(E),
    'SyntheticSpectrum.get_pixels': ('row', (u(P), u(W))),
    'refine_peaks': u(P), 'load_calibration_lines': ('row', (
        u(E), u(W), u(I))),
    'filter_wavelengths': TABLE, 'vacuum_to_air_wavelength': u(W),
    'air_to_vacuum_wavelength': u(W),
}
# files with a known layout
ANY = object()


def label(f):
    return '%s.%s' % (f.cls.name, f.name) if f.cls is not None else f.name


def kindof(f, p):
    t = SPECIFIC.get((label(f), p))
    return t if t is not None else PARAMS.get(p)


def roots_of(f):
    def roots(n, K):
        if n.op == 'param':
            t = kindof(f, n.info)
            return t if t is not None else (0 if n.info == 'self' else None)
        if n.op == 'field':
            c = FIELDS.get(n.args[0].cls)
            if c and n.info in c:
                return c[n.info]
            if n.args[0].cls is None:
                ts = {f[n.info] for f in FIELDS.values() if n.info in f}
                if len(ts) == 1:
                    return ts.pop()
            return None
        if n.op == 'attr' and n.info in FIELDS['AtlasLine']:
            return FIELDS['AtlasLine'][n.info]
        if n.op == 'call':
            return TABLE
        return 0
    return roots


def nodes_of(e):
    out = []
    for x in (e.a, e.b, e.c, e.res):
        put(x, out)
    out.extend(bdd_nodes(e.pc))
    return out


def put(x, out):
    if isinstance(x, Node):
        out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            put(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            put(v, out)


def robust_result(e, K):
    b = e.b
    if e.name.name == 'robust_polyfit' and 'x' in b and 'y' in b:
        x, y = K.of(b['x']), K.of(b['y'])
        if single(x) and single(y):
            return u(('coef',) + tuple(y[1]) + tuple(x[1]))
    return None


def single(t):
    return t is not None and t[0] == 'u' and len(t[1]) == 1


def assume(K, evs):
    """Results of the calls of public functions have the kind they declare
    (which is decided where the function itself is analysed)."""
    for e in evs:
        if e.kind != 'icall' or e.res is None:
            continue
        t = RETURNS.get(label(e.name)) or robust_result(e, K)
        if t is None:
            continue
        give(K, e.res, t)


def give(K, n, t):
    s = n
    while s.op == 'wrap':
        s = s.args[0]
    if t[0] == 'row' and s.op in ('tuple', 'list'):
        for x, y in zip(s.args, t[1]):
            give(K, x, y)
    elif n.op not in ('const', 'param', 'field'):
        K.over.setdefault(n.uid, t)


class Walk:
    def __init__(self, R, r, f):
        self.R, self.r, self.f = R, r, f
        self.K = Kinds(r, roots_of(f))
        self.seen = set()
        self.done = 0
        self.skip = 0
        self.bad = 0
        self.told = set()

    def run(self):
        K, r = self.K, self.r
        every = []
        for e in r.events:
            every.extend(nodes_of(e))
        if r.ret is not None:
            every.append(r.ret)
        assume(K, r.events)
        K.settle(every)
        assume(K, r.events)
        K.settle(every)
        for e in r.events:
            if not G.sat(e.pc):
                continue
            for n in nodes_of(e):
                self.visit(n, e)
            self.atoms(e.pc, e)
            self.event(e)
        if r.ret is not None:
            self.result()
        self.kept()
        drawn(self)
        what = self.f.full
        if not self.bad:
            self.R.ok('kinds', what, '%d uses compared, %d with a value that '
                      'is not followed' % (self.done, self.skip))

    def tell(self, rule, what, detail, e, n=None):
        k = (rule, what, e.line if e is not None else None)
        if k in self.told:
            return
        self.told.add(k)
        self.bad += 1
        if e is not None:
            self.R.bad(rule, what, detail, ev=e)
        else:
            self.R.bad(rule, what, detail, at=self.f.full.split('.')[0])

    def pair(self, a, b, rule, what, e, n=None):
        """Two values used as one kind."""
        s, t = (x if not isinstance(x, Node) else self.K.of(x)
                for x in (a, b))
        if s == BOT or t == BOT:
            return
        if not known(s) or not known(t):
            self.skip += 1
            return
        self.done += 1
        if clash(s, t):
            self.tell(rule, '%s %s %s' % (names(s), what, names(t)),
                      show(n, 4)[:160] if n is not None else '', e)

    def visit(self, n, e):
        todo = [n]
        while todo:
            x = todo.pop()
            if x.uid in self.seen:
                continue
            self.seen.add(x.uid)
            todo.extend(x.args)
            for _, v in x.kw or ():
                if isinstance(v, Node):
                    todo.append(v)
            if x.op == 'mu' and x.next is not None:
                todo.append(x.next)
            if x.op in ('phi', 'bool'):
                self.atoms(x.info, e)
            self.node(x, e)

    def atoms(self, f, e):
        if not isinstance(f, int) or f <= 1:
            return
        for v in G.b.support(f):
            k = ('atom', v)
            if k in self.seen:
                continue
            self.seen.add(k)
            pred, nodes, info, vns = G.atoms[v]
            for x in nodes:
                self.visit(x, e)
            if pred in ('pos', 'eq') and len(nodes) == 2:
                self.pair(nodes[0], nodes[1], 'compared', 'compared with',
                          e, nodes[0])
            elif pred == 'in' and len(nodes) == 2:
                t = self.K.of(nodes[1])
                self.pair(nodes[0], elem(t) if t is not None else None,
                          'compared', 'looked up in', e, nodes[0])

    def node(self, n, e):
        op, a = n.op, n.args
        if op == 'bin' and n.info in ('+', '-'):
            self.pair(a[0], a[1], 'mixed', 'and' if n.info == '+' else
                      'minus', e, n)
        elif op == 'fn':
            f = n.info
            if f in ('minimum', 'maximum', 'isclose', 'searchsorted', 'isin',
                     'digitize', 'allclose', 'intersect1d', 'setdiff1d',
                     'union1d', 'linspace', 'arange') and len(a) > 1:
                self.pair(a[0], a[1], 'mixed', 'and', e, n)
            elif f in ('where', 'where3') and len(a) == 3:
                self.pair(a[1], a[2], 'mixed', 'or', e, n)
            elif f == 'interp' and len(a) > 2:
                self.pair(a[0], a[1], 'mixed', 'interpolated in', e, n)
            elif f == 'append' and len(a) > 1:
                self.pair(a[0], a[1], 'mixed', 'and', e, n)
            elif f == 'insert' and len(a) > 2:
                self.pair(a[0], a[2], 'mixed', 'and', e, n)
            elif f in ('concatenate', 'vstack', 'hstack') and a:
                x = strip(a[0])
                if x.op in ('list', 'tuple') and not x.kw:
                    for y in x.args[1:]:
                        if f == 'vstack':
                            s, t = (self.K.of(z) for z in (x.args[0], y))
                            if s is None or t is None or s[0] != 'tab' or \
                                    t[0] != 'tab':
                                continue
                        self.pair(x.args[0], y, 'mixed', 'and', e, n)
        elif op == 'append' and len(a) == 2:
            t = self.K.of(a[1])
            self.pair(a[0], many(t), 'mixed', 'and', e, n)
        elif op == 'update' and len(a) == 3:
            s, t = self.K.of(a[0]), self.K.of(a[2])
            if s is not None and t is not None and s[0] == t[0] == 'u':
                self.pair(s, t, 'mixed', 'overwritten by', e, n)
        elif op in ('call', 'dyncall', 'mcall'):
            self.external(n, e)

    def external(self, n, e):
        K, a = self.K, n.args
        s = str(n.info)
        last = s.split('.')[-1]
        if n.op == 'dyncall' and a:
            f = K.of(a[0])
            if f is not None and f[0] == 'spl' and len(a) > 2:
                self.pair(f[1], a[1], 'looked-up', 'axis looked up at', e, n)
                self.pair(f[2], a[2], 'looked-up', 'axis looked up at', e, n)
            elif f is not None and f[0] == 'polyval' and len(a) > 2:
                self.poly(a[1], a[2], e, n)
        elif n.op == 'call' and last in ('polyval', 'legval', 'chebval') and \
                len(a) > 1:
            self.poly(*(a[:2] if s != 'numpy.polyval' else a[1::-1]), e, n)
        elif n.op == 'call' and last in ('Delaunay', 'ConvexHull') and a:
            ps = strip(a[0])
            if ps.op in ('list', 'tuple') and not ps.kw and \
                    len(ps.args) <= 12:
                for i, x in enumerate(ps.args):
                    for y in ps.args[:i]:
                        self.pair(x, y, 'mixed', 'next to', e, n)
        elif n.op == 'mcall' and s == 'find_simplex' and len(a) > 1:
            f = K.of(a[0])
            if f is not None and f[0] == 'hull':
                self.pair(f[1], many(elem(K.of(a[1]))), 'looked-up',
                          'hull searched for', e, n)
        elif n.op == 'mcall' and s == 'ev' and len(a) > 2:
            f = K.of(a[0])
            if f is not None and f[0] == 'spl':
                self.pair(f[1], a[1], 'looked-up', 'axis looked up at', e, n)
                self.pair(f[2], a[2], 'looked-up', 'axis looked up at', e, n)

    def poly(self, x, c, e, n):
        t = self.K.of(c)
        if single(t):
            (k,) = t[1]
            if k and k[0] == 'coef':
                self.pair(x, u(k[2]), 'evaluated',
                          'given to a polynomial in', e, n)

    def event(self, e):
        K = self.K
        if e.kind == 'store' and isinstance(e.b, Node):
            t = FIELDS.get(e.a.cls, {}).get(e.name)
            if t is not None and known(t):
                for c, l in G.leaves(e.b, e.pc):
                    if G.sat(c) and not (isconst(l) and l.info is None):
                        self.pair(l, t, 'stored', 'kept as %s, a' % e.name,
                                  e, l)
        elif e.kind == 'icall':
            for p, v in e.b.items():
                t = kindof(e.name, p)
                if t is not None and isinstance(v, Node) and \
                        self.public(e.name):
                    self.pair(v, t, 'argument', 'given to %s as %s, a' % (
                        label(e.name), p), e, v)

    def kept(self):
        """What attributes filled piece by piece hold at the end."""
        r = self.r
        if r.self is None or r.end is None:
            return
        for k, t in FIELDS.get(r.self.cls, {}).items():
            if t[0] not in ('list', 'tab', 'row') or k not in r.stored():
                continue
            v = r.final(k)
            for c, l in G.leaves(v, TRUE):
                if l.op != 'field':
                    self.pair(l, t, 'stored', 'kept as %s, a' % k, None, l)

    def public(self, f):
        return f.full in API

    def result(self):
        t = RETURNS.get(label(self.f))
        if t is None:
            return
        r = self.r
        K = self.K
        for c, l in G.leaves(r.ret, TRUE):
            if isconst(l):
                continue
            s = strip(l)
            if t[0] == 'row' and s.op in ('tuple', 'list') and not s.kw:
                for i, (x, y) in enumerate(zip(s.args, t[1])):
                    if isconst(strip(x)) or not known(y):
                        continue
                    self.pair(x, y, 'returned', 'returned as entry %d, a' % i,
                              None, x)
            else:
                self.pair(l, t, 'returned', 'returned as a', None, l)


# ---- figures -------------------------------------------------------------
WORDS = (('pixel', P), ('wavelength', W), ('residual', W),
         ('electron', I), ('intensity', I), ('count', I))


def meaning(n):
    """Kind an axis label announces."""
    s = strip(n) if isinstance(n, Node) else None
    if s is None or not isconst(s) or not isinstance(s.info, str):
        return None
    t = s.info.lower()
    if 'log' in t:
        return None
    for w, k in WORDS:
        if w in t:
            return u(k)
    return None


def arg(e, i, k):
    kw = dict(e.c or {})
    if k in kw:
        return kw[k]
    b = list(e.b or ())
    if any(isinstance(x, Node) and x.op == 'star' for x in b[:i + 1]):
        return None
    return b[i] if i < len(b) else None


def starred(e, K):
    """Kinds of the positional arguments."""
    out = []
    for x in e.b or ():
        if isinstance(x, Node) and x.op == 'star':
            t = K.of(x.args[0])
            if t is None or t[0] != 'row':
                return out + [None] * 4
            out.extend(t[1])
        else:
            out.append(K.of(x) if isinstance(x, Node) else None)
    return out


# what is drawn: method -> axis of each positional argument
DRAW = {'scatter': 'xy', 'plot': 'xy', 'vlines': 'xyy', 'hlines': 'yxx',
        'axvline': 'x', 'axhline': 'y', 'text': 'xy', 'stem': 'xy',
        'errorbar': 'xy', 'fill_between': 'xyy', 'step': 'xy', 'bar': 'xy',
        'semilogy': 'xy', 'xlim': 'xx', 'ylim': 'yy', 'set_xlim': 'xx',
        'set_ylim': 'yy', 'annotate': ''}
NAMED = {'x': 'x', 'y': 'y', 'xmin': 'x', 'xmax': 'x', 'ymin': 'y',
         'ymax': 'y', 'left': 'x', 'right': 'x', 'bottom': 'y', 'top': 'y'}
LABEL = {'xlabel': 'x', 'ylabel': 'y', 'set_xlabel': 'x', 'set_ylabel': 'y'}


def drawn(w):
    """Everything drawn along an axis is what its label says."""
    K = w.K
    drawn_, labels = [], []
    for e in w.r.events:
        if not G.sat(e.pc):
            continue
        ax = None
        last = str(e.name).split('.')[-1] if e.kind in (
            'call', 'mcall') else ''
        if e.kind == 'call' and str(e.name).startswith('matplotlib.pyplot.'):
            ax = 'plt'
        elif e.kind == 'mcall' and e.a is not None and axes(e.a):
            ax = e.a.vn
        if ax is not None:
            if last in LABEL:
                t = meaning(arg(e, 0, last.replace('set_', '')))
                if t is not None:
                    labels.append((ax, LABEL[last], t, e))
            elif last in DRAW:
                if last in ('axhline', 'axvline'):
                    pass
                if 'transform' in dict(e.c or {}):
                    continue
                ts = starred(e, K)
                for k, t in zip(DRAW[last], ts):
                    drawn_.append((ax, k, t, e))
                for n, v in dict(e.c or {}).items():
                    if n in NAMED and isinstance(v, Node) and last not in (
                            'axhline', 'axvline'):
                        drawn_.append((ax, NAMED[n], K.of(v), e))
        if e.kind == 'call' and str(e.name) in (
                'plotly.graph_objects.Scatter',
                'plotly.graph_objs.Scatter',
                'plotly.graph_objects.Bar',
                'plotly.graph_objects.Scattergl'):
            kw = dict(e.c or {})
            y = 'y' + axis(kw.get('yaxis'))
            x = 'x' + axis(kw.get('xaxis'))
            for k, a in (('x', x), ('y', y)):
                if k in kw:
                    drawn_.append(('plotly', a, K.of(kw[k]), e))
        if e.kind == 'mcall' and last == 'add_shape':
            kw = dict(e.c or {})
            y, x = 'y' + axis(kw.get('yref')), 'x' + axis(kw.get('xref'))
            for k, a in (('x0', x), ('x1', x), ('y0', y), ('y1', y)):
                if k in kw:
                    drawn_.append(('plotly', a, K.of(kw[k]), e))
        if e.kind == 'mcall' and last == 'update_layout':
            for k, v in dict(e.c or {}).items():
                if k[:5] not in ('xaxis', 'yaxis'):
                    continue
                a = k[0] + k[5:].replace('1', '') if k[5:] == '1' else \
                    k[0] + k[5:]
                d = strip(v)
                if d.op != 'dict':
                    continue
                for n, y in zip(d.info[0], d.args):
                    n = strip(n) if isinstance(n, Node) else n
                    n = n.info if isinstance(n, Node) else n
                    if n == 'title':
                        t = meaning(title(y))
                        if t is not None:
                            labels.append(('plotly', a, t, e))
                    elif n == 'range':
                        drawn_.append(('plotly', a, joins(
                            K.of(z) for z in strip(y).args) if strip(
                                y).op in ('list', 'tuple') else None, e))
    for ax, k, t, e in labels:
        for bx, j, s, d in drawn_:
            if j != k or not same(w, ax, bx, k) or not G.sat(
                    G.b.AND(e.pc, d.pc)):
                continue
            if s == BOT:
                continue
            if not known(s):
                w.skip += 1
                continue
            w.done += 1
            if clash(s, t):
                w.tell('drawn', '%s along an axis labelled as %s' % (
                    names(s), names(t)), 'labelled at line %s' % e.line, d)


def title(n):
    """A title: a string or dict(text=...)."""
    s = strip(n)
    if s.op == 'dict':
        for k, y in zip(s.info[0], s.args):
            k = k.info if isinstance(k, Node) else k
            if k == 'text':
                return y
    return n


def axis(n):
    if n is None:
        return ''
    s = strip(n)
    if not isconst(s) or not isinstance(s.info, str):
        return '?'
    return '' if s.info[1:] in ('', '1') else s.info[1:]


def axes(n):
    """Is the value one of the axes of a figure?"""
    s = strip(n)
    d = 0
    while s.op in ('sub', 'mcall', 'attr', 'call') and d < 8:
        if s.op == 'call':
            return str(s.info).startswith('matplotlib.pyplot.')
        s = strip(s.args[0])
        d += 1
    return False


def same(w, a, b, k):
    """Do two axes objects share the axis?"""
    if a == b:
        return True
    if k == 'x' and a not in ('plt', 'plotly') and b not in (
            'plt', 'plotly'):
        x, y = G.vn_node.get(a), G.vn_node.get(b)
        while x is not None and x.op == 'sub':
            x = strip(x.args[0])
        while y is not None and y.op == 'sub':
            y = strip(y.args[0])
        if x is not None and y is not None and x.vn == y.vn and \
                x.op == 'call':
            s = dict(x.kw or {}).get('sharex')
            return s is not None and isconst(strip(s)) and strip(
                s).info in (True, 'all', 'col')
    return False


def kinds(an, R):
    n = 0
    for f, r in runs(an):
        w = Walk(R, r, f)
        w.run()
        n += w.done
    if n < 50:
        R.unk('kinds', 'all functions', 'only %d uses compared' % n)


RULES = [kinds]
