"""C13: search bounds and pairs always reflect the current settings."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..entry import Run
from ..linear import cases, sat
from ..q import mentions, closure, same
from ..ratform import Rat, TooBig
from ..front import Missing

NEEDS_INV = True
SRC = {'w0': 'min_wavelength', 'w1': 'max_wavelength',
       'rt': 'range_tolerance', 'lt': 'linearity_tolerance'}
#   bound: coefficients of (w0, w1, rt, lt), divided by the pixel range
BOUNDS = {'min_intercept': ((1, 0, -1, 0), False),
          'max_intercept': ((1, 0, 1, 0), False),
          'min_slope': ((-1, 1, -1, -2), True),
          'max_slope': ((-1, 1, 3, 2), True)}


class Form(Rat):
    """Rational form over the final settings."""

    def __init__(self, names, axis):
        super().__init__(lambda n: names.get(n.vn))
        self.axis, self.unknown = axis, []

    def _rat(self, n):
        x = n
        if x.op == 'fn' and x.info in ('ptp', 'max', 'min', 'amax', 'amin',
                                       'nanmax', 'nanmin') and x.args and \
                strip(x.args[0]).vn in self.axis:
            k = x.info.replace('nan', '').replace('a', '', 1) \
                if x.info in ('amax', 'amin', 'nanmax', 'nanmin') else x.info
            k = {'mx': 'max', 'mn': 'min'}.get(k, k)
            hi, lo = self.key('axismax'), self.key('axismin')
            return {'ptp': lambda: self.radd(hi, lo, -1),
                    'max': lambda: hi, 'min': lambda: lo}.get(
                        k, lambda: hi)()
        try:
            return super()._rat(n)
        except ValueError:
            if n.op == 'wrap' or n.op == 'fn' and n.info in (
                    'float', 'int') and n.args:
                return self.rat(n.args[0])
            self.unknown.append(n)
            return self.key('u%d' % n.vn)


def calmethods(an):
    c = [k for m in an.prog.mods.values() for k in m.classes.values()
         if k.name == 'Calibrator'][0]
    for f in c.methods.values():
        if f.name == '__init__':
            yield f, an.inits['Calibrator']
        elif not f.name.startswith('_'):
            yield f, an.run(f)


def bounds(an, R):
    n = 0
    for f, r in calmethods(an):
        if r.end is None:
            continue
        src = [SRC[k] for k in SRC] + ['pixel_list']
        names = src + list(BOUNDS)
        if f.name != '__init__' and not any(
                r.final(a) is not None and r.final(a).vn != r.init(a).vn
                for a in names):
            continue
        for b, (co, per) in BOUNDS.items():
            n += 1
            bound(R, f, r, b, co, per)
    if not n:
        R.unk('bounds', 'Calibrator', 'no method sets the bounds')


def bound(R, f, r, b, co, per):
    what = 'Calibrator.%s after %s' % (b, f.name)
    v = r.final(b)
    if v is None or v.op == 'unbound':
        R.bad('bounds', what, 'is not set', at=r.name)
        return
    bad = unk = None
    k = 0
    for p, xs in cases([v], r.end.pc):
        x = xs[0]
        if not G.sat(p):
            continue
        k += 1
        names = {}
        stale = {}
        changed = False
        for key, a in SRC.items():
            fin = r.final(a)
            for z in (fin, G.simp(fin, p)):
                names[z.vn] = key
            if f.name != '__init__' and G.simp(fin, p).vn != r.init(a).vn:
                stale[r.init(a).vn] = a
                changed = True
        pl = r.final('pixel_list')
        axis = {pl.vn, G.simp(pl, p).vn, strip(pl).vn}
        if f.name != '__init__' and G.simp(pl, p).vn != r.init(
                'pixel_list').vn:
            stale[r.init('pixel_list').vn] = 'pixel_list'
            if per:
                changed = True
        if x.vn == r.init(b).vn:
            if changed and f.name != '__init__':
                dep = [a for vn, a in stale.items()
                       if per or a not in ('pixel_list', 'max_wavelength',
                                           'linearity_tolerance')]
                if dep:
                    bad = bad or 'is not updated although %s changes, when ' \
                        '%s' % (', '.join(dep), G.bshow(p, 3)[:160])
            continue
        F = Form(names, axis)
        try:
            got = F.rat(x)
            want = ({}, F.ONE)
            for c, key in zip(co, ('w0', 'w1', 'rt', 'lt')):
                t = F.rat(G.simp(r.final(SRC[key]), p))
                for _ in range(abs(c)):
                    want = F.radd(want, t, 1 if c > 0 else -1)
            if per:
                want = F.rdiv(want, F.radd(F.key('axismax'),
                                           F.key('axismin'), -1))
            if F.equal(got, want):
                continue
        except (TooBig, ValueError) as e:
            unk = str(e)
            continue
        old = [a for vn, a in stale.items()
               if mentions(x, lambda y: y.vn == vn, gates=False)]
        if old:
            bad = bad or 'uses the old %s when %s' % (
                ', '.join(old), G.bshow(p, 3)[:160])
        elif F.unknown and any(not known(u, names, axis)
                               for u in F.unknown):
            unk = unk or 'uses %s' % show(F.unknown[0], 3)[:120]
        else:
            bad = bad or 'is %s' % show(x, 6)[:300]
    if bad:
        R.bad('bounds', what, bad, at=r.name)
    elif unk:
        R.unk('bounds', what, unk)
    else:
        R.ok('bounds', what, '%d cases equal the bound of the settings after '
             'the call' % k)


def known(u, names, axis):
    """A definite other quantity (not an unmodelled spelling)."""
    u = strip(u)
    if u.op == 'field':
        return True
    if u.op == 'fn' and u.info in ('len', 'size', 'mean', 'median'):
        return True
    return u.op == 'fn' and u.info in ('max', 'min', 'ptp', 'sum', 'std')


def carries(x, p):
    """Does x take the elements of p (and not only their number)?"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y.vn == p.vn:
            return True
        if y.uid in seen or y.op == 'fn' and y.info in ('len', 'size'):
            continue
        seen.add(y.uid)
        if y.op == 'attr' and y.info in ('size', 'shape'):
            continue
        todo += list(y.args) + [n for _, n in y.kw or ()]
    return False


def axis(an, R):
    """The pixel axis follows the pixel list or the number of pixels."""
    r = an.method('Calibrator', 'set_calibrator_properties')
    what = 'Calibrator.set_calibrator_properties'
    A, N = G.b.AND, G.b.NOT
    p, q = r.p('pixel_list'), r.p('num_pix')
    v = r.final('pixel_list')
    old = r.init('pixel_list')
    given = A(r.end.pc, N(G.isnone(p)))
    res = {}
    for c, l in G.leaves(v, r.end.pc):
        f = A(c, N(G.isnone(p)))
        if G.sat(f):
            x = G.simp(l, f)
            if x.vn == old.vn or not carries(x, p):
                res.setdefault('list', []).append(show(x, 3))
        f = A(A(c, G.isnone(p)), A(N(G.isnone(q)), N(G.isnone(old))))
        if G.sat(f):
            x = G.simp(l, f)
            if not (x.op == 'fn' and x.info == 'arange' and mentions(
                    x, lambda y: y.vn == q.vn)):
                res.setdefault('num', []).append(show(x, 3))
    R.put('list' not in res, 'pixel-list', what, 'a given pixel list becomes '
          'the pixel axis', 'the pixel axis is %s although a pixel list is '
          'given' % res.get('list'))
    R.put('num' not in res, 'pixel-number', what, 'a new number of pixels '
          'gives a new pixel axis', 'the pixel axis stays %s although a new '
          'number of pixels is given' % ' '.join(res.get('num', [])))
    for f, r in calmethods(an):
        if r.end is None or f.name not in (
                '__init__', 'set_calibrator_properties'):
            continue
        v = r.final('pix_to_rawpix')
        pl = r.final('pixel_list')
        if v is None or v.op in ('unbound', 'const'):
            continue
        for c, l in G.leaves(v, r.end.pc):
            w = '%s after %s' % ('Calibrator.pix_to_rawpix', f.name)
            x = G.simp(l, c)
            y = G.simp(pl, c)
            if x.vn == r.init('pix_to_rawpix').vn:
                R.put(y.vn == r.init('pixel_list').vn, 'pixel-map', w,
                      'unchanged', 'is not updated')
                continue
            if x.op == 'call' and 'interp' in str(x.info):
                a = list(x.args) + [n for _, n in x.kw or ()]
                first = strip(x.args[0]) if x.args else None
                if first is not None and first.vn in (y.vn, strip(y).vn):
                    R.ok('pixel-map', w, show(x, 3))
                elif first is not None and mentions(
                        x, lambda n: n.vn in (y.vn, strip(y).vn)):
                    R.unk('pixel-map', w, show(x, 3))
                else:
                    R.bad('pixel-map', w, 'is %s' % show(x, 4), at=r.name)
            else:
                R.unk('pixel-map', w, show(x, 3))
    # default axis: one entry per pixel
    r = an.inits['Calibrator']
    v, num = r.final('pixel_list'), r.final('num_pix')
    for c, l in G.leaves(v, r.end.pc):
        x = strip(G.simp(l, c))
        y = G.simp(num, c)
        if x.op == 'fn' and x.info == 'arange' and len(x.args) == 1 and \
                G.simp(x.args[0], c).vn == y.vn:
            R.ok('pixel-default', 'Calibrator.__init__', show(x, 3))
        elif x.op == 'fn' and x.info in ('arange', 'linspace'):
            R.bad('pixel-default', 'Calibrator.__init__', 'the pixel axis is '
                  '%s' % show(x, 4), at=r.name)
        else:
            R.unk('pixel-default', 'Calibrator.__init__', show(x, 3))


def pairs(an, R):
    """Pairs equal those that setting the same atlas again would give."""
    gen = an.prog.method('Calibrator', 'set_atlas')

    def fresh(r, st):
        b = {}
        for a in ('atlas', 'candidate_tolerance', 'constrain_poly'):
            b[a] = r.it.get(st, ('o', r.self.vn, a)) if st is not None \
                else r.init(a)
        q = Run(an, gen, obj=r.self, st=st, bind=b)
        an.allruns.remove(q)
        return q
    base = {}
    for f, r in calmethods(an):
        if r.end is None or f.name == '__init__':
            continue
        what = 'Calibrator.pairs after %s' % f.name
        s = r.end.copy() if hasattr(r.end, 'copy') else r.end
        have = G.b.AND(r.end.pc, G.b.NOT(G.isnone(r.final('atlas'))))
        if have == FALSE or not G.sat(have):
            continue
        s.pc = have
        q = fresh(r, s)
        if q.end is None:
            R.unk('pairs', what, 'cannot regenerate')
            continue
        new = q.final('pairs')
        if 'x' not in base:
            base['x'] = fresh(r, None).final('pairs')
        old = r.init('pairs')
        bad = None
        untouched = base['x'].vn == new.vn
        for c, l in G.leaves(r.final('pairs'), have):
            if l.vn == old.vn:
                if untouched:
                    continue
                # is there a case in which the inputs changed?
                if same(base['x'], new, c):
                    continue
                bad = 'are not regenerated when %s' % G.bshow(c, 3)[:200]
            elif not same(l, new, c):
                bad = bad or 'are %s, but the current settings give %s' % (
                    show(l, 4)[:160], show(G.simp(new, c), 4)[:160])
        if bad:
            R.bad('pairs', what, bad, at=r.name)
        else:
            R.ok('pairs', what, 'inputs untouched' if untouched
                 else 'regenerated after the last change')


def product(an, R):
    """Without the polygon, the pairs are all peaks times all lines."""
    r = an.method('Calibrator', 'set_atlas',
                  bind={'constrain_poly': G.const(False)})
    what = 'Calibrator.pairs'
    v = r.final('pairs')
    for c, l in G.leaves(v, r.end.pc):
        cols = [x for x in closure(l, gates=False) if x.op == 'collect']
        filt = [x for x in cols if len(x.args) > 2 and not (
            isconst(x.args[2]) and x.args[2].info is True) and
            G.truth(x.args[2]) != TRUE]
        peaks = mentions(l, lambda x: x.op == 'field' and x.info == 'peaks')
        lines = mentions(l, lambda x: x.op in ('field', 'attr')
                         and x.info in ('atlas_lines', 'wavelength'))
        prod = mentions(l, lambda x: x.op == 'fn' and x.info in (
            'product', 'meshgrid') or x.op in ('collect', 'collectcat'))
        if filt:
            R.bad('pairs-complete', what, 'leaves out pairs: only those with '
                  '%s' % show(filt[0].args[2], 3)[:200], at=r.name)
        elif not (peaks and lines):
            R.bad('pairs-complete', what, 'are %s' % show(l, 5)[:200],
                  at=r.name)
        elif prod:
            R.ok('pairs-complete', what, show(l, 4)[:200])
        else:
            R.unk('pairs-complete', what, show(l, 4)[:200])


class Corner(Form):
    """Over the settings, the intercept bounds being those they imply."""

    def __init__(self, names, axis, own):
        super().__init__(names, axis)
        self.own = own

    def _rat(self, n):
        if n.vn in self.own:
            return self.radd(self.key('w0'), self.key('rt'),
                             self.own[n.vn])
        return super()._rat(n)


def polygon(an, R):
    """With the polygon, the pairs inside it, drawn from the settings."""
    r = an.method('Calibrator', 'set_atlas',
                  bind={'constrain_poly': G.const(True)})
    what = 'Calibrator.pairs inside the polygon'
    pc = r.end.pc
    tri = {}
    for c, l in G.leaves(r.final('pairs'), pc):
        for x in closure(l):
            if x.op == 'mcall' and x.info == 'find_simplex':
                tri[x.vn] = (c, l, x)
    if not tri:
        R.unk('polygon', what, 'no triangulation found')
        return
    own = {r.final('min_intercept').vn: -1, r.final('max_intercept').vn: 1}
    names = {r.final(a).vn: k for k, a in SRC.items()}
    names[r.final('candidate_tolerance').vn] = 'tol'
    pl = r.final('pixel_list')
    axis = {pl.vn, strip(pl).vn}
    for c, l, x in tri.values():
        d = strip(x.args[0])
        pts = strip(d.args[0]) if d.op == 'call' and d.args and str(
            d.info).endswith('Delaunay') else None
        if pts is None or pts.op not in ('list', 'tuple') or pts.kw or any(
                strip(q).op not in ('list', 'tuple') or len(
                    strip(q).args) != 2 for q in pts.args):
            R.unk('polygon', what, show(d, 3)[:160])
            continue
        F = Corner(names, axis, own)
        K, A, Z = F.key, F.radd, ({}, F.ONE)
        lo = A(A(K('w0'), K('rt'), -1), K('tol'), -1)
        hi = A(A(K('w0'), K('rt')), K('tol'))
        lo2 = A(A(K('w1'), K('rt'), -1), K('tol'), -1)
        hi2 = A(A(K('w1'), K('rt')), K('tol'))
        last = K('axismax')
        want = {'first pixel, highest': (Z, hi), 'first pixel, lowest':
                (Z, lo), 'last pixel, lowest': (last, lo2),
                'last pixel, highest': (last, hi2)}
        left = []
        try:
            for q in pts.args:
                a, b = [F.rat(G.simp(y, c)) for y in strip(q).args]
                k = [k for k, (u, v) in want.items()
                     if F.equal(a, u) and F.equal(b, v)]
                if k:
                    del want[k[0]]
                else:
                    left.append(q)
        except (TooBig, ValueError) as e:
            R.unk('polygon', what, str(e))
            continue
        if not want and not left:
            R.ok('polygon', what, '4 corners')
        elif F.unknown and any(not known(u, names, axis)
                               for u in F.unknown):
            R.unk('polygon', what, show(F.unknown[0], 3)[:160])
        else:
            R.bad('polygon', what, 'the corner of the %s wavelength is '
                  'missing%s' % (' and the '.join(sorted(want)), ': %s' %
                                 show(left[0], 4)[:160] if left else ''),
                  at=r.name)
        inside(R, r, what, c, l, x)


def inside(R, r, what, c, l, x):
    """Kept exactly where a triangle is found (the index is not -1)."""
    w = what + ': selection'
    masks = {}
    for y in closure(l):
        if y.op == 'sub' and strip(y.args[1]).op == 'bool' and mentions(
                strip(y.args[1]), lambda z: z.vn == x.vn):
            masks[y.args[1].vn] = y.args[1]
    if len(masks) != 1:
        R.unk('polygon', w, '%d masks' % len(masks))
        return
    f = G.truth(strip(next(iter(masks.values()))))
    if [v for v in G.b.support(f) if not any(
            z.vn == x.vn for n in G.atoms[v][1] for z in closure(n))]:
        R.unk('polygon', w, G.bshow(f, 3)[:160])
        return
    b = G.b
    for k, keep, text in ((-1, False, 'pairs outside are kept'),
                          (0, True, 'pairs in the first triangle are '
                           'left out'),
                          (1, True, 'pairs in the second triangle are '
                           'left out')):
        at = G.cmp('==', x, G.const(k))
        g = b.AND(at, f if not keep else b.NOT(f))
        if G.sat(g) and sat(g):
            R.bad('polygon', w, text, at=r.name)
            return
    R.ok('polygon', w, G.bshow(f, 3)[:120])


def defaultrange(an, R):
    """A lamp added without limits covers the range that can be reached."""
    r = an.method('Calibrator', 'add_atlas')
    if r is None or r.end is None:
        return
    names = {r.init(a).vn: k for k, a in SRC.items()}
    for p, src, s in (('min_atlas_wavelength', 'w0', -1),
                      ('max_atlas_wavelength', 'w1', 1)):
        what = '%s of lines added without it' % p
        n = 0
        for e in r.evs('icall'):
            if e.name.cls is None or e.name.cls.name != 'Atlas' or \
                    p not in e.b or 'Atlas' in ' '.join(e.stack[1:]):
                continue
            pc = G.b.AND(e.pc, G.isnone(r.p(p)))
            if not G.sat(pc):
                continue
            n += 1
            for c, l in G.leaves(G.simp(e.b[p], pc), pc):
                if not G.sat(c):
                    continue
                F = Form(names, set())
                try:
                    got = F.rat(l)
                    ok = F.equal(got, F.radd(F.key(src), F.key('rt'), s))
                except (TooBig, ValueError) as x:
                    R.unk('default-range', what, str(x))
                    continue
                if ok:
                    R.ok('default-range', what)
                elif any(not known(u, names, set()) for u in F.unknown) \
                        and not isconst(l):
                    R.unk('default-range', what, show(l, 3)[:160])
                else:
                    R.bad('default-range', what, 'is %s' % show(l, 3)[:160],
                          e)
        if not n:
            R.unk('default-range', what, 'not handed to the atlas')


def search(an, R):
    """The Hough transform is given the current bounds and settings."""
    r = an.method('Calibrator', 'do_hough_transform')
    want = {'HoughTransform.set_constraints': {
        k: k for k in BOUNDS},
        'HoughTransform.generate_hough_points': {'num_slopes': 'num_slopes'},
        'HoughTransform.bin_hough_points': {'xbins': 'xbins',
                                            'ybins': 'ybins'}}
    seen = set()
    for e in r.evs('icall'):
        for name, args in want.items():
            if not e.name.full.endswith(name):
                continue
            seen.add(name)
            for p, a in args.items():
                v = e.b.get(p)
                cur = r.init(a)
                if v is not None and strip(v).vn == cur.vn:
                    R.ok('search', '%s(%s)' % (name, p), 'self.' + a)
                elif v is not None and mentions(
                        v, lambda x: x.vn == cur.vn) and v.op not in (
                            'bin', 'un'):
                    R.unk('search', '%s(%s)' % (name, p), show(v, 3))
                else:
                    R.bad('search', '%s(%s)' % (name, p), 'is %s, not the '
                          'current %s' % (show(v, 3), a), e)
    for name in want:
        if name not in seen:
            R.unk('search', name, 'not called')


RULES = [bounds, axis, pairs, product, polygon, defaultrange, search]
