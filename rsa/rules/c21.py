"""C21: every documented choice selects its own implementation, any other
value is rejected."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..q import mentions
from ..front import Missing

NEEDS_INV = True
FAMILY = {'poly': 'numpy.polynomial.polynomial.poly',
          'legendre': 'numpy.polynomial.legendre.leg',
          'chebyshev': 'numpy.polynomial.chebyshev.cheb'}
OTHER = ('zzz', '', 'polynomial', 'leg', 'cheb', 'chebyshev2', 'legendre ',
         'hermite')


def returns(r):
    return r.end is not None and r.end.pc != FALSE and G.sat(r.end.pc)


def family(an, R):
    what = 'Calibrator.fit(fit_type)'
    f = an.prog.method('Calibrator', 'fit')
    for v, pre in FAMILY.items():
        r = an.run(f, bind={'fit_type': G.const(v)})
        if not returns(r):
            R.bad('choice', what, '%r is rejected' % v, at=f.full)
            continue
        for a, suf in (('polyfit', 'fit'), ('polyval', 'val')):
            for c, l in G.leaves(r.final(a), r.end.pc):
                l = strip(l)
                w = '%s=%r: %s' % (what, v, a)
                if l.op == 'ext':
                    R.put(l.info == pre + suf, 'choice', w, l.info,
                          'is %s' % l.info)
                elif l.vn == r.init(a).vn:
                    R.bad('choice', w, 'keeps the family of an earlier fit '
                          'when %s' % G.bshow(c, 2)[:150], at=f.full)
                else:
                    R.unk('choice', w, show(l, 3))
        v2 = r.final('fit_type')
        if v2 is not None and v2.op != 'unbound':
            R.put(strip(v2).vn == G.const(v).vn, 'choice',
                  '%s=%r: recorded family' % (what, v), v,
                  'is %s' % show(v2, 2))
    for v in OTHER:
        reject(an, R, f, 'fit_type', G.const(v), what, repr(v))
    r = an.run(f)
    left(R, r, 'fit_type', list(FAMILY), what)


def reject(an, R, f, p, value, what, text, extra=None):
    b = {p: value}
    b.update(extra or {})
    r = an.run(f, bind=b)
    if not returns(r):
        R.ok('reject', '%s=%s' % (what, text), 'every path raises')
    elif value.op == 'const' and undecidable(r, value):
        R.unk('reject', '%s=%s' % (what, text), G.bshow(r.end.pc, 2)[:160])
    else:
        R.bad('reject', what, '%s is accepted instead of rejected' % text,
              at=f.full)


def undecidable(r, value):
    """Does returning hang on a test of this constant left unevaluated?"""
    for v in G.b.support(r.end.pc):
        for n in G.atoms[v][1]:
            if mentions(n, lambda y: y.vn == value.vn and y.op == 'const',
                        gates=False) and isinstance(value.info, str) and \
                    G.atoms[v][0] not in ('isnone', 'isinst'):
                return True
    return False


def left(R, r, p, allowed, what):
    """No value other than the documented ones gets through."""
    if not returns(r):
        return
    f = r.end.pc
    x = r.p(p)
    for a in allowed:
        f = G.b.AND(f, G.b.NOT(G.eq(x, G.const(a))))
    if not G.sat(f):
        R.ok('reject', what + ' otherwise', 'every other value raises')
        return
    rel = [v for v in G.b.support(f) if any(
        mentions(n, lambda y: y.vn == x.vn) for n in G.atoms[v][1])]
    odd = [v for v in rel if G.atoms[v][0] not in ('eq', 'isnone', 'isinst')]
    if odd:
        R.unk('reject', what + ' otherwise', G.bshow(G.b.var(odd[0]), 2))
    else:
        R.bad('reject', what, 'a value other than %s is accepted' %
              ', '.join(allowed), at=r.name)


def calls(r, *names):
    return [e for e in r.evs('call') if any(
        str(e.name).endswith(n) for n in names) and G.sat(e.pc)]


WRITE = {'npy': ('numpy.save',), 'json': ('json.dump', 'json.dumps')}
READ = {'npy': ('numpy.load',), 'json': ('json.load', 'json.loads')}


def hough(an, R):
    f = an.prog.method('HoughTransform', 'load')
    what = 'HoughTransform.load(filetype)'
    for v in READ:
        r = an.run(f, bind={'filetype': G.const(v)})
        if not returns(r):
            R.bad('choice', what, '%r is rejected' % v, at=f.full)
            continue
        for u in READ:
            n = len(calls(r, *READ[u]))
            if u == v:
                R.put(n > 0, 'choice', '%s=%r' % (what, v), READ[u][0],
                      'does not read the file with %s' % READ[u][0])
            else:
                R.put(n == 0, 'choice', '%s=%r not %s' % (what, v, u), '',
                      'reads the file as %s' % u)
    for v in ('zzz', '', 'np', 'npz', 'js', 'npy+json', 'txt'):
        reject(an, R, f, 'filetype', G.const(v), what, repr(v))
    left(R, an.run(f), 'filetype', list(READ), what)
    f = an.prog.method('HoughTransform', 'save')
    what = 'HoughTransform.save(fileformat)'
    for v in ('npy', 'json', 'npy+json', 'json+npy'):
        r = an.run(f, bind={'fileformat': G.const(v),
                            'delimiter': G.const('+'),
                            'to_disk': G.const(True)})
        if not returns(r):
            R.bad('choice', what, '%r is rejected' % v, at=f.full)
            continue
        for u in WRITE:
            n = len(calls(r, *WRITE[u]))
            if u in v.split('+'):
                R.put(n > 0, 'choice', '%s=%r' % (what, v), WRITE[u][0],
                      'writes no %s file' % u)
            else:
                R.put(n == 0, 'choice', '%s=%r not %s' % (what, v, u), '',
                      'writes a %s file' % u)
    for v in ('zzz', 'npy+zzz', 'json+', 'npyjson', 'npz', ''):
        reject(an, R, f, 'fileformat', G.const(v), what, repr(v),
               {'delimiter': G.const('+'), 'to_disk': G.const(True)})
    for v in ('zzz', 'npy+zzz', ''):
        reject(an, R, f, 'fileformat', G.const(v),
               what + ' in memory', repr(v),
               {'delimiter': G.const('+'), 'to_disk': G.const(False)})


def linelist(an, R):
    f = an.prog.func('util', 'load_calibration_lines')
    what = 'load_calibration_lines(linelist)'
    path = G.const('some/list.csv')
    for v in ('nist', 'NIST', 'Nist'):
        r = an.run(f, bind={'linelist': G.const(v)})
        if not returns(r):
            R.bad('choice', what, '%r is rejected' % v, at=f.full)
            continue
        rd = reads(r)
        good = [e for e in rd if e.b and mentions(
            e.b[0], lambda y: isconst(y) and isinstance(y.info, str) and
            'nist' in y.info and y.info.endswith('.csv'))]
        own = [e for e in rd if e.b and strip(e.b[0]).vn == G.const(v).vn]
        if own:
            R.bad('choice', what, '%r is read as a file name' % v, own[0])
        elif good:
            R.ok('choice', '%s=%r' % (what, v), show(good[0].b[0], 3))
        else:
            R.unk('choice', '%s=%r' % (what, v), 'no read of the built-in '
                  'list found')
    r = an.run(f, bind={'linelist': path})
    if not returns(r):
        R.bad('choice', what, 'a file name is rejected', at=f.full)
    else:
        rd = [e for e in reads(r) if e.b]
        good = [e for e in rd if mentions(
            e.b[0], lambda y: y.vn == path.vn)]
        nist = [e for e in rd if mentions(
            e.b[0], lambda y: isconst(y) and isinstance(y.info, str) and
            'nist' in y.info)]
        if nist:
            R.bad('choice', what, 'another name reads the built-in list',
                  nist[0])
        elif good:
            R.ok('choice', what + '=path', show(good[0].b[0], 3))
        else:
            R.unk('choice', what + '=path', 'no read found')
        # a name that does not exist is rejected by a test of the name
        f2 = r.end.pc
        tests = [v for v in G.b.support(f2) if any(mentions(
            n, lambda y: y.vn == path.vn) for n in G.atoms[v][1])]
        ex = [v for v in tests if 'exists' in G.bshow(G.b.var(v), 2) or
              'isfile' in G.bshow(G.b.var(v), 2)]
        if ex and all(G.b.AND(f2, G.b.NOT(G.b.var(v))) == FALSE
                      for v in ex):
            R.ok('reject', what + '=missing file', G.bshow(
                G.b.var(ex[0]), 3))
        elif ex:
            R.bad('reject', what, 'a name that does not exist is accepted',
                  at=f.full)
        # otherwise reading a missing file raises by itself, when every
        # name that is accepted is read
        elif good:
            rest = f2
            for e in good:
                rest = G.b.AND(rest, G.b.NOT(e.pc))
            on = {v for e in good for v in G.b.support(e.pc)}
            if G.sat(rest) and any(mentions(n, lambda y: y.vn == path.vn)
                                   for v in on for n in G.atoms[v][1]):
                R.bad('reject', what, 'a name that is not read is accepted',
                      at=f.full)
    for v in (5, None, 1.5, True):
        reject(an, R, f, 'linelist', G.const(v), what, repr(v))


def reads(r):
    return [e for e in r.evs('call') if G.sat(e.pc) and str(e.name).split(
        '.')[-1] in ('loadtxt', 'genfromtxt', 'read_csv', 'open', 'load',
                     'fromfile', 'reader')]


def types(an, R):
    """Arguments of an unsupported type."""
    for cls, m, p, ok in (
            ('SyntheticSpectrum', 'set_model', 'coefficients',
             ('list', 'ndarray')),
            ('SyntheticSpectrum', 'get_pixels', 'wavelengths',
             ('list', 'ndarray')),
            ('SyntheticSpectrum', 'set_wavelength_limit', 'min_wavelength',
             ('float', None)),
            ('SyntheticSpectrum', 'set_wavelength_limit', 'max_wavelength',
             ('float', None)),
            ('HoughTransform', 'add_hough_points', 'hp',
             ('HoughTransform', 'ndarray')),
            (None, 'filter_intensity', 'min_intensity',
             ('int', 'float', 'list', 'ndarray', None))):
        f = an.prog.method(cls, m) if cls else an.prog.func('util', m)
        r = an.run(f)
        what = '%s(%s)' % (f.full, p)
        if not returns(r):
            R.bad('choice', what, 'never returns', at=f.full)
            continue
        x = r.p(p)
        A, N = G.b.AND, G.b.NOT
        ok_ = FALSE
        for t in ok:
            c = G.isnone(x) if t is None else G.isinst(x, (t,))
            ok_ = G.b.OR(ok_, c)
            g = A(r.end.pc, c)
            others = [u for u in ok if u is not None and u != t]
            for u in others:
                g = A(g, N(G.isinst(x, (u,))))
            R.put(G.sat(g), 'choice', '%s: %s' % (what, t), 'accepted',
                  'a documented %s is rejected' % t)
        for t, v in (('tuple', G.raw('tuple', (G.const(1.), G.const(2.)))),
                     ('str', G.const('zzz')), ('bool', G.const(True)),
                     ('dict', None), ('NoneType', G.const(None)),
                     ('int', G.const(3))):
            if v is None or t in ok or t == 'NoneType' and None in ok or \
                    t == 'bool' and 'int' in ok:
                continue
            reject(an, R, f, p, v, what, 'a ' + t)
        g = A(r.end.pc, N(ok_))
        if not G.sat(g):
            R.ok('reject', what, 'any other type raises')
            continue
        rel = [v for v in G.b.support(g) if any(
            mentions(n, lambda y: y.vn == x.vn) for n in G.atoms[v][1])]
        known = set(G.b.support(ok_))
        odd = [v for v in rel if v not in known and
               G.atoms[v][0] in ('isinst', 'truthy', 'hasattr', 'callable')]
        if odd:
            # another type that is let through?
            wide = [v for v in odd if G.atoms[v][0] == 'isinst']
            R.unk('reject', what, G.bshow(G.b.var((wide or odd)[0]), 2))
        else:
            R.bad('reject', what, 'another type is accepted', at=f.full)


LIB = {'matplotlib': 'plot_with_matplotlib', 'plotly': 'plot_with_plotly'}


def library(an, R):
    """The library in use is the one chosen last."""
    c = [k for m in an.prog.mods.values() for k in m.classes.values()
         if k.name == 'Calibrator'][0]
    for f in c.methods.values():
        if f.name.startswith('_') and f.name != '__init__':
            continue
        r = an.inits['Calibrator'] if f.name == '__init__' else an.run(f)
        if r.end is None:
            continue
        names = ['plotting_library'] + list(LIB.values())
        if not any(r.final(a).vn != r.init(a).vn for a in names):
            continue
        for lib, flag in LIB.items():
            have = G.b.AND(r.end.pc, G.cmp(
                '==', r.final('plotting_library'), G.const(lib)))
            if not G.sat(have):
                continue
            for o, g in LIB.items():
                t = G.truth(r.final(g))
                want = t if o == lib else G.b.NOT(t)
                bad = G.b.AND(have, G.b.NOT(want))
                what = 'Calibrator.%s with library %s' % (f.name, lib)
                if G.sat(bad):
                    R.bad('library', what, '%s is %s afterwards when %s' % (
                        g, o != lib, G.bshow(bad, 2)[:160]), at=f.full)
                else:
                    R.ok('library', what, '%s is %s' % (g, o == lib))
    r = an.method('Calibrator', 'which_plotting_library')
    for lib, flag in LIB.items():
        for c, l in G.leaves(r.ret, r.end.pc):
            f = G.b.AND(c, G.truth(r.init(flag)))
            for o, g in LIB.items():
                if o != lib:
                    f = G.b.AND(f, G.b.NOT(G.truth(r.init(g))))
            if G.sat(f):
                R.put(isconst(l) and l.info == lib, 'library',
                      'which_plotting_library with ' + lib, lib,
                      'returns %s' % show(l, 2))


def drawing(an, R):
    """Each plot is drawn with the chosen library only."""
    for name in ('plot_search_space', 'plot_fit', 'plot_arc'):
        f = an.prog.func('plotting', name)

        def only(lib):
            def pre(r):
                x = r.p('calibrator')
                g = TRUE
                for o, a in LIB.items():
                    t = G.truth(r.it.initial(('o', x.vn, a)))
                    g = G.b.AND(g, t if o == lib else G.b.NOT(t))
                return g
            return pre
        for lib in LIB:
            r = an.run(f, pre=only(lib))
            drawn = {o: [] for o in LIB}
            for e in r.evs('call'):
                o = str(e.name).split('.')[0]
                if o in drawn and G.sat(e.pc) and not setup(str(e.name)):
                    drawn[o].append(e)
            for o in LIB:
                what = 'plotting.%s with %s' % (name, lib)
                if o == lib:
                    R.put(bool(drawn[o]), 'drawing', what,
                          '%d drawing calls' % len(drawn[o]),
                          'draws nothing with %s' % o)
                elif drawn[o]:
                    R.bad('drawing', what, 'uses %s' % drawn[o][0].name,
                          drawn[o][0])
                else:
                    R.ok('drawing', what + ' not ' + o, 'no call')


def setup(name):
    return 'Template' in name or 'templates' in name


RULES = [family, hough, linelist, types, library, drawing]
