"""C12: a setting is changed only by passing it."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..q import mentions, closure
from ..front import Missing
from ..linear import less

NEEDS_INV = True
SETTERS = {'Calibrator': ('set_calibrator_properties',
                          'set_hough_properties', 'set_ransac_properties'),
           'SyntheticSpectrum': ('set_wavelength_limit',),
           'HoughTransform': ('set_constraints',)}
ATLAS = {'Calibrator': ('add_atlas', 'add_user_atlas', 'set_atlas')}
CONV = {'int', 'float', 'bool', 'str', 'asarray', 'array', 'copy', 'deepcopy',
        'list', 'tuple', 'asanyarray', 'ascontiguousarray'}


def isgiven(n, p):
    """Is n the passed value itself (conversions aside)?  None: unsure."""
    k = 0
    while k < 8:
        k += 1
        if n.vn == p.vn:
            return True
        if n.op == 'wrap' and n.args:
            n = n.args[0]
        elif n.op == 'fn' and n.info in CONV and n.args:
            n = n.args[0]
        elif n.op in ('call', 'mcall') and n.args and str(
                n.info).split('.')[-1] in CONV:
            n = n.args[0]
        else:
            break
    if n.op in ('call', 'mcall') and n.vn != p.vn and pure(n, p):
        return True
    if n.op in ('bin', 'un', 'const', 'field') or not mentions(
            n, lambda x: x.vn == p.vn):
        return False
    return None


def pure(n, p):
    """A conversion of the passed value alone."""
    return mentions(n, lambda x: x.vn == p.vn) and not any(
        x.op in ('bin', 'un', 'phi', 'field', 'mu', 'fn') or
        x.op == 'param' and x.vn != p.vn for x in closure(n))


ALIAS = {'logger_name': 'logger'}


def settings(an, cls):
    out = {}
    for m in SETTERS[cls]:
        f = an.prog.method(cls, m)
        r = an.run(f)
        for p in f.params[1:]:
            attrs = set(r.stored()) | an.prog.init_attrs.get(cls, set())
            if ALIAS.get(p, p) in attrs:
                out.setdefault(p, []).append(m)
    for m in ATLAS.get(cls, ()):
        f = an.prog.method(cls, m)
        r = an.run(f)
        for p in f.params[1:]:
            if p in r.stored() and p != 'atlas':
                out.setdefault(p, []).append(m)
    return out


def setters(an, R):
    for cls, ms in SETTERS.items():
        sets = settings(an, cls)
        if not sets:
            raise Missing('settings of %s' % cls)
        for m in ms + ATLAS.get(cls, ()):
            r = an.method(cls, m)
            if r.end is None:
                R.unk('set', '%s.%s' % (cls, m), 'never returns')
                continue
            for a in sorted(sets):
                if a in r.params:
                    one(an, R, r, cls, m, a)


def one(an, R, r, cls, m, a):
    p, old = r.p(a), r.init(ALIAS.get(a, a))
    what = '%s.%s(%s)' % (cls, m, a)
    no = G.isnone(p)
    A, N = G.b.AND, G.b.NOT
    fin = r.final(ALIAS.get(a, a))
    pc = r.end.pc
    bad = unk = None
    given = kept = 0
    for c, l in G.leaves(fin, pc):
        f = A(c, N(no))
        if G.sat(f):
            x = G.simp(l, f)
            g = isgiven(x, p)
            given += 1
            if g is not True and isconst(x) and f != FALSE and A(
                    f, N(G.eq(p, x))) == FALSE:
                g = True
            if g is None and mentions(x, lambda y: y.vn == old.vn):
                g = False
            if g is False:
                bad = bad or ('passing a value leaves %s in %s.%s when %s' % (
                    show(x, 3)[:120], cls, a, G.bshow(f, 3)[:200]))
            elif g is None:
                unk = show(x, 3)
        f = A(c, no)
        if G.sat(f):
            g = A(f, N(G.isnone(old)))
            if G.sat(g):
                x = G.simp(l, g)
                kept += 1
                if isconst(x) and A(g, N(G.eq(old, x))) == FALSE:
                    continue        # the same value
                if strip(x).vn != old.vn and isgiven(x, old) is not True:
                    if mentions(x, lambda y: y.vn == old.vn) and \
                            x.op not in ('bin', 'un'):
                        unk = show(x, 3)
                    else:
                        bad = bad or (
                            'omitting it replaces the value set before with '
                            '%s when %s' % (show(x, 3)[:120],
                                            G.bshow(g, 3)[:200]))
    d = r.fn.defaults().get(a)
    if d is not None and not an.isnone_expr(d) and not bad and \
            m in SETTERS[cls]:
        import ast
        try:
            v = G.const(ast.literal_eval(d))
        except Exception:
            v = None
        if v is not None:
            q = an.method(cls, m, bind={a: v})
            b = ALIAS.get(a, a)
            for c, l in G.leaves(q.final(b), q.end.pc):
                g = A(c, N(G.isnone(q.init(b))))
                if G.sat(g) and strip(G.simp(l, g)).vn != q.init(b).vn:
                    bad = bad or ('omitting it replaces the value set before '
                                  'with %s' % show(l, 3)[:120])
    if bad:
        R.bad('set-keep', what, bad, at=r.name)
    elif unk:
        R.unk('set-keep', what, unk)
    else:
        R.ok('set-keep', what, '%d ways given, %d ways kept' % (given, kept))


def defaults(an, R):
    """After construction every setting has a value."""
    for cls in SETTERS:
        if cls == 'HoughTransform':
            continue            # set per fit, None until then
        r = an.inits.get(cls)
        if r is None or r.end is None:
            continue
        for a, by in sorted(settings(an, cls).items()):
            if by[0] in ATLAS.get(cls, ()):
                continue
            v = r.final(ALIAS.get(a, a))
            what = '%s.%s' % (cls, a)
            if v is None or v.op == 'unbound':
                R.bad('default', what, 'is not defined by the constructor',
                      at=r.name)
                continue
            bad = None
            for c, l in G.leaves(v, r.end.pc):
                if isconst(l) and l.info is None and G.sat(c):
                    bad = G.bshow(c, 2)[:200]
            R.put(bad is None, 'default', what, 'defined at construction',
                  'has no usable default: None after construction when %s'
                  % bad)


def frame(an, R):
    """No public call changes a setting that is not one of its options."""
    for cls in SETTERS:
        sets = settings(an, cls)
        c = [k for m in an.prog.mods.values() for k in m.classes.values()
             if k.name == cls][0]
        for f in c.methods.values():
            if f.name.startswith('_'):
                continue
            try:
                r = an.run(f)
            except Missing:
                continue
            if r.end is None:
                continue
            n = 0
            bad = False
            if cls == 'HoughTransform' and f.name == 'load':
                continue        # restores them
            for a in sorted(sets):
                if a in r.params:
                    continue
                n += 1
                b = ALIAS.get(a, a)
                old, fin = r.init(b), r.final(b)
                if fin is None or fin.vn == old.vn:
                    continue
                for cnd, l in G.leaves(fin, r.end.pc):
                    g = G.b.AND(cnd, G.b.NOT(G.isnone(old)))
                    if not G.sat(g):
                        continue
                    x = G.simp(l, g)
                    if strip(x).vn == old.vn:
                        continue
                    if mentions(x, lambda y: y.vn == old.vn) and x.op not in (
                            'bin', 'un'):
                        R.unk('frame', '%s.%s changes %s' % (cls, f.name, a),
                              show(x, 3))
                        continue
                    if clamped(r, a):
                        continue
                    if a == 'plotting_library' and isconst(x) and \
                            f.name == 'use_%s' % x.info:
                        continue        # asked for by the name of the call
                    bad = True
                    R.bad('frame', '%s.%s' % (cls, f.name), 'changes %s, '
                          'which it was not asked to change, to %s when %s'
                          % (a, show(x, 3)[:120], G.bshow(g, 3)[:160]),
                          at=r.name)
            if not bad:
                R.ok('frame', '%s.%s' % (cls, f.name),
                     '%d settings unchanged' % n)


def clamped(r, a):
    """Every store limits the setting to what the data allows.

    fit() lowers a sample size or a minimum number of matches that exceeds
    the number of lines or peaks, and raises a sample size that cannot
    determine the polynomial.
    """
    if a not in ('minimum_matches', 'sample_size'):
        return False
    for e in r.evs('store'):
        if e.a.vn != r.self.vn or e.name != a or e.b.vn == e.c.vn:
            continue
        def count(n):
            n = strip(n)
            return n.op == 'fn' and n.info == 'len'
        if all(count(l) for _, l in G.leaves(e.b, e.pc)):
            f = e.b, e.c
        elif a == 'sample_size' and mentions(
                e.b, lambda x: x.op in ('param', 'field', 'phi', 'fn')
                and not count(x)):
            f = e.c, e.b
        else:
            return False
        if less(*f, e.pc):
            continue
        for c, l in G.leaves(e.b, e.pc):
            if not G.sat(c) or G.simp(l, c).vn == G.simp(e.c, c).vn:
                continue
            if not less(*((l, e.c) if f[0] is e.b else (e.c, l)), c):
                return False
    return True


def crossed(an, R):
    """No option is stored in the setting of another option."""
    for cls, ms in SETTERS.items():
        sets = settings(an, cls)
        for m in ms:
            r = an.method(cls, m)
            if r.end is None:
                continue
            for a in sorted(sets):
                for b in sorted(r.params):
                    if a == b or b not in sets:
                        continue
                    pb = r.p(b)
                    for c, l in G.leaves(r.final(ALIAS.get(a, a)), r.end.pc):
                        if isgiven(l, pb):
                            R.bad('crossed', '%s.%s(%s)' % (cls, m, b),
                                  'is stored as %s' % a, at=r.name)


RULES = [setters, defaults, frame, crossed]
