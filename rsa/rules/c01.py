"""C01: caller data is never modified (alias roots of every in-place
change)."""
from ..core import G, show, strip, isconst
from ..q import runs, roots, field_root


def is_array_data(an, n):
    """Contents of arrays and lists, not attributes of our own objects."""
    return True


def field_aliases(an):
    """(cls, attr) -> public methods that store a caller object there."""
    out = {}
    for f, r in runs(an):
        pub = not f.name.startswith('_') or f.name == '__init__'
        for e in r.events:
            if e.kind == 'store' and e.a.cls:
                for x in roots(e.b):
                    if x.op == 'param' and not x.cls and pub:
                        if x.vn in G.notnone and False:
                            continue
                        out.setdefault((e.a.cls, e.name), []).append(
                            (f.full, x.info, e))
    return out


def mutations(an, R):
    al = field_aliases(an)
    for f, r in runs(an):
        pub = not f.name.startswith('_') or f.name == '__init__'
        bad = 0
        nmut = 0
        for e in r.events:
            if e.kind != 'mutate':
                continue
            if not G.sat(e.pc):
                continue
            nmut += 1
            for x in roots(e.a):
                if x.op == 'param' and pub and not x.cls:
                    bad += 1
                    R.bad('no-inplace-on-argument', 'argument %s of %s'
                          % (x.info, f.full), '%s changes %s, which may be '
                          'the object passed as %r' % (
                              e.name, show(e.a, 3), x.info), e)
                fr = field_root(x)
                if fr and (fr[0], fr[1]) in al:
                    for src, p, st in al[(fr[0], fr[1])]:
                        bad += 1
                        R.bad('no-inplace-on-retained', '%s.%s' % fr[:2],
                              '%s changes %s.%s in place, where %s keeps '
                              'the object passed as %r' % (
                                  e.name, fr[0], fr[1], src, p), e)
        if not bad:
            R.ok('no-inplace-on-argument', f.full,
                 '%d in-place changes, all on objects made inside' % nmut)


def snapshots(an, R):
    """The calibrator copies peaks and spectrum."""
    r = an.inits.get('Calibrator')
    if r is None:
        an.prog.method('Calibrator', '__init__')
        return
    for p in ('peaks', 'spectrum'):
        n = r.p(p)
        hit = [e for e in r.events if e.kind == 'store' and
               any(x is n for x in roots(e.b))]
        for e in hit:
            R.bad('snapshot', 'argument %s' % p, 'the calibrator keeps the '
                  'object passed as %r itself in %s' % (p, e.name), e)
        if not hit:
            v = r.final(p)
            R.ok('snapshot', p, show(v, 3))


RULES = [mutations, snapshots]
