"""C02: no plot entry point stores into or changes the calibrator."""
from ..core import G, show
from ..q import runs, roots


def is_plot(f):
    return f.mod.short == 'plotting' or f.name.startswith('plot_')


def plots(an, R):
    n = 0
    for f, r in runs(an, is_plot):
        objs = [x for x in list(r.params.values()) + [r.self]
                if x is not None and x.cls]
        if not objs:
            continue
        n += 1
        own = {x.vn for x in objs}

        def belongs(x):
            while x.op in ('field', 'attr', 'sub', 'wrap'):
                x = x.args[0]
            return x.vn in own

        bad = 0
        for e in r.events:
            if not G.sat(e.pc):
                continue
            if e.kind in ('store', 'havoc') and e.a is not None and \
                    e.a.op != 'obj' and belongs(e.a):
                if e.kind == 'store' and e.c is e.b:
                    continue
                bad += 1
                R.bad('no-store', 'attribute %s' % e.name,
                      '%s sets %s.%s of the calibrator' % (
                          f.full, show(e.a, 2), e.name), e)
            elif e.kind == 'mutate':
                for x in roots(e.a):
                    if x.op in ('field', 'attr') and belongs(x):
                        bad += 1
                        R.bad('no-inplace', show(x, 3), '%s changes %s in '
                              'place' % (e.name, show(x, 3)), e)
        if not bad:
            R.ok('plot-read-only', f.full, '%d functions reached, %d events'
                 % (len(r.it.visited), len(r.events)))
    if not n:
        R.bad('anchor', 'plot functions', 'no plot entry point found')


RULES = [plots]
