"""C20: omitted optional values are never used as if they were there."""
from ..core import G, TRUE, strip, show
from ..q import runs, none_source, optional_fields, omitted

NEEDS_INV = True


FAMILY = 'numpy.polynomial.'


def families(an):
    """(cls, attr) -> properties that only ever hold a polynomial function."""
    out = {}
    for r in an.inits.values():
        for e in r.events:
            if e.kind == 'store' and e.a.cls:
                ls = [strip(l) for _, l in G.leaves(e.b, e.pc)]
                out[e.a.cls, e.name] = out.get((e.a.cls, e.name), True) and \
                    all(l.op == 'ext' and l.info.startswith(FAMILY)
                        for l in ls)
    return {k for k, v in out.items() if v}


def family(f, fam):
    for _, l in G.leaves(f):
        l = strip(l)
        if not (l.op == 'ext' and l.info.startswith(FAMILY) or
                l.op == 'field' and (l.args[0].cls, l.info) in fam):
            return False
    return True


def together(s, groups):
    """Settings made by one call are there together."""
    f = TRUE
    for g in groups:
        if (s.args[0].cls, s.info) in g:
            for _, a in g:
                x = G.raw('field', (s.args[0],), a)
                f = G.b.AND(f, G.b.NOT(G.b.XOR(G.isnone(s), G.isnone(x)))
                            if hasattr(G.b, 'XOR') else G.b.ite(
                                G.isnone(s), G.isnone(x),
                                G.b.NOT(G.isnone(x))))
    return f


def uses(an, R):
    opt = optional_fields(an)
    fam = families(an)
    groups = omitted(an)
    for f, r in runs(an, lambda f: not f.name.startswith('_')
                     or f.name == '__init__'):
        bad = n = 0
        for e in r.events:
            if e.kind == 'use':
                given = [(e.a, e.name)]
            elif e.kind == 'dyncall' and family(e.a, fam):
                # evaluating or fitting needs both arguments
                given = [(a, 'argument of %s' % show(e.a, 1))
                         for a in e.b[:2]]
            else:
                continue
            n += 1
            for c, s, how in [(c, s, how) for a, how in given
                              for c, s in none_source(a, e.pc)]:
                if s.op == 'param':
                    what = 'argument %s of %s' % (s.info, f.full)
                elif s.op == 'field' and (s.args[0].cls, s.info) in opt:
                    what = '%s.%s' % (s.args[0].cls, s.info)
                    if not G.sat(G.b.AND(c, together(s, groups))):
                        continue
                else:
                    continue
                if e.caught:
                    continue
                bad += 1
                R.bad('none-safe', what, 'used as if given (%s) although it '
                      'may be None when %s' % (how, G.bshow(c, 2)), e)
        if not bad:
            R.ok('none-safe', f.full, '%d dereferences' % n)


RULES = [uses]
