"""C06: air and vacuum wavelengths are never mixed."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..front import Missing
from ..lines import (loader, outputs, only, walk, facts, SCEN, label,
                     rowcell, stepkind)
from ..linear import implies
from ..q import mentions, runs, same
from ..rows import Rows, row, cells

ROLES = ('temperature', 'pressure', 'relative_humidity')


def convert(an, W, name, x, cond):
    t = an.func('util', name, bind=dict(cond, wavelengths=x))
    return W.flat(t.ret)


def conditions(r):
    return {k: r.p(k) for k in ROLES}


def medium(an, R):
    """Returned wavelengths and compared limits, in one medium."""
    for s in SCEN:
        r = loader(an, **s)
        what = label(s)
        if r.ret is None:
            continue
        W, out = outputs(r)
        pc = r.end.pc
        c = only(out[1], pc)
        if c is None:
            R.unk('medium', what, 'wavelength reads several cells')
            continue
        w = rowcell(c, 1)
        cond = conditions(r)
        air = convert(an, W, 'vacuum_to_air_wavelength', w, cond)
        want = w if s['vacuum'] else air
        if same(out[1], want, pc):
            R.ok('medium', what, 'vacuum wavelength' if s['vacuum']
                 else 'converted to air with the conditions given')
        else:
            R.bad('medium', 'load_calibration_lines', 'returns %s where %s '
                  'wavelengths are asked for (%s)' % (
                      show(out[1], 3), 'vacuum' if s['vacuum'] else 'air',
                      what), at=r.name)
        # the limits
        chain, j0 = walk(W, c[2])
        f = facts(W, chain, pc)
        lo, hi = r.p('min_atlas_wavelength'), r.p('max_atlas_wavelength')
        if s['vacuum']:
            forms = [(w, lo, hi)]
        else:
            up = lambda x: convert(an, W, 'air_to_vacuum_wavelength', x, cond)
            forms = [(w, up(lo), up(hi)), (air, lo, hi)]
        if any(implies(f, G.b.AND(G.cmp('>=', x, a), G.cmp('<=', x, b)))
               for x, a, b in forms):
            R.ok('limits', what, 'compared in the same medium')
            continue
        used = [v for v in G.b.support(f) if G.atoms[v][0] == 'pos' and any(
            mentions(x, lambda y: y.vn in (lo.vn, hi.vn))
            for x in G.atoms[v][1])]
        if used:
            R.bad('limits', 'load_calibration_lines', 'the limits are '
                  'compared in another medium or with other conditions than '
                  'the lines: %s (%s)' % (' ; '.join(
                      G.bshow(G.b.var(v), 1)[:200] for v in used[:1]), what),
                  at=r.name)
        else:
            R.unk('limits', what, 'limits not found')


def user(an, R):
    for vac in (True, False):
        def pre(r):
            f = G.truth(r.p('vacuum'))
            w = r.p('wavelengths')
            f = f if vac else G.b.NOT(f)
            for t in ('str', 'scalar', 'tuple', 'ndarray', 'float', 'int'):
                f = G.b.AND(f, G.b.NOT(G.isinst(w, (t,))))
            return G.b.AND(f, G.isinst(w, ('list',)))
        r = an.method('Atlas', 'add_user_atlas', pre=pre)
        W = Rows(r)
        cond = conditions(r)
        n = 0
        for e in r.events:
            if e.kind != 'icall' or e.name.full != 'atlas.AtlasLine.__init__':
                continue
            v = e.b.get('wavelength')
            if v is None:
                continue
            n += 1
            got = W.flat(G.simp(v, e.pc))
            for c, leaf in G.leaves(got, e.pc):
                cs = cells(leaf, c)
                src = [x for x in cs if strip(x[1]).vn ==
                       r.p('wavelengths').vn]
                if not src:
                    if not cs and mentions(leaf, lambda x: x.vn == r.p(
                            'wavelengths').vn):
                        continue        # a single number
                    R.unk('user-lines', 'vacuum=%s' % vac, show(leaf, 3))
                    continue
                x = G.raw('sub', (src[0][1], src[0][2]))
                want = convert(an, W, 'vacuum_to_air_wavelength', x, cond) \
                    if vac else x
                R.put(same(leaf, want, c), 'user-lines', 'vacuum=%s' % vac,
                      'stored %s' % ('in air' if vac else 'as given'),
                      'stores %s' % show(leaf, 3), e)
        if not n:
            R.unk('user-lines', 'vacuum=%s' % vac, 'no line stored')


def roles(an, R):
    """Every conversion gets the conditions of its own call, each as
    itself."""
    for f, r in runs(an, lambda f: all(p in f.params for p in ROLES)):
        n = 0
        for e in r.events:
            if e.kind != 'icall':
                continue
            for k in ROLES:
                if k not in e.name.params or k not in e.b or \
                        e.name.full not in (
                            'util.vacuum_to_air_wavelength',
                            'util.air_to_vacuum_wavelength',
                            'util.load_calibration_lines',
                            'atlas.Atlas.add', 'atlas.Atlas.add_user_atlas'):
                    continue
                n += 1
                v = e.b[k]
                if not same(v, r.p(k), e.pc):
                    R.bad('conditions', '%s of %s' % (k, e.name.full),
                          'is %s, not the %s given to %s' % (
                              show(v, 2), k, f.full), e)
        if n:
            R.ok('conditions', f.full, '%d arguments' % n)


def defaults(an, R):
    """Air unless vacuum was requested."""
    for f in an.entries():
        if 'vacuum' in f.params:
            d = f.defaults().get('vacuum')
            if d is None:
                continue
            import ast
            v = ast.unparse(d)
            R.put(v == 'False', 'default-air', f.full, 'vacuum=%s' % v,
                  'vacuum=%s by default' % v)
    for f, r in runs(an, lambda f: 'vacuum' in f.params):
        for e in r.events:
            if e.kind == 'icall' and 'vacuum' in e.b and \
                    'vacuum' in e.name.params and not (
                        e.name.name == '__init__' and G.implies(
                            e.pc, G.isnone(e.b.get('elements',
                                                   G.const(None))))):
                R.put(same(e.b['vacuum'], r.p('vacuum'), e.pc),
                      'vacuum-forwarded', '%s to %s' % (f.full, e.name.full),
                      'unchanged', 'is %s' % show(e.b['vacuum'], 2), e)


RULES = [medium, user, roles, defaults]
