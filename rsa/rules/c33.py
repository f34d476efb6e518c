"""C33: a solution has the degree asked for, or that of its starting point."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..linear import implies, sat, split, about
from ..q import closure
from ..solve import configs
from .c17 import FIT
from .c32 import Draw, LEN

# entry point: (option with the degree, option with the starting solution)
ASKED = {'fit': ('fit_deg', 'fit_coeff'),
         'match_peaks': ('fit_deg', 'fit_coeff'),
         'manual_refit': ('degree', 'x0')}


def runs(an):
    for lab, ft, bf, r, ways in configs(an):
        yield 'fit', 'Calibrator.fit (%s)' % lab, r
    for m in ('match_peaks', 'manual_refit'):
        for ft in ('poly', 'legendre', 'chebyshev'):
            st = family(an, ft)
            yield m, 'Calibrator.%s (%s)' % (m, ft), an_run(an, m, st)


def family(an, ft):
    from .c17 import state
    return state(an, ft)


def an_run(an, m, vals):
    from ..entry import Run
    from ..interp import St
    o = an.selfof('Calibrator')
    s = {('o', o.vn, a): v for a, v in vals.items()}
    f = next(f for f in an.entries() if f.cls is not None and
             f.cls.name == 'Calibrator' and f.name == m)
    return Run(an, f, st=St(s, TRUE))


def fits(r):
    """(event, x, degree, start) of every polynomial fitted."""
    seen = set()
    for e in r.events:
        got = None
        if e.kind == 'call' and e.name in FIT and e.b and len(e.b) > 2:
            got = (e, e.b[0], e.b[2], None)
        elif e.kind == 'call' and e.name in FIT and e.b and e.c and \
                'deg' in dict(e.c):
            got = (e, e.b[0], dict(e.c)['deg'], None)
        elif e.kind == 'icall' and e.name.name == 'robust_polyfit':
            b = e.b
            if {'x', 'degree'} <= set(b):
                got = (e, b['x'], b['degree'], b.get('x0'))
        if got is None or any('robust_polyfit' in s for s in e.stack[1:]):
            continue
        k = (e.uid,)
        if k not in seen:
            seen.add(k)
            yield got


def minus(a, b):
    """a - b when that is a number."""
    p, q = dict(G.poly_of(strip(a).vn)), G.poly_of(strip(b).vn)
    for m, c in q.items():
        p[m] = p.get(m, 0) - c
    p = {m: c for m, c in p.items() if c}
    if not p:
        return 0
    return p[()] if set(p) == {()} else None


def asked(r, m, what=''):
    """[(condition, degree, starting solution, description)]."""
    d, s = [r.p(p) for p in ASKED[m]]
    b = G.b
    nd, ns = G.isnone(d), G.isnone(s)
    own = r.it.initial(('o', r.self.vn, 'fit_coeff'))
    one = G.const(1)

    def of(x):
        return G.bin('-', r.it.fn('len', [x], (), None), one)
    if m == 'fit' and 'given' not in what:
        return [(TRUE, d, None, 'the degree given')]
    if m == 'fit':
        return [(ns, d, None, 'the degree given'),
                (b.NOT(ns), of(s), s, 'that of the given coefficients')]
    return [(b.NOT(nd), d, None, 'the degree given'),
            (b.AND(nd, b.NOT(ns)), of(s), s,
             'that of the given coefficients'),
            (b.AND(nd, ns), of(own), own, 'that of the current solution')]


def degrees(an, R):
    for m, what, r in runs(an):
        n = 0
        for e, x, deg, start in fits(r):
            n += 1
            for cond, want, s0, text in asked(r, m, what):
                pc = G.b.AND(e.pc, cond)
                if not G.sat(pc):
                    continue
                one(R, what, e, pc, deg, want, text)
            enough(R, r, what, e, x, deg)
        if m == 'manual_refit':
            starts(R, what, r)
        if not n:
            R.unk('degree', what, 'no fit found')


def one(R, what, e, pc, deg, want, text):
    w = '%s: %s' % (what, text)
    want = G.simp(want, pc)
    for c, l in G.leaves(G.simp(deg, pc), pc):
        if not G.sat(c):
            continue
        for c2, v in G.leaves(want, c):
            if not G.sat(c2):
                continue
            d = minus(l, v)
            if d is None:
                l2, v2 = [bylen(y) for y in (l, v)]
                d = minus(l2, v2)
            if d == 0:
                R.ok('degree', w, show(l, 3)[:120])
            elif d is not None:
                R.bad('degree', w, 'the degree is %s %s' % (
                    show(v, 3)[:80], '%+d' % d if d == int(d) else d), e)
            elif known(l) and known(v) or strip(v).op == 'param' and \
                    not any(y.vn == strip(v).vn or y.op == 'unknown'
                            for y in closure(l)):
                R.bad('degree', w, 'the degree is %s instead of %s' % (
                    show(l, 3)[:80], show(v, 3)[:80]), e)
            else:
                R.unk('degree', w, '%s / %s' % (show(l, 3)[:120],
                                                show(v, 3)[:80]))


def bylen(n):
    """Lengths of copies are lengths of what was copied."""
    n = strip(n)
    if n.op == 'bin' and n.info in '+-':
        return G.bin(n.info, bylen(n.args[0]), bylen(n.args[1]))
    if n.op == 'fn' and n.info == 'len' and n.args:
        x = strip(n.args[0])
        while x.op == 'fn' and x.info in ('copy', 'array', 'asarray', 'sort',
                                          'ravel') and x.args:
            x = strip(x.args[0])
        return LEN(x)
    return n


def known(n):
    """An option, a setting, a constant or the length of one of them."""
    n = strip(n)
    if n.op in ('param', 'const') or n.op == 'field' or isconst(n):
        return True
    if n.op == 'bin' and n.info in '+-':
        return all(known(a) for a in n.args)
    if n.op == 'fn' and n.info == 'len' and n.args:
        return strip(n.args[0]).op in ('param', 'field')
    return False


# ---- points --------------------------------------------------------------
def drawn(x, d=0):
    """Number of indices in an entry of what a loop goes through."""
    x = strip(x)
    if d > 6:
        return None
    if x.op == 'phi':
        ns = [drawn(y, d + 1) for y in x.args]
        return ns[0] if None not in ns and len({n.vn for n in ns}) == 1 \
            else None
    if x.op == 'fn' and x.info == 'combinations' and len(x.args) > 1:
        return x.args[1]
    if x.op in ('call', 'wrap') and x.args or x.op == 'fn' and x.info in (
            'enumerate', 'sorted', 'reversed', 'sort'):
        return drawn(x.args[0], d + 1)
    return None


def size(r, x, pc):
    """How many points are fitted: the number drawn, when they are drawn."""
    ns = {}
    for c, l in G.leaves(x, pc):
        l = whole = strip(l)
        while l.op == 'concat' and l.args or l.op == 'fn' and l.info in (
                'array', 'asarray', 'copy', 'ravel', 'sort', 'concatenate') \
                and len(l.args):
            l = strip(l.args[0])
            if l.op in ('list', 'tuple') and l.args:
                l = strip(l.args[0])
        n = None
        if l.op == 'rnd':
            n = Draw(l).size
        elif l.op == 'sub':
            i = strip(l.args[1])
            if i.op == 'sub' and n is None:
                n = drawn(i.args[0])
        if n is None:
            n = r.it.fn('len', [whole], (), None)
        ns[n.vn] = n
    if len(ns) > 1 and any(strip(n).op == 'fn' and strip(n).info == 'len'
                           for n in ns.values()):
        return r.it.fn('len', [x], (), None)
    return next(iter(ns.values())) if len(ns) == 1 else None


def enough(R, r, what, e, x, deg):
    """More points than the degree, or nothing is determined."""
    if 'match_peaks' in what:
        return                  # not tested there, see DESIGN.md
    k = 'sample' if e.kind == 'call' else 'matches'
    w = '%s: points of the %s' % (what, k)
    n = size(r, x, e.pc)
    if n is None:
        R.unk('points', w, show(x, 2)[:120])
        return
    b = G.b
    want = G.cmp('<', deg, n)
    pc, g = split(e.pc), split(want)
    if implies(e.pc, want) or implies(about(pc, g), g):
        R.ok('points', w, '%s > %s' % (show(n, 2)[:80], show(deg, 2)[:60]))
        return
    vs = set(b.support(about(pc, g))) | set(b.support(g))
    if all(G.atoms[v][0] in ('pos', 'eq', 'isnone', 'isinst')
           for v in vs) and sat(b.AND(pc, b.NOT(g))):
        R.bad('points', w, 'there can be as few points as the degree: %s'
              % G.bshow(b.NOT(g), 2)[:160], e)
    else:
        R.unk('points', w, G.bshow(g, 2)[:160])


# ---- starting solution ---------------------------------------------------
def starts(R, what, r):
    own = r.it.initial(('o', r.self.vn, 'fit_coeff'))
    for e, x, deg, start in fits(r):
        if e.kind != 'icall':
            continue
        for cond, want, s0, text in asked(r, 'manual_refit'):
            pc = G.b.AND(e.pc, cond)
            given = r.p('x0')
            if s0 is None:
                pc, s0 = G.b.AND(pc, G.b.NOT(G.isnone(given))), given
                text = 'the one given'
            else:
                text = text.replace('that of ', '')
            if not G.sat(pc):
                continue
            w = '%s: starts from %s' % (what, text)
            if start is None:
                R.bad('start', w, 'no starting solution is passed on', e)
                continue
            for c, l in G.leaves(G.simp(start, pc), pc):
                if not G.sat(c):
                    continue
                l = strip(l)
                if l.vn == strip(s0).vn or G.simp(strip(s0), c).vn == l.vn:
                    R.ok('start', w)
                elif isconst(l) or l.op in ('param', 'field'):
                    R.bad('start', w, 'it starts from %s' % show(l, 2)[:80],
                          e)
                else:
                    R.unk('start', w, show(l, 3)[:120])


RULES = [degrees]
