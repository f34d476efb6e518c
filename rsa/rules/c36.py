"""C36: a trial solution is scored by its own errors and Hough density."""
from ..core import G, TRUE, strip, isconst, show
from ..entry import Run
from ..interp import St
from ..linear import entails
from ..q import closure
from ..rows import Rows, row
from ..solve import configs, trials, limits, FIT
from ..solve import bddclosure
from .c10 import counter, errorlike
from .c17 import EVAL, state, symbols


class W(Rows):
    """Row-wise view in which coefficients are a whole."""
    val = None

    def _isarr(self, n):
        if n.op == 'call' and n.info == self.val:
            return self.isarr(n.args[0])
        if n.op == 'field' and n.info == 'pixel_list':
            return True
        if edges(n) is not None:
            return True
        return super()._isarr(n)

    def at(self, n, j, d=0):
        s = strip(n)
        if s.op == 'call' and s.info == self.val and len(s.args) >= 2:
            x = s.args[0]
            if self.isarr(x):
                x = super().at(x, j, d + 1)
            return G.raw('call', [x] + list(s.args[1:]), s.info, s.kw)
        return super().at(n, j, d)


def put(R, good, rule, w, okmsg, badmsg, at):
    if good:
        R.ok(rule, w, okmsg)
    else:
        R.bad(rule, w, badmsg, at=at)


def scores(o, ft):
    """Costs that are compared with the best so far and replace it."""
    out = {}
    for k, m in o.loop.mus.items():
        if counter(m) or not any(
                x.vn == m.vn for v in G.b.support(o.pc)
                if G.atoms[v][0] == 'pos' for n in G.atoms[v][1]
                for x in closure(n, gates=False, stop=lambda y: y.op in (
                    'mu', 'fn', 'call', 'sub', 'collect', 'update'))):
            continue
        for c, E in G.leaves(o.state.s.get(k, m), o.pc):
            if E.vn != m.vn and any(x.op == 'call' and x.info.endswith('val')
                                    for x in closure(E)):
                out[E.vn] = E
    return list(out.values())


def evals(n, t, val):
    return [x for x in closure(n, gates=False, stop=lambda y: y.vn == t.vn)
            if x.op == 'call' and x.info == val]


def density(n):
    """Evaluations of an interpolated histogram."""
    out = []
    for x in closure(n):
        if x.op in ('dyncall', 'mcall') and any(
                y.op == 'call' and str(y.info).startswith(
                    'scipy.interpolate.') for y in closure(x.args[0])):
            out.append(x)
    return out


def factors(n, s=1, d=0):
    n = strip(n)
    if d < 30 and n.op == 'bin' and n.info in ('*', '/'):
        return factors(n.args[0], s, d + 1) + factors(
            n.args[1], s if n.info == '*' else -s, d + 1)
    if d < 30 and n.op == 'fn' and n.info in ('true_divide', 'divide') and \
            len(n.args) == 2:
        return factors(n.args[0], s, d + 1) + factors(n.args[1], -s, d + 1)
    return [(n, s)]


def score(an, R):
    done = 0
    for lab, ft, bf, r, ways in configs(an):
        if not ways or 'given' in lab:
            # (with a given solution, the candidates depend on it as well)
            continue
        Q = W(r)
        Q.val = FIT[ft] + 'val'
        for o in ways:
            T = trials(o, ft)
            es = [e for e in scores(o, ft) if T and any(
                x.vn == T[0].vn for x in closure(e))]
            if len(T) != 1 or len(es) != 1:
                if len(T) == 1 and o.loop is not None:
                    R.unk('score', 'cost of a trial (%s)' % lab,
                          '%d costs' % len(es))
                continue
            done += 1
            what = 'cost of a trial (%s)' % lab
            E, t = es[0], T[0]
            own(R, what, o, E, t, Q.val)
            errors(R, r, Q, what, o, E, t)
            shape(R, r, what, o, E, t, Q.val)
            for d in density(E):
                tangent(R, r, Q, what, o, d, t)
                axes(R, r, Q, what, o, d)
    if not done:
        R.unk('score', 'cost of a trial', 'not found')


def own(R, what, o, E, t, val):
    bad = [x for x in evals(E, t, val) if not any(
        y.vn == t.vn for y in closure(x.args[1]))]
    if bad:
        R.bad('own-solution', what, 'evaluates another polynomial: %s' %
              show(bad[0], 3)[:200], at=o.loop.fn)
    elif evals(E, t, val):
        R.ok('own-solution', what)
    else:
        R.unk('own-solution', what, '')


def errsums(E, t, val):
    out = []
    for x in closure(E, stop=lambda y: y.vn == t.vn, gates=False):
        if x.op == 'fn' and x.info in ('sum', 'nansum', 'mean') and \
                not density(x) and evals(x, t, val):
            out.append(x)
    return out


def errors(R, r, Q, what, o, E, t):
    """An error above the tolerance counts as the tolerance."""
    tol = r.it.get(o.state, ('o', r.self.vn, 'ransac_tolerance'))
    w = what + ': errors'
    ss = errsums(E, t, Q.val)
    if not ss:
        R.unk('errors', w, 'not summed')
        return
    j = row()
    v = limits(chosen(Q.at(ss[0].args[0], j)))
    for c, l in G.leaves(v, o.pc):
        if not G.sat(c):
            continue
        l = strip(l)
        if any(x.op == 'call' and x.info == Q.val for x in closure(
                l, gates=False)):
            if not errorlike(l):
                R.unk('errors', w, show(l, 3)[:160])
            elif entails(c, G.b.NOT(G.cmp('<', tol, l))):
                R.ok('errors', w, 'at most the tolerance')
            elif all(x.op in ('sub', 'bin', 'fn', 'call', 'un', 'phi', 'row')
                     or isconst(x) for x in top(l)):
                R.bad('errors', w, 'an error above the tolerance counts in '
                      'full: %s' % show(l, 3)[:160], at=o.loop.fn)
            else:
                R.unk('errors', w, show(l, 3)[:160])
        elif l.vn == tol.vn:
            R.ok('errors', w, 'the tolerance')
        elif isconst(l) or l.op == 'field':
            R.bad('errors', w, 'an error above the tolerance counts as %s'
                  % show(l, 2)[:120], at=o.loop.fn)
        else:
            R.unk('errors', w, show(l, 3)[:160])


def chosen(n):
    """numpy.where as a choice."""
    n = strip(n)
    if n.op == 'fn' and n.info == 'where' and len(n.args) == 3:
        c = strip(n.args[0])
        c = c.info if c.op == 'bool' else G.truth(c)
        return G.phi(c, chosen(n.args[1]), chosen(n.args[2]))
    return n


def top(n, d=3):
    n = strip(n)
    yield n
    if d and n.op in ('bin', 'un', 'phi'):
        for a in n.args:
            yield from top(a, d - 1)


def shape(R, r, what, o, E, t, val):
    """Rises with the errors, falls with their number and the density."""
    w = what + ': '
    se = errsums(E, t, val)
    seen = set()
    for n, s in factors(E):
        if any(x.vn == y.vn for x in closure(n, gates=False) for y in se):
            seen.add('errors')
            put(R, s > 0, 'shape', w + 'rises with the errors', '',
                  'falls with the errors', at=o.loop.fn)
        elif density(n):
            seen.add('density')
            put(R, s < 0, 'shape', w + 'falls with the Hough density', '',
                  'rises with the Hough density: %s' % show(n, 2)[:120],
                  at=o.loop.fn)
        elif not isconst(n):
            p = G.poly_of(n.vn)
            byvn = {x.vn: x for x in closure(n)}
            seen.add('number')
            if s > 0:
                if lens(n):
                    R.bad('shape', w + 'per degree of freedom', 'multiplied '
                          'with %s' % show(n, 3)[:120], at=o.loop.fn)
                else:
                    R.unk('shape', w + 'factors', show(n, 3)[:120])
                continue
            for q, c in p.items():
                if len(q) != 1:
                    continue
                m = byvn.get(q[0][0])
                if m is None:
                    continue
                coef = strip(m.args[0]).vn == strip(t).vn if \
                    m.args else False
                put(R, c < 0 if coef else c > 0, 'shape', w +
                      'degrees of freedom', show(n, 3)[:120], 'wrong sign '
                      'of %s: %s' % (show(m, 2)[:80], show(n, 3)[:120]),
                      at=o.loop.fn)
    if 'errors' not in seen and not se:
        if not evals(E, t, val) or all(any(
                x.vn == y.vn for z in density(E) for x in closure(z))
                for y in evals(E, t, val)):
            R.bad('shape', w + 'rises with the errors', 'the errors do not '
                  'enter: %s' % show(E, 3)[:160], at=o.loop.fn)
        else:
            R.unk('shape', w + 'rises with the errors', '')


def lens(n):
    return any(x.op == 'fn' and x.info == 'len' for x in closure(
        n, gates=False))


def tangent(R, r, Q, what, o, d, t):
    w = what + ': place in the Hough transform'
    args = [strip(a) for a in d.args[1:3]]
    if len(args) < 2:
        R.unk('tangent', w, show(d, 2)[:120])
        return
    j = row()
    g, i = [strip(Q.at(a, j)) for a in args]

    def isval(n, slope):
        return n.op == 'call' and n.info == Q.val and any(
            x.vn == t.vn for x in closure(n.args[1])) and (
                strip(n.args[1]).vn != t.vn) == slope
    if not isval(g, True):
        if isval(i, True):
            R.bad('tangent', w, 'slope and intercept are swapped',
                  at=o.loop.fn)
        elif isval(g, False):
            R.bad('tangent', w, 'the wavelength is taken for the slope',
                  at=o.loop.fn)
        else:
            R.unk('tangent', w, show(g, 3)[:160])
        return
    x = strip(g.args[0])
    wave = G.raw('call', [x, t] + list(g.args[2:]), Q.val, g.kw)
    good = G.bin('-', wave, G.bin('*', g, x))
    if G.poly_of(i.vn) == G.poly_of(good.vn):
        R.ok('tangent', w, show(i, 3)[:160])
        return
    ok = all(y.op in ('bin', 'un', 'row', 'const', 'field', 'sub', 'iota')
             or y.op == 'fn' and y.info in (
                 'mean', 'median', 'max', 'min', 'len', 'arange', 'sum')
             or y.op == 'call' and y.info == Q.val
             for y in closure(i, stop=lambda y: y.op == 'call' or
                              y.op == 'field', gates=False))
    if ok:
        R.bad('tangent', w, 'the intercept is not that of the tangent: %s' %
              show(i, 4)[:200], at=o.loop.fn)
    else:
        R.unk('tangent', w, show(i, 4)[:200])


EDGE = {'xedges': 0, 'yedges': 1}


def edges(n):
    """0 / 1 for the edges of the slopes / intercepts of the histogram."""
    n = strip(n)
    if n.op == 'phi':
        a, b = edges(n.args[0]), edges(n.args[1])
        return a if a == b else None
    if n.op == 'field' or n.op == 'attr':
        return EDGE.get(n.info)
    if n.op == 'sub' and isconst(n.args[1]) and strip(
            n.args[0]).info == 'histogram2d':
        return {1: 0, 2: 1}.get(n.args[1].info)
    return None


def counts(n):
    """'hist', 'turned' or None."""
    n = strip(n)
    if n.op == 'phi':
        a, b = counts(n.args[0]), counts(n.args[1])
        return a if a == b else None
    if n.op in ('field', 'attr') and n.info == 'hist':
        return 'hist'
    if n.op == 'sub' and isconst(n.args[1]) and n.args[1].info == 0 and \
            strip(n.args[0]).info == 'histogram2d':
        return 'hist'
    if n.op == 'fn' and n.info in ('T', 'transpose') and counts(
            n.args[0]) == 'hist':
        return 'turned'
    return None


def index(i):
    """The number of the entry, counted from the start."""
    if isconst(i):
        return i if isinstance(i.info, int) and i.info >= 0 else None
    if i.op == 'row':
        return i
    if i.op == 'sel' and len(i.args) == 2:
        s, x = strip(i.args[0]), index(strip(i.args[1]))
        if x is not None and s.op == 'slice' and all(
                isconst(y) for y in s.args):
            lo, hi, st = [strip(y).info for y in s.args]
            if st in (None, 1) and lo in (None, 0, 1, 2, 3) and (
                    hi is None or isinstance(hi, int) and hi < 0):
                return G.bin('+', x, G.const(lo or 0))
    return None


def uniform(n, a, h, used, d=0):
    """The value with edge number i written as a + i * h; None if unclear."""
    n = strip(n)
    if isconst(n):
        return n
    if n.op == 'sub':
        e, i = edges(n.args[0]), strip(n.args[1])
        if e is None and i.op == 'sel' and len(i.args) == 2:
            # an entry of an entry
            e = edges(G.raw('sub', [n.args[0], i.args[0]]))
            i = strip(i.args[1])
        i = index(i)
        if e is None or i is None:
            return None
        used.add(e)
        return G.bin('+', a[e], G.bin('*', i, h[e]))
    if n.op == 'phi' and d < 12:
        x, y = [uniform(z, a, h, used, d + 1) for z in n.args]
        return x if x is not None and y is not None and \
            G.poly_of(x.vn) == G.poly_of(y.vn) else None
    if n.op == 'bin' and d < 12:
        x, y = [uniform(z, a, h, used, d + 1) for z in n.args]
        return None if x is None or y is None else G.bin(n.info, x, y)
    if n.op == 'un' and d < 12:
        x = uniform(n.args[0], a, h, used, d + 1)
        return None if x is None else G.un(n.info, x)
    return None


def axes(R, r, Q, what, o, d):
    w = what + ': axes of the Hough density'
    for s in closure(d.args[0]):
        if s.op != 'call' or not str(s.info).startswith(
                'scipy.interpolate.RectBivariateSpline'):
            continue
        if len(s.args) < 3:
            R.unk('axes', w, show(s, 2)[:120])
            continue
        a = [G.raw('param', (), 'first edge %d' % k) for k in (0, 1)]
        h = [G.raw('param', (), 'bin width %d' % k) for k in (0, 1)]
        j = row()
        for k, name in enumerate(('slopes', 'intercepts')):
            used = set()
            v = uniform(Q.at(s.args[k], j), a, h, used)
            u = '%s, %s' % (w, name)
            if v is None:
                R.unk('axes', u, show(s.args[k], 4)[:160])
                continue
            good = G.bin('+', a[k], G.bin('*', G.bin(
                '+', j, G.const(0.5)), h[k]))
            put(R, G.poly_of(v.vn) == G.poly_of(good.vn), 'axes', u,
                  'centres of the bins', 'not the centres of the bins of '
                  'the %s: %s' % (name, show(s.args[k], 4)[:160]),
                  at=o.loop.fn)
        c = counts(s.args[2])
        if c is None:
            R.unk('axes', w + ', counts', show(s.args[2], 3)[:120])
        else:
            put(R, c == 'hist', 'axes', w + ', counts', '', 'the counts are '
                  'transposed', at=o.loop.fn)


# ---- the adjustment of a solution ----------------------------------------
def adjust(an, R):
    """What match_peaks minimises when it adjusts a solution."""
    f = an.prog.method('Calibrator', 'match_peaks')
    for t in ('poly', 'legendre', 'chebyshev'):
        what = 'adjustment of a solution (%s)' % t
        o = an.selfof('Calibrator')
        cs, ds = symbols('c', 4), symbols('d', 3)
        r = Run(an, f, st=St({('o', o.vn, a): v for a, v in
                              state(an, t).items()}, TRUE),
                bind={'fit_coeff': G.raw('list', tuple(cs)),
                      'refine': G.const(True), 'n_delta': G.const(3),
                      'robust_refit': G.const(False)})
        ms = [e for e in r.events if e.kind == 'call' and
              str(e.name).startswith('scipy.optimize') and G.sat(e.pc) and
              e.b]
        if len(ms) != 1:
            R.unk('adjust', what, '%d minimisations' % len(ms))
            continue
        a = dict(ms[0].c or {}).get('args')
        a = strip(a) if a is not None else G.raw('tuple', ())
        v = r.it.call(strip(ms[0].b[0]), [G.wrap(
            'array', G.raw('list', tuple(ds)), None)] +
                      list(a.args), {}, r.end.copy())
        done = 0
        for c, l in G.leaves(v, TRUE):
            if isconst(strip(l)) or not G.sat(c) or any(
                    x.op == 'ext' and x.info in ('numpy.inf', 'math.inf')
                    for x in [strip(l)]):
                continue
            es = {x.vn: x for x in closure(l, gates=False)
                  if x.op == 'call' and str(x.info) in EVAL}
            F = {x.args[EVAL[x.info][3]].vn: x.args[EVAL[x.info][3]]
                 for x in es.values()}
            if not es and strip(l).op not in ('bin', 'fn', 'un'):
                continue
            done += 1
            old = [x for x in F.values() if not any(
                y.vn == d.vn for y in closure(x) for d in ds)]
            if old:
                R.bad('own-solution', what, 'the solution before the '
                      'adjustment is evaluated: %s' % show(old[0], 3)[:150],
                      at='calibrator')
            top = misfit(R, r, what, l, es)
            if len(F) == 1:
                (n,) = F.values()
                R.ok('own-solution', what)
                rising(R, r, what, c, n)
                enough(R, r, what, c, top)
        if not done:
            R.unk('adjust', what, 'no value judged')


def misfit(R, r, what, l, es):
    w = what + ': misfit'
    if not es:
        R.bad('misfit', w, 'the solution is not evaluated: %s' %
              show(l, 4)[:200], at='calibrator')
        return {}
    seen = {}
    for n, s in factors(l):
        n = strip(n)
        if not any(x.vn in es for x in closure(n, gates=False)):
            if lens(n):
                put(R, s < 0, 'misfit', w + ', per degree of freedom', '',
                    'multiplied with %s' % show(n, 3)[:120], 'calibrator')
            continue
        while n.op == 'fn' and n.info in (
                'abs', 'absolute', 'fabs', 'sqrt', 'square') or \
                n.op == 'bin' and n.info == '**' and isconst(
                    strip(n.args[1])):
            n = strip(n.args[0])
        if not (n.op == 'fn' and n.info in ('sum', 'nansum', 'mean')):
            continue
        b = strip(n.args[0])
        d = b
        if b.op == 'bin' and b.info == '**' and isconst(strip(b.args[1])):
            p = strip(b.args[1]).info
            d = strip(b.args[0])
            even = isinstance(p, (int, float)) and p > 0 and p % 2 == 0
        elif b.op == 'bin' and b.info == '*' and strip(
                b.args[0]).vn == strip(b.args[1]).vn:
            d, even = strip(b.args[0]), True
        else:
            even = False
        if d.op == 'fn' and d.info in ('abs', 'square', 'absolute', 'fabs'):
            d, even = strip(d.args[0]), True
        if not (d.op == 'bin' and d.info in ('-', '+')):
            continue
        ev = [y for y in d.args if strip(y).vn in es]
        if len(ev) != 1:
            continue
        seen[strip(ev[0]).vn] = strip(ev[0])
        put(R, d.info == '-' and even and s > 0, 'misfit', w,
            show(l, 4)[:160], 'not a sum of squared or absolute errors: %s' %
            show(l, 5)[:200], 'calibrator')
    if not seen:
        R.unk('misfit', w, show(l, 5)[:200])
    return seen


def rising(R, r, what, c, F):
    """Only a solution that increases is ever scored."""
    w = what + ': increasing'
    X = [x for x in bddclosure(c) if x.op == 'call' and str(x.info) in EVAL
         and x.args[EVAL[x.info][3]].vn == F.vn]
    X = list({x.vn: x for x in X}.values())
    weak = None
    k = G.const
    for v in G.b.support(c):
        if G.atoms[v][0] not in ('all', 'any'):
            continue
        q = G.atoms[v][1][0]
        body = G.truth(q) if q.op != 'bool' else q.info
        var = G.b.var(v)
        if G.atoms[v][0] == 'all' and G.implies(c, var):
            g = body
        elif G.atoms[v][0] == 'any' and G.implies(c, G.b.NOT(var)):
            g = G.b.NOT(body)
        else:
            if any(y.vn == x.vn for x in X for y in bddclosure(body)):
                weak = G.bshow(var, 2)
            continue
        for x in X:
            if not any(y.vn == x.vn for y in bddclosure(body)):
                continue
            up = r.it.index(x, G.raw('slice', (k(1), k(None), k(None))))
            dn = r.it.index(x, G.raw('slice', (k(None), k(-1), k(None))))
            if G.implies(g, G.lt(dn, up)):
                R.ok('increasing', w, show(x, 3)[:150])
                return
            if not g <= 1 and all(G.atoms[u][0] in ('pos', 'eq')
                                  for u in G.b.support(g)):
                R.bad('increasing', w, 'only %s is required' % G.bshow(
                    g, 2)[:250], at='calibrator')
                return
    if weak:
        R.bad('increasing', w, 'only some step is required to be so: %s' %
              weak[:250], at='calibrator')
    elif not any(x.op in ('dyncall', 'mcall', 'lambda', 'unknown') or
                 x.op == 'call' and str(x.info) in EVAL
                 for v in G.b.support(c) for n in G.atoms[v][1]
                 for x in closure(n, stop=lambda y: y.op in (
                     'collect', 'collectcat'))):
        R.bad('increasing', w, 'a solution that does not increase is scored',
              at='calibrator')
    else:
        R.unk('increasing', w, G.bshow(c, 4)[:200])


def enough(R, r, what, c, es):
    """Only a solution that matches the required fraction is scored."""
    w = what + ': fraction of the peaks'
    frac = r.p('min_frac')
    peaks = r.it.get(r.end, ('o', r.self.vn, 'peaks'))
    need = G.bin('*', r.it.fn('len', [peaks], (), None), frac)
    for x in es.values():
        m = strip(x.args[EVAL[x.info][2]])
        n = r.it.fn('len', [m], (), None)
        same = {n.vn}
        # lists that are filled side by side are as long as each other
        for y in bddclosure(c):
            z = strip(y)
            if z.op == m.op == 'collect' and [
                    a.vn for a in z.args[1:]] == [a.vn for a in m.args[1:]]:
                k = r.it.fn('len', [z], (), None)
                same.add(k.vn)
                if entails(c, G.b.NOT(G.cmp('<', k, need))):
                    n = k
        if entails(c, G.b.NOT(G.cmp('<', n, need))):
            R.ok('fraction', w, show(n, 3)[:150])
        elif not any(y.vn == frac.vn for y in bddclosure(c)):
            R.bad('fraction', w, 'the fraction does not matter',
                  at='calibrator')
        elif entails(c, G.b.NOT(G.cmp('<', need, n))):
            R.bad('fraction', w, 'it is the most that is matched, not the '
                  'least', at='calibrator')
        else:
            ps = [G.poly_of(G.atoms[v][3][0]) for v in G.b.support(c)
                  if G.atoms[v][0] == 'pos']
            ps = [q for q in ps if any(k == frac.vn for m in q
                                       for k, _ in m)]
            few = {y.vn for y in (n, frac, r.it.fn('len', [peaks], (),
                                                   None))} | same
            if len(ps) == 1 and all(k in few for m in ps[0] for k, _ in m):
                R.bad('fraction', w, 'not the number of matches over that '
                      'of the peaks is compared: %s' % G.bshow(c, 4)[:200],
                      at='calibrator')
            else:
                R.unk('fraction', w, G.bshow(c, 4)[:200])


RULES = [score, adjust]
