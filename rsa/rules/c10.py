"""C10: a solution is only accepted after passing every quality gate."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..lines import stepkind
from ..linear import entails, split
from ..q import closure
from ..rows import Rows, row
from ..solve import (configs, field, trials, mentions, understood, spread, arith, FIT,
                     bddclosure)

LISTS = ('fit_coeff', 'matched_peaks', 'matched_atlas')


def gate(R, rule, what, AC, refuse, keys, fn, msg):
    """The accepting condition excludes `refuse`."""
    if not G.sat(G.b.AND(AC, refuse)) or entails(AC, G.b.NOT(refuse)):
        R.ok(rule, what, '')
        return True
    ac, no = split(AC), G.b.NOT(split(refuse))
    if entails(ac, no):
        R.ok(rule, what, '')
        return True
    vs = set()
    for k in keys:
        vs |= set(mentions(AC, k))
    if understood(AC, vs) and plain(vs):
        R.bad(rule, what, '%s although %s is possible' % (
            msg, G.bshow(refuse, 2)[:250]), at=fn)
    else:
        R.unk(rule, what, 'atoms %s' % [G.atoms[v][0] for v in vs])
    return False


def exact(R, what, AC, n, limit, fn, word):
    """What just meets the limit is not refused."""
    pc = split(AC)
    if entails(pc, split(lt(limit, n))) and not entails(
            pc, split(lt(G.bin('+', limit, G.const(1)), n))):
        R.bad('exact-limit', what, 'a solution with exactly %s %s is refused'
              % (show(limit, 2)[:60], word), at=fn)
    else:
        R.ok('exact-limit', what)


def walk(n):
    n = strip(n)
    while n.op == 'sub':
        yield n
        yield strip(n.args[1])
        n = strip(n.args[0])
    yield n


def plain(vs):
    """Only lengths, sums, settings and errors are compared."""
    for v in vs:
        for n in G.atoms[v][1]:
            for x in arith(n):
                if x.op in ('bin', 'un', 'wrap', 'phi', 'const', 'bool',
                            'field', 'param', 'mu', 'sub', 'update',
                            'list', 'tuple', 'iota'):
                    continue
                if x.op == 'fn' and x.info in ('len', 'sum') and any(
                        y.op == 'collect' or y.op == 'fn' and y.info in (
                            'nonzero', 'flatnonzero', 'argwhere')
                        for y in walk(x.args[0])):
                    return False
                if x.op == 'fn' and x.info in (
                        'len', 'sum', 'sqrt', 'mean', 'max', 'min', 'abs',
                        'maximum', 'minimum'):
                    continue
                return False
    return True


def accepted(an, R):
    for lab, ft, bf, r, ways in configs(an):
        what0 = 'solution accepted by %s (%s)' % (r.fn.full, lab)
        if not ways:
            R.unk('gates', what0, 'no accepting step found')
            continue
        ok = 0
        for o in ways:
            if not any(o.vals.get(k) is not None for k in LISTS):
                continue
            ok += 1
            gates(an, R, r, ft, o, '%s, %s of %s' % (
                what0, o.kind, 'the loop body'))
        if not ok:
            R.unk('gates', what0, 'no accepting step found')


def gates(an, R, r, ft, o, what):
    AC = o.pc
    fn = o.loop.fn
    MP, MA = o.vals.get('matched_peaks'), o.vals.get('matched_atlas')
    if MP is None or MA is None:
        R.bad('all-together', what, 'the %s replaced although the %s are '
              'not' % ('coefficients are' if MA is None and MP is None
                       else 'matched list is', 'matched lists'
                       if MA is None and MP is None else 'other values'),
              at=fn)
        return
    R.ok('all-together', what)
    n = length(r, MP)
    f = {k: field(o, r, k) for k in (
        'fit_deg', 'minimum_matches', 'minimum_peak_utilisation', 'peaks',
        'minimum_fit_error', 'min_intercept', 'max_intercept',
        'ransac_tolerance')}
    fit = r.it.initial(('o', r.self.vn, 'minimum_matches'))
    gate(R, 'more-than-degree', what, AC, le(n, f['fit_deg']),
         [f['fit_deg'].vn, n.vn], fn, 'accepted')
    gate(R, 'minimum-matches', what, AC, lt(n, f["minimum_matches"]),
         [fit.vn], fn, 'accepted')
    exact(R, what + ', minimum_matches', AC, n, f['minimum_matches'], fn,
          'matches')
    share = G.bin('*', f['minimum_peak_utilisation'],
                  r.it.fn('len', [f['peaks']], (), None))
    gate(R, 'minimum-utilisation', what, AC, lt(n, share),
         [f['minimum_peak_utilisation'].vn], fn, 'accepted')
    exact(R, what + ', minimum_peak_utilisation', AC, n, share, fn, 'matches')
    rms = o.vals.get('rms')
    if rms is None:
        R.unk('minimum-error', what, 'no rms')
    else:
        gate(R, 'minimum-error', what, AC, lt(
            rms, f['minimum_fit_error']), [f['minimum_fit_error'].vn], fn,
            'accepted')
    inliers(R, r, o, what, AC, f['ransac_tolerance'], MP, MA)
    cost(R, r, o, what, ft)
    # the sampled polynomial
    T = trials(o, ft)
    if not T:
        R.unk('interval', what, 'no sampled polynomial among the gates')
        return
    best = None
    for t in T:
        for P in starts(r, t, ft, o):
            lo = lt(P, f['min_intercept'])
            hi = lt(f['max_intercept'], P)
            s = (G.implies(AC, G.b.NOT(lo)) or entails(AC, G.b.NOT(lo)),
                 G.implies(AC, G.b.NOT(hi)) or entails(AC, G.b.NOT(hi)))
            if best is None or sum(s) > sum(best[0]):
                best = (s, t, P)
    s, t, P = best
    for on, k in ((s[0], 'min_intercept'), (s[1], 'max_intercept')):
        if on:
            R.ok('interval', what + ', ' + k)
        else:
            vs = mentions(AC, f[k].vn)
            if understood(AC, vs):
                R.bad('interval', what + ', ' + k, 'the start %s of the '
                      'polynomial is not bounded by it' % show(P, 3)[:150],
                      at=fn)
            else:
                R.unk('interval', what + ', ' + k, '')
    monotone(R, r, o, what, ft, t)


def length(r, MP):
    n = r.it.fn('len', [strip(MP)], (), None)
    return n


def le(a, b):
    return G.b.NOT(lt(b, a))


def lt(a, b):
    return G.cmp('<', a, b)


def starts(r, t, ft, o):
    out = [G.raw('sub', (t, G.const(0)))]
    for x in bddclosure(o.pc):
        if x.op == 'call' and x.info == FIT[ft] + 'val' and isconst(
                x.args[0]) and x.args[0].info == 0 and \
                x.args[1].vn == t.vn:
            out.append(x)
    return out


def inliers(R, r, o, what, AC, tol, MP, MA):
    """Every kept pair is closer than the tolerance."""
    W = Rows(r)
    for name, X in (('peaks', MP), ('lines', MA)):
        w = 'matched %s of the %s' % (name, what)
        st = outer(X)
        j = row()
        f = AC
        for m in st:
            if stepkind(m) == 'mask':
                f = G.b.AND(f, G.truth(W.at(m, j)))
            j = W.sel(m, j)
        f = spread(f)
        cand = {}
        for v in G.b.support(f):
            if G.atoms[v][0] != 'pos':
                continue
            ns = G.atoms[v][1]
            if any(x.vn == tol.vn for n in ns for x in closure(
                    n, stop=lambda y: y.op in ('fn', 'sub', 'call',
                                               'collect', 'update'))):
                for n in ns:
                    for x in closure(n, stop=lambda y: y.op not in (
                            'bin', 'un', 'wrap'), gates=False):
                        if x.vn != tol.vn and x.op not in (
                                'const', 'phi', 'update'):
                            cand[x.vn] = x
        good = [x for x in cand.values() if entails(f, G.lt(x, tol))
                and errorlike(x)]
        if good:
            R.ok('inside-tolerance', w, show(good[0], 3)[:200])
        elif not st:
            R.bad('inside-tolerance', w, 'no pair is removed: %s' % show(
                X, 3)[:200], at=o.loop.fn)
        elif all(stepkind(m) == 'mask' and strip(m).op == 'bool' and all(
                G.atoms[v][0] == 'pos' for v in G.b.support(strip(m).info))
                for m in st):
            R.bad('inside-tolerance', w, 'pairs kept by %s are not all '
                  'closer than the tolerance' % [
                      show(m, 4)[:200] for m in st], at=o.loop.fn)
        else:
            R.unk('inside-tolerance', w, [show(m, 3)[:100] for m in st])


def errorlike(x):
    """A distance, not a signed difference."""
    for y in closure(x):
        if y.op == 'fn' and y.info in ('abs', 'sqrt', 'square') or \
                y.op == 'bin' and y.info == '**':
            return True
    return False


def outer(X):
    """Selections applied last, outermost first."""
    out = []
    while True:
        X = strip(X)
        if X.op == 'sub' and not isconst(X.args[1]):
            out.append(X.args[1])
            X = X.args[0]
            continue
        return out


def cost(R, r, o, what, ft):
    """Never worse than the best so far, which is updated with it."""
    AC = o.pc
    loop_mu = {m.vn: (k, m) for k, m in o.loop.mus.items()}
    sure, wrong, other = [], [], []
    for v in G.b.support(AC):
        if G.atoms[v][0] != 'pos':
            continue
        a = G.atoms[v][1]
        inv = {x.vn: x for n in a for x in closure(
            n, stop=lambda y: y.op in ('mu', 'fn', 'call', 'sub', 'collect',
                                       'update'), gates=False)}
        for vn in inv:
            if vn not in loop_mu:
                continue
            k, m = loop_mu[vn]
            if counter(m):
                continue
            new = o.state.s.get(k, m)
            for c, E in G.leaves(new, AC):
                if E.vn == m.vn:
                    other.append('%s is never updated' % show(inv[vn], 1))
                elif entails(c, le(E, m)):
                    sure.append(E)
                else:
                    wrong.append(E)
    if sure:
        E = sure[0]
        if any(x.op == 'call' and x.info == FIT[ft] + 'val'
               for x in closure(E)):
            R.ok('cost', what, show(E, 3)[:200])
        else:
            R.unk('cost', what, show(E, 3)[:200])
    elif wrong:
        R.bad('cost', what, 'a solution that costs %s is accepted although '
              'the best so far may be better' % show(wrong[0], 3)[:200],
              at=o.loop.fn)
    elif other:
        R.bad('cost', what, 'the best cost so far is compared, but %s' %
              other[0], at=o.loop.fn)
    else:
        vs = [v for v in G.b.support(AC) if any(
            x.vn in loop_mu and not counter(loop_mu[x.vn][1])
            for n in G.atoms[v][1] for x in closure(n))]
        if understood(AC, vs) and not vs:
            R.bad('cost', what, 'is not compared with the best so far',
                  at=o.loop.fn)
        else:
            R.unk('cost', what, '')


def counter(m):
    """A loop counter or flag."""
    if m.next is None:
        return True
    for c, l in G.leaves(m.next, TRUE):
        if isconst(l) and isinstance(l.info, bool):
            return True
        if l.op == 'bin' and l.info in '+-' and any(
                x.vn == m.vn for x in l.args) and any(
                    isconst(x) for x in l.args):
            return True
    i = m.args[0]
    return isconst(i) and isinstance(i.info, bool)


def monotone(R, r, o, what, ft, t):
    AC = o.pc
    X = {}
    for x in bddclosure(AC):
        if x.op == 'call' and x.info == FIT[ft] + 'val' and len(
                x.args) == 2 and x.args[1].vn == t.vn:
            X[x.vn] = x
    seen = False
    weak = None
    for x in X.values():
        s = G.const
        up = r.it.index(x, G.raw('slice', (s(1), s(None), s(None))))
        dn = r.it.index(x, G.raw('slice', (s(None), s(-1), s(None))))
        rise = G.lt(dn, up)
        fall = G.lt(up, dn)
        for v in G.b.support(AC):
            if G.atoms[v][0] not in ('all', 'any'):
                continue
            q = G.atoms[v][1][0]
            body = G.truth(q) if q.op != 'bool' else q.info
            if not any(y.vn == x.vn for y in bddclosure(body)):
                continue
            var = G.b.var(v)
            if G.atoms[v][0] == 'all' and G.implies(AC, var):
                f = body
            elif G.atoms[v][0] == 'any' and G.implies(AC, G.b.NOT(var)):
                f = G.b.NOT(body)
            else:
                if G.implies(AC, var) or G.implies(AC, G.b.NOT(var)):
                    weak = G.bshow(var, 2)
                continue
            seen = True
            if G.implies(f, rise):
                R.ok('increasing', what, show(x, 3)[:150])
                grid(R, r, o, what, x.args[0])
                return
            if not f <= 1 and all(G.atoms[u][0] in ('pos', 'eq')
                                  for u in G.b.support(f)):
                R.bad('increasing', what, 'only %s is required' % G.bshow(
                    f, 2)[:250], at=o.loop.fn)
                return
    if not seen and weak:
        R.bad('increasing', what, 'only some step is required to be so: %s' %
              weak[:250], at=o.loop.fn)
    elif not seen and not any(
            y.op == 'fn' and y.info in ('arange', 'linspace', 'diff')
            for x in X.values() for y in closure(x.args[0])):
        R.bad('increasing', what, 'the polynomial is not required to '
              'increase', at=o.loop.fn)
    else:
        R.unk('increasing', what, '')


def grid(R, r, o, what, g):
    """The range examined extends beyond the first and last peak."""
    g = strip(g)
    w = 'range of the ' + what
    if not (g.op == 'fn' and g.info in ('arange', 'linspace') and
            len(g.args) >= 2):
        R.unk('peak-range', w, show(g, 3)[:150])
        return
    for a, sign, k, red in ((g.args[0], -1, 0, 'min'),
                            (g.args[1], 1, -1, 'max')):
        q = {'min': 0, 'max': 0}
        other = None
        for m, c in G.poly_of(a.vn).items():
            n = strip(G.vn_node[m[0][0]]) if len(m) == 1 and \
                m[0][1] == 1 else None
            if n is not None and n.op == 'fn' and n.info in q:
                q[n.info] += c
            elif n is not None and n.op == 'sub' and isconst(
                    n.args[1]) and n.args[1].info in (0, -1):
                q['min' if n.args[1].info == 0 else 'max'] += c
            else:
                other = m
        side = 'lower' if sign < 0 else 'upper'
        near, far = (q['min'], q['max']) if k == 0 else (q['max'], q['min'])
        if other is not None or near + far != 1:
            R.unk('peak-range', w, show(a, 3)[:150])
        elif far < 0:
            R.ok('peak-range', w, show(a, 3)[:150])
        elif far == 0:
            R.bad('peak-range', w, 'the %s end is not extended: %s' % (
                side, show(a, 3)[:150]), at=o.loop.fn)
        else:
            R.bad('peak-range', w, 'the %s end is moved inwards: %s' % (
                side, show(a, 3)[:150]), at=o.loop.fn)


def valid(an, R):
    """Declared valid only with more lines than the degree plus one."""
    from ..front import Missing
    for lab, ft, bf, r, ways in configs(an)[:1]:
        break
    try:
        s = an.method('Calibrator', '_solve_candidate_ransac',
                      bind={'brute_force': G.const(False)})
    except Missing:
        R.unk('valid', 'validity of a fit', 'solver not found')
        return
    deg = s.params.get('fit_deg')
    n = 0
    for st, v in s.exits:
        for c, l in G.leaves(v, st.pc):
            t = strip(l)
            if t.op != 'tuple' or len(t.args) != 5 or deg is None:
                R.unk('valid', 'validity of a fit', show(t, 3)[:150])
                continue
            num, ok = t.args[3], t.args[4]
            yes = G.b.AND(c, G.truth(ok))
            if not G.sat(yes):
                continue
            n += 1
            d = G.bin('+', deg, G.const(1))
            bad = le(num, d)
            if entails(yes, G.b.NOT(bad)):
                R.ok('valid', 'validity of a fit', '')
            elif any(x.vn == num.vn for x in bddclosure(yes)) or isconst(
                    ok):
                R.bad('valid', 'validity of a fit', 'declared valid with %s '
                      'lines when %s' % (show(num, 2), G.bshow(
                          G.b.AND(about(yes, num), bad), 2)[:200]),
                      at=s.name)
            else:
                R.unk('valid', 'validity of a fit', '')


def about(f, n):
    from ..linear import about as ab
    return ab(f, G.lt(n, G.const(0)))


RULES = [accepted, valid]
