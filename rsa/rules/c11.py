"""C11: a reported result describes one and the same solution."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..loops import outs
from ..q import closure
from ..solve import configs, VALS, FIT

ORDER = ('fit_coeff', 'matched_peaks', 'matched_atlas', 'rms', 'residual',
         'peak_utilisation', 'atlas_utilisation')


def names(res, n):
    return tuple('residuals' if x == 'residual' and res == 'residuals' else x
                 for x in ORDER[:n])


def pairs(a, b, pc):
    """Alternatives of two values that can occur together."""
    for c, x in G.leaves(a, pc):
        if not G.sat(c):
            continue
        for d, y in G.leaves(b, c):
            if G.sat(d):
                yield d, x, y


def same(a, b):
    return a is b or strip(a).vn == strip(b).vn


def fits(an):
    for lab, ft, bf, r, ways in configs(an):
        yield 'Calibrator.fit (%s)' % lab, r, 'residual', 7
    for ft in FIT:
        r = an.method('Calibrator', 'match_peaks')
        yield 'Calibrator.match_peaks', r, 'residuals', 7
        break
    r = an.method('Calibrator', 'manual_refit')
    yield 'Calibrator.manual_refit', r, 'residuals', 5


def attr(r, st, a):
    return r.it.get(st, ('o', r.self.vn, a))


def returned(an, R):
    for what, r, res, n in fits(an):
        rule = 'returned-is-stored'
        some = False
        for st, v in r.exits:
            for c, t in G.leaves(v, st.pc):
                if not G.sat(c):
                    continue
                t = strip(t)
                if t.op not in ('tuple', 'list') or t.kw:
                    R.unk(rule, what, 'returns %s' % show(t, 2)[:100])
                    continue
                if len(t.args) != n:
                    R.bad(rule, what, 'returns %d values instead of %d' % (
                        len(t.args), n), at=r.name)
                    continue
                rest = [strip(x) for x in t.args[1:]]
                if all(isconst(x) and x.info is None for x in rest):
                    # nothing was found: nothing may be stored
                    ok = True
                    for a in names(res, n)[1:]:
                        k = ('o', r.self.vn, a)
                        if not same(G.simp(r.it.get(st, k), c),
                                    G.simp(r.it.initial(k), c)):
                            ok = False
                            R.bad(rule, what + ', no result', '%s is '
                                  'replaced although no result is returned'
                                  % a, at=r.name)
                    if ok:
                        R.ok(rule, what + ', no result')
                    continue
                some = True
                for i, a in enumerate(names(res, n)):
                    w = '%s: value %d (%s)' % (what, i + 1, a)
                    x, y = G.simp(t.args[i], c), G.simp(attr(r, st, a), c)
                    diff = None
                    if not same(x, y):
                        for d, p, q in pairs(x, y, c):
                            if not same(p, q):
                                diff = p, q
                                break
                    if diff is None:
                        R.ok(rule, w)
                    else:
                        R.bad(rule, w, 'returned %s but stored %s' % (
                            show(diff[0], 3)[:150], show(diff[1], 3)[:150]),
                            at=r.name)
        if not some:
            R.unk(rule, what, 'no result returned')


# ---- residuals, rms, fractions ------------------------------------------
def unclip(n):
    """The signed difference below limits on the residuals."""
    while True:
        s = strip(n)
        if s.op == 'update':
            n = s.args[0]
        elif s.op == 'fn' and s.info in ('clip', 'minimum', 'maximum') and \
                s.args:
            a = [x for x in s.args if any(
                y.op in ('call', 'dyncall') for y in closure(x))]
            n = a[0] if len(a) == 1 else s.args[0]
            if n is s:
                return s
        elif s.op == 'fn' and s.info == 'where3' and len(s.args) == 3:
            a = [x for x in s.args[1:] if strip(x).op in ('bin', 'update')]
            if not a:
                return s
            n = a[0]
        else:
            return s


def ispolyval(x):
    if x.op == 'call' and x.info in [f + 'val' for f in FIT.values()]:
        return len(x.args) == 2
    if x.op == 'dyncall':
        f = strip(x.args[0])
        return f.op == 'field' and 'polyval' in str(f.info) and \
            len(x.args) == 3
    return False


def xk(x):
    return x.args[-2], x.args[-1]


KNOWN = ('mu', 'param', 'field', 'sub', 'call', 'collect', 'list', 'fn',
         'const', 'bin', 'un', 'dyncall', 'update', 'concat')


def residuals(R, r, what, C, MP, MA, RES, pc):
    rule = 'residuals'
    D = unclip(RES)
    p = G.poly_of(D.vn)
    P, Y, other = [], [], []
    for m, c in p.items():
        n = strip(G.vn_node[m[0][0]]) if len(m) == 1 and m[0][1] == 1 \
            else None
        if n is not None and ispolyval(n) and abs(c) == 1:
            P.append((n, c))
        elif n is not None and abs(c) == 1 and same(n, MA):
            Y.append((n, c))
        else:
            other.append((n, c))
    if len(P) == 1 and not other and len(Y) == 1 and P[0][1] == -Y[0][1]:
        x, k = xk(P[0][0])
        x, k = G.simp(x, pc), G.simp(k, pc)
        good = True
        if not same(x, MP):
            good = False
            R.bad(rule, what, 'computed at %s, not at the matched pixels %s'
                  % (show(x, 3)[:150], show(MP, 3)[:150]), at=r.name)
        if not same(k, C):
            good = False
            R.bad(rule, what, 'computed from the coefficients %s, not %s' % (
                show(k, 3)[:150], show(C, 3)[:150]), at=r.name)
        if good:
            R.ok(rule, what, show(D, 3)[:200])
        return
    ph = [n for n, c in other if n is not None and n.op == 'phi']
    if ph:
        for c, l in G.leaves(ph[0], pc):
            if G.sat(c) and strip(l).op != 'phi':
                residuals(R, r, what, G.simp(C, c), G.simp(MP, c),
                          G.simp(MA, c), G.simp(RES, c), c)
        return
    if len(P) == 1 and len(other) == 1 and not Y and other[0][0] is not None \
            and other[0][1] == -P[0][1] and other[0][0].op in KNOWN:
        R.bad(rule, what, 'the solution is compared with %s, not with the '
              'matched wavelengths %s' % (show(other[0][0], 3)[:150],
                                          show(MA, 3)[:150]), at=r.name)
        return
    if P and all(n is not None and n.op in ('fn', 'const', 'field', 'param',
                                            'call', 'sub', 'mu')
                 for n, c in other) and D.op in ('bin', 'un', 'call'):
        R.bad(rule, what, 'are %s' % show(D, 4)[:200], at=r.name)
        return
    if D.op == 'fn' and D.info == 'abs':
        R.bad(rule, what, 'are unsigned: %s' % show(D, 3)[:150], at=r.name)
        return
    R.unk(rule, what, show(D, 4)[:200])


def square(n):
    n = strip(n)
    if n.op == 'bin' and n.info == '**' and isconst(strip(n.args[1])) and \
            strip(n.args[1]).info == 2:
        return n.args[0]
    if n.op == 'fn' and n.info == 'square':
        return n.args[0]
    if n.op == 'bin' and n.info == '*' and same(*n.args):
        return n.args[0]
    return None


def unabs(n):
    n = strip(n)
    if n.op == 'fn' and n.info == 'abs' and len(n.args) == 1:
        return n.args[0]
    return n


def lengths(r, RES, MP, MA):
    return {r.it.fn('len', [strip(x)], (), None).vn for x in (RES, MP, MA)} \
        | {r.it.fn('len', [unclip(RES)], (), None).vn}


def meansq(r, n, lens):
    """(kind, base): mean of the squares of base."""
    n = strip(n)
    if n.op == 'fn' and n.info in ('mean', 'nanmean') and not n.kw:
        q = square(n.args[0])
        if q is not None:
            return 'ok', q
        return 'wrong', n
    if n.op == 'bin' and n.info == '/':
        s, d = strip(n.args[0]), strip(n.args[1])
        if s.op == 'fn' and s.info in ('sum', 'nansum') and not s.kw:
            q = square(s.args[0])
            if q is None:
                return 'wrong', n
            if d.vn in lens or d.vn == r.it.fn('len', [strip(q)], (),
                                               None).vn:
                return 'ok', q
            if all(x.op in ('fn', 'bin', 'const', 'field', 'wrap', 'param',
                            'mu', 'sub', 'phi') for x in (d,)):
                return 'wrong', n
            return None, n
        if s.op == 'bin' and s.info == '@' or s.op == 'fn' and s.info in (
                'dot', 'vdot', 'inner'):
            if same(*s.args[:2]) and d.vn in lens:
                return 'ok', s.args[0]
    if n.op == 'fn' and n.info in ('median', 'sum', 'nansum', 'max', 'std',
                                   'var', 'nanmedian', 'nanstd', 'nanvar'):
        return 'wrong', n
    return None, n


def rms(R, r, what, RES, MP, MA, RMS):
    rule = 'rms'
    n = strip(RMS)
    lens = lengths(r, RES, MP, MA)
    kind, base = None, n
    if n.op == 'fn' and n.info == 'sqrt' or n.op == 'bin' and \
            n.info == '**' and isconst(strip(n.args[1])) and \
            strip(n.args[1]).info == 0.5:
        kind, base = meansq(r, n.args[0], lens)
    elif n.op == 'fn' and n.info in ('mean', 'nanmean', 'median', 'std',
                                     'sum', 'max', 'nanstd', 'var'):
        kind = 'wrong'
    elif n.op == 'bin' and n.info in '*/+-' and any(
            strip(x).op == 'fn' and strip(x).info == 'sqrt' and
            meansq(r, strip(x).args[0], lens)[0] == 'ok' for x in n.args):
        kind = 'wrong'
    if kind == 'ok':
        q = unabs(base)
        if same(q, RES):
            R.ok(rule, what, show(n, 4)[:200])
        elif strip(q).op == 'un' and same(strip(q).args[0], RES):
            R.ok(rule, what, show(n, 4)[:200])
        elif same(unclip(q), unclip(RES)) or strip(q).op in KNOWN:
            R.bad(rule, what, 'computed from %s, not from the reported '
                  'residuals %s' % (show(q, 4)[:150], show(RES, 4)[:150]),
                  at=r.name)
        else:
            R.unk(rule, what, show(q, 3)[:200])
    elif kind == 'wrong':
        R.bad(rule, what, 'is %s' % show(n, 5)[:250], at=r.name)
    else:
        R.unk(rule, what, show(n, 4)[:200])


def fraction(R, r, st, what, U, n, of, pc):
    """U == n / len(of)"""
    rule = 'utilisation'
    total = r.it.fn('len', [attr(r, st, of)], (), st)
    for c, u in G.leaves(U, pc):
        if not G.sat(c):
            continue
        u = strip(u)
        if u.op == 'bin' and u.info == '/':
            num, den = u.args
            good = False
            if G.simp(den, c).vn == G.simp(total, c).vn:
                good = True
            elif strip(den).op == 'fn' or isconst(strip(den)) or \
                    strip(den).op in ('field', 'param', 'bin'):
                R.bad(rule, what, 'is relative to %s, not to %s' % (
                    show(den, 3)[:100], show(total, 3)[:100]), at=r.name)
                continue
            if not good:
                R.unk(rule, what, show(u, 3)[:150])
                continue
            num = G.simp(num, c)
            if num.vn in n:
                R.ok(rule, what, show(u, 3)[:150])
            elif strip(num).op in ('fn', 'bin', 'field', 'param', 'const'):
                R.bad(rule, what, 'counts %s, not the matched pairs' %
                      show(num, 3)[:150], at=r.name)
            else:
                R.unk(rule, what, show(u, 3)[:150])
        elif u.op == 'fn' and u.info in ('len', 'sum') or isconst(u):
            R.bad(rule, what, 'is %s' % show(u, 3)[:150], at=r.name)
        else:
            R.unk(rule, what, show(u, 3)[:150])


def together(pc, first, *rest):
    """Alternatives of the first value in every case of the others."""
    cs = [pc]
    for v in rest:
        cs = [d for c in cs for d, l in G.leaves(v, c) if G.sat(d)]
    for c in cs:
        for d, l in G.leaves(first, c):
            if G.sat(d):
                yield d, l


def direct(an, R):
    """match_peaks and manual_refit."""
    for what, r, res, n in fits(an):
        if res != 'residuals':
            continue
        some = False
        for st, v in r.exits:
            A = {a: attr(r, st, a) for a in names(res, n)}
            k = ('o', r.self.vn, 'residuals')
            if same(A['residuals'], r.it.initial(k)):
                continue
            some = True
            for c, E in together(st.pc, A['residuals'],
                                 A['matched_peaks'], A['matched_atlas']):
                B = {a: G.simp(x, c) for a, x in A.items()}
                residuals(R, r, 'residuals of ' + what, B['fit_coeff'],
                          B['matched_peaks'], B['matched_atlas'],
                          G.simp(E, c), c)
                for d, q in G.leaves(B['rms'], c):
                    if G.sat(d):
                        rms(R, r, 'rms of ' + what, G.simp(E, d),
                            B['matched_peaks'], B['matched_atlas'], q)
            if n == 7:
                L = {r.it.fn('len', [strip(G.simp(A[a], st.pc))], (),
                             st).vn for a in ('matched_peaks',
                                              'matched_atlas')}
                for a, of in (('peak_utilisation', 'peaks'),
                              ('atlas_utilisation', 'atlas')):
                    fraction(R, r, st, '%s of %s' % (a, what), A[a], L, of,
                             st.pc)
        if not some:
            R.unk('residuals', 'residuals of ' + what, 'never stored')


def iterated(an, R):
    """fit: the values a trial replaces describe that trial."""
    for lab, ft, bf, r, ways in configs(an):
        what = 'Calibrator.fit (%s)' % lab
        if r.end is None:
            R.unk('residuals', what, 'no result')
            continue
        V = {a: r.final(a) for a in VALS}
        # the number of pairs behind the two fractions
        for a, of in (('peak_utilisation', 'peaks'),
                      ('atlas_utilisation', 'atlas')):
            total = r.it.fn('len', [r.final(of)], (), r.end)
            for i, (c, u) in enumerate(G.leaves(r.final(a), r.end.pc)):
                u = strip(u)
                w = '%s of %s' % (a, what)
                if u.op == 'bin' and u.info == '/':
                    den = G.simp(u.args[1], c)
                    if den.vn == G.simp(total, c).vn:
                        R.ok('utilisation', w, show(u, 3)[:150])
                        V['%s.%d' % (a, i)] = u.args[0]
                    elif strip(den).op in ('fn', 'const', 'field', 'param'):
                        R.bad('utilisation', w, 'is relative to %s, not to '
                              '%s' % (show(den, 3)[:100],
                                      show(total, 3)[:100]), at=r.name)
                    else:
                        R.unk('utilisation', w, show(u, 3)[:150])
                elif u.op == 'fn' or isconst(u) or u.op == 'mu':
                    R.bad('utilisation', w, 'is %s' % show(u, 3)[:150],
                          at=r.name)
                else:
                    R.unk('utilisation', w, show(u, 3)[:150])
        final(R, r, what, V)
        ways = outs(r, V)
        if not ways:
            R.unk('residuals', what, 'no accepted trial found')
            continue
        seen = 0
        for o in ways:
            w = '%s, %s of the loop body' % (what, o.kind)
            part(R, r, o, w, V)
            g = o.vals.get
            C, MP, MA = g('fit_coeff'), g('matched_peaks'), \
                g('matched_atlas')
            if C is None or MP is None or MA is None:
                continue
            seen += 1
            s = lambda x: G.simp(x, o.pc)
            C, MP, MA = s(C), s(MP), s(MA)
            if g('residual') is not None:
                residuals(R, r, 'residuals of ' + w, C, MP, MA,
                          s(g('residual')), o.pc)
                if g('rms') is not None:
                    rms(R, r, 'rms of ' + w, s(g('residual')), MP, MA,
                        s(g('rms')))
            L = {r.it.fn('len', [strip(x)], (), None).vn for x in (MP, MA)}
            for k, v in o.vals.items():
                if '.' not in k or v is None:
                    continue
                v = s(v)
                u = '%s of %s' % (k.split('.')[0], w)
                if v.vn in L:
                    R.ok('utilisation', u, show(v, 3)[:150])
                elif v.op in ('fn', 'const', 'bin'):
                    R.bad('utilisation', u, 'counts %s, not the matched '
                          'pairs' % show(v, 3)[:150], at=r.name)
                else:
                    R.unk('utilisation', u, show(v, 3)[:150])
        if not seen:
            R.unk('residuals', what, 'no accepted trial found')


def final(R, r, what, V):
    """Nothing is changed after the search."""
    for a, v in V.items():
        for c, l in G.leaves(v, r.end.pc):
            if not G.sat(c):
                continue
            l = strip(l)
            deps = closure(l, gates=False)
            if l.op == 'sub' and l.args[1].op == 'slice' and any(
                    isconst(y) and y.info == -1 for y in l.args[1].args[2:]):
                R.bad('unchanged', '%s: %s' % (what, a.split('.')[0]),
                      'is reversed after the search: %s' % show(l, 3)[:150],
                      at=r.name)
            elif not any(x.op == 'mu' for x in deps) and (
                    l.op == 'field' or isconst(l)) and len(
                        list(G.leaves(v, r.end.pc))) == 1:
                R.bad('together', '%s: %s' % (what, a.split('.')[0]),
                      'is never replaced by that of the solution: %s' %
                      show(l, 3)[:150], at=r.name)
            if l.op in ('bin', 'un') and any(
                    x.op == 'mu' for x in closure(l, stop=lambda y: y.op in (
                        'mu', 'fn', 'call', 'collect'))):
                R.bad('unchanged', '%s: %s' % (what, a.split('.')[0]),
                      'is changed after the search: %s' % show(l, 3)[:150],
                      at=r.name)


def part(R, r, o, w, V):
    """All values are replaced together."""
    have = [k for k, v in o.vals.items() if v is not None]
    lack = [k for k in V if k in o.vals and o.vals[k] is None]
    gone = [k for k in V if k not in o.vals]
    if lack and have:
        R.bad('together', w, '%s replaced but not %s' % (
            ', '.join(sorted({k.split('.')[0] for k in have})),
            ', '.join(sorted({k.split('.')[0] for k in lack}))),
            at=o.loop.fn)
    elif gone:
        R.unk('together', w, 'not followed: %s' % ', '.join(gone))
    else:
        R.ok('together', w)


RULES = [returned, direct, iterated]
