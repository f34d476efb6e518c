"""C31: candidate matches are near their guide, weighted by their own
distance, and the best supported ones are kept; an index is only applied to
the rows it was computed from."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..grid import Grid
from ..interp import fullslice
from ..lines import walk, facts, stepkind
from ..linear import entails
from ..q import closure, runs
from ..ratform import Rat
from ..rows import row, cells
from ..solve import FIT
from ..spaces import Spaces, told, root, VALS


def done(r):
    """The Hough transform has been done before the fit."""
    pc = TRUE
    for a in ('hough_lines', 'hough_points', 'pairs'):
        pc = G.b.AND(pc, G.b.NOT(G.isnone(r.init(a))))
    return G.b.AND(pc, G.b.NOT(G.eq(r.it.fn(
        'len', [r.init('pairs')], (), None), G.const(0))))


def fits(an):
    """Fits of a calibrator whose Hough transform is ready."""
    for ft in FIT:
        for given in (False, True):
            bind = {'fit_type': G.const(ft), 'brute_force': G.const(False)}
            if not given:
                bind['fit_coeff'] = G.const(None)
            r = an.method('Calibrator', 'fit', bind=bind, pre=done)
            yield '%s%s' % (ft, ', from a guess' if given else ''), ft, r


class Values(Grid):
    """Polynomials are evaluated row by row."""

    def _at(self, n, j, d):
        if n.op == 'call' and n.info in VALS:
            return G.raw('call', (self.at(n.args[0], j, d + 1),) +
                         tuple(n.args[1:]), n.info, kw=n.kw)
        return Grid._at(self, n, j, d)

    def _isarr(self, n):
        if n.op == 'call' and n.info in VALS:
            return self.isarr(n.args[0])
        return Grid._isarr(self, n)


def elements(r):
    """(condition, row of the candidate list, loop) for every way."""
    v = r.final('candidates')
    if v is None:
        return
    pc = r.end.pc
    for c, l in G.leaves(G.simp(v, pc), pc):
        if G.sat(c):
            yield c, strip(l)


def reordered(x):
    x = strip(x)
    return x.op == 'sub' and strip(x.args[0]).op == 'fn' and strip(
        x.args[0]).info in ('sort', 'unique')


def rat():
    return Rat(lambda x: x.vn if x.op not in ('bin', 'un', 'const', 'wrap')
               else None)


def equal(x, y):
    """x = y, or x = -y (2), or neither (0), or unknown (None)."""
    q = rat()
    try:
        a, b = q.rat(x), q.rat(y)
    except Exception:
        return None
    if q.equal(a, b):
        return 1
    if q.equal(a, ({m: -c % ((1 << 61) - 1) for m, c in b[0].items()},
                   b[1])):
        return 2
    return 0


def reads(n, base=None):
    """Row indices of the pairs a scalar expression reads."""
    return {j.vn: j for c, b, j, k in cells(n)
            if base is None or strip(b).vn == base}


def members(an, R):
    seen = set()
    for lab, ft, r in fits(an):
        if r.end is None:
            continue
        for c, l in elements(r):
            key = (ft, l.vn, lab.endswith('guess'))
            if key in seen:
                continue
            seen.add(key)
            what = 'candidates of Calibrator.fit (%s)' % lab
            if l.op == 'list' and not l.args:
                continue
            if l.op != 'collect':
                R.unk('candidate', what, show(l, 3)[:200])
                continue
            c = G.b.AND(c, TRUE)
            el = strip(G.simp(l.args[0], c))
            if el.op not in ('list', 'tuple') or len(el.args) != 3:
                R.unk('candidate', what, show(el, 3)[:200])
                continue
            W = Values(r)
            P, A, w = [G.simp(W.at(G.simp(x, c), row()), c)
                       for x in el.args]
            cp, ca = cells(P), cells(A)
            if len(cp) != 1 or len(ca) != 1:
                R.unk('candidate', what, '%s / %s' % (show(P, 3)[:150],
                                                      show(A, 3)[:150]))
                continue
            (_, bp, jp, kp), (_, ba, ja, ka) = cp[0], ca[0]
            lone = [m for m in ((P, A), (A, P)) if reordered(m[0]) and
                    not reordered(m[1]) and strip(m[1]).op == 'sub']
            if lone:
                R.bad('own-line', what, '%s is reordered on its own, apart '
                      'from %s' % (show(lone[0][0], 3)[:120],
                                   show(lone[0][1], 3)[:120]),
                      at=getattr(l.info, 'fn', r.name))
                continue
            if kp is None or ka is None or not isconst(kp) or \
                    not isconst(ka) or strip(bp).vn != strip(ba).vn or \
                    not str(strip(bp).info).endswith('pairs'):
                R.unk('candidate', what, '%s / %s' % (show(P, 3)[:150],
                                                      show(A, 3)[:150]))
                continue
            at = l.info.fn if hasattr(l.info, 'fn') else r.name
            if (kp.info, ka.info) != (0, 1):
                R.bad('columns', what, 'the candidate pixels are column %s '
                      'and its wavelengths column %s of the pairs' % (
                          kp.info, ka.info), at=at)
                continue
            if jp.vn != ja.vn:
                R.bad('own-line', what, 'the pixels are rows %s, the '
                      'wavelengths rows %s of the pairs' % (
                          show(jp, 4)[:150], show(ja, 4)[:150]), at=at)
                continue
            R.ok('own-line', what, 'one selection of both columns')
            near(R, r, W, what, c, P, A, w, jp, strip(bp).vn, at)


def guides(ft, n, P, r):
    """Predicted wavelengths an expression mentions."""
    out = []
    xs = closure(n, gates=True)
    # a Hough line
    els = {}
    for x in xs:
        if x.op == 'sub' and isconst(x.args[1]) and x.args[1].info in (0, 1):
            y = x.args[0]
            z = y
            while z.op in ('sub', 'iterel', 'wrap'):
                z = z.args[0]
            if any(k.op == 'field' and k.info == 'hough_lines'
                   for k in closure(z)) and y.op in ('sub', 'iterel'):
                els.setdefault(y.vn, {})[x.args[1].info] = x
    for d in els.values():
        if len(d) == 2:
            out.append(('line', G.bin('+', G.bin('*', d[0], P), d[1])))
    for x in xs:
        if x.op == 'call' and str(x.info).endswith('val') and \
                len(x.args) >= 2 and strip(x.args[0]).vn == strip(P).vn:
            out.append(('guess', x))
    return out


def near(R, r, W, what, c, P, A, w, j, base, at):
    chain, _ = walk(W, j)
    f = facts(W, chain, c)
    tol = r.p('candidate_tolerance')
    gs = guides(None, G.bool(f), P, r)
    if not gs:
        R.unk('near-guide', what, G.bshow(f, 3)[:200])
        return
    dist = None
    for x in closure(G.bool(f)):
        if x.op == 'fn' and x.info == 'abs' and A.vn in {
                y.vn for y in closure(x, gates=False)}:
            dist = x
            break
    done = False
    for kind, g in gs:
        if kind == 'line':
            d = G.bin('-', g, A)
        else:
            # the guess may be shifted as a whole
            if dist is None:
                continue
            d = dist.args[0]
            shift = G.bin('+', G.bin('-', d, g), A)
            shift2 = G.bin('-', G.bin('+', d, g), A)
            ok = False
            for s in (shift, shift2):
                left = free(s, (A.vn, g.vn))
                if left:
                    ok = True
            if not ok:
                continue
        ok = dist is not None and equal(dist.args[0], d) or None
        if ok:
            test = G.b.NOT(G.lt(tol, dist))
            if entails(f, test):
                done = True
                R.ok('near-guide', what, '%s: |%s| within the tolerance' % (
                    kind, show(d, 4)[:120]))
                weight(R, what, A, g, dist.args[0], w, j, base, at)
                break
            R.bad('near-guide', what, 'a candidate may be further than '
                  'candidate_tolerance from the %s: %s' % (
                      kind, G.bshow(f, 2)[:300]), at=at)
            done = True
            break
    if done:
        return
    if dist is not None and all(equal(dist.args[0], G.bin('-', g, A)) == 0
                                for k, g in gs if k == 'line') and any(
                                    k == 'line' for k, _ in gs):
        R.bad('near-guide', what, 'the distance %s is not that between the '
              'line and the prediction' % show(dist.args[0], 5)[:250],
              at=at)
    elif dist is None and any(k == 'line' for k, g in gs) and plain(
            W, chain):
        if not both(R, what, f, gs, A, tol, w, j, base, at, True):
            R.bad('near-guide', what, 'a candidate may be further than '
                  'candidate_tolerance from the line: %s' % ' and '.join(
                      show(s, 6)[:150] for s, _ in chain), at=at)
    else:
        both(R, what, f, gs, A, tol, w, j, base, at)


def plain(W, chain):
    """Only masks that are comparisons of plain arithmetic."""
    for s, j in chain:
        if stepkind(s) != 'mask':
            return False
        for x in closure(W.at(s, j),
                stop=lambda y: y.op in ('sub', 'field', 'param')):
            if x.op not in ('bool', 'bin', 'un', 'const', 'sub', 'field',
                            'param', 'wrap', 'phi') and not (
                                x.op == 'fn' and x.info in (
                                    'abs', 'minimum', 'maximum')):
                return False
    return True


def both(R, what, f, gs, A, tol, w, j, base, at, quiet=False):
    """Written as two comparisons."""
    for kind, g in gs:
        if kind != 'line':
            continue
        d = G.bin('-', g, A)
        if entails(f, G.b.NOT(G.lt(tol, d))) and entails(
                f, G.b.NOT(G.lt(tol, G.un('-', d)))):
            R.ok('near-guide', what, 'both sides within the tolerance')
            weight(R, what, A, g, d, w, j, base, at)
            return True
    if not quiet:
        R.unk('near-guide', what, G.bshow(f, 3)[:200])
    return False


def free(n, vns):
    """The formula does not depend on these values once simplified."""
    q = rat()
    try:
        p, d = q.rat(n)
    except Exception:
        return False
    keys = {k for m in p for k, e in m} | {k for m in d for k, e in m}
    return not keys & set(vns)


def weight(R, what, A, g, d, w, j, base, at):
    """A decreasing function of the candidate's own distance."""
    rows = reads(w, base)
    other = [x for v, x in rows.items() if v != j.vn]
    if other:
        R.bad('own-weight', what, 'the weight reads rows %s, the candidate '
              'is row %s' % (show(other[0], 4)[:150], show(j, 4)[:150]),
              at=at)
        return
    exps = [x for x in closure(w, gates=False)
            if x.op == 'fn' and x.info == 'exp']
    if len(exps) != 1:
        if w.op == 'const':
            R.bad('own-weight', what, 'the weight is constant', at=at)
        else:
            R.unk('own-weight', what, show(w, 4)[:200])
        return
    q = Rat(lambda x: None if x.op in ('bin', 'un', 'const', 'wrap')
            else x.vn)
    try:
        num, den = q.rat(exps[0].args[0])
        dn, dd = q.rat(d)
        sq = q.rpow((dn, dd), 2)
    except Exception:
        R.unk('own-weight', what, show(w, 4)[:200])
        return
    # num/den = -k * d^2 with k not reading the candidate: compare at a
    # shifted candidate by polynomial division of leading terms
    rowkeys = {m for x in (A, g) for m in keysof(q, x)}
    if {k for m in den for k, e in m} & rowkeys:
        R.unk('own-weight', what, 'width depends on the candidate')
        return
    k = ratio(q, num, sq)
    if k is None:
        R.bad('own-weight', what, 'the exponent %s is not a multiple of '
              'the squared distance %s' % (
                  show(exps[0].args[0], 6)[:200], show(d, 4)[:100]), at=at)
        return
    if k < (1 << 60):
        R.bad('own-weight', what, 'the weight grows with the distance from '
              'the prediction', at=at)
        return
    R.ok('own-weight', what, 'falls with the squared distance')


def keysof(q, x):
    p, d = q.rat(x)
    return {k for m in p for k, e in m}


def ratio(q, num, sq):
    """The constant k with num = k * sq, or None."""
    sn, sd = sq
    left = q.mul(num, sd)
    if set(left) != set(sn):
        return None
    k = None
    P = (1 << 61) - 1
    for m, c in sn.items():
        v = left[m] * pow(c, -1, P) % P
        if k is None:
            k = v
        elif k != v:
            return None
    return k


# ---- pooled candidates ------------------------------------------------------
def topn(r, x, top):
    """x = base[order][:n]: (base, key array, descending?, n), else None."""
    x = strip(x)
    if x.op != 'sub':
        return None
    # flatten the steps of the selection, first applied first
    steps = []

    def index(i):
        i = strip(i)
        if i.op == 'sub' and i.args[1].op == 'slice':
            index(i.args[0])
            steps.append(i.args[1])
        elif i.op == 'fn' and i.info in ('reversed', 'flip'):
            index(i.args[0])
            steps.append('rev')
        else:
            steps.append(i)

    def go(n):
        s = strip(n)
        if s.op == 'sub' and not isconst(s.args[1]):
            b = go(s.args[0])
            if s.args[1].op == 'slice':
                steps.append(s.args[1])
            else:
                index(s.args[1])
            return b
        if s.op == 'fn' and s.info in ('reversed', 'flip') and s.args:
            b = go(s.args[0])
            steps.append('rev')
            return b
        return n

    base = go(x)
    order = [i for i, s in enumerate(steps) if s != 'rev' and
             s.op == 'fn' and s.info == 'argsort']
    if len(order) != 1:
        return None
    k = order[0]
    key = steps[k].args[0]
    for s in steps[:k]:
        if s == 'rev':
            return None
        base = G.raw('sub', (base, s))
    desc, n, last = False, None, False
    s = strip(key)
    if s.op == 'un' and s.info == '-':
        desc, key = True, s.args[0]
    elif s.op == 'bin' and s.info == '*' and any(
            isconst(a) and a.info == -1 for a in s.args):
        desc = True
        key = [a for a in s.args if not (isconst(a) and a.info == -1)][0]
    for s in steps[k + 1:]:
        if s == 'rev':
            desc = not desc
            if n is not None:
                last = not last
            continue
        if s.op != 'slice':
            return None
        lo, hi, st = s.args
        cs = [y.info if isconst(y) else '?' for y in s.args]
        if cs == [None, None, -1]:
            desc = not desc
            if n is not None:
                last = not last
        elif cs[0] in (None, 0) and cs[2] in (None, 1):
            if n is not None:
                return None
            n, last = hi, False
        elif cs[1] is None and cs[2] in (None, 1) and lo.op == 'un':
            if n is not None:
                return None
            n, last = lo.args[0], True
        else:
            return None
    if n is None or not any(y.vn == top.vn for y in closure(n)):
        return None
    # keeping the last of an ascending order keeps the largest
    return base, key, desc != last, n


def column(x, r=None):
    """collectcat of one column of the candidates: (source, column)."""
    x = strip(x)
    if x.op == 'collectcat':
        i = getattr(x.info, 'iota', None)
        if r is not None and i is not None:
            el = r.it.index(x.args[1], i)
            for k in range(3):
                if r.it.index(el, G.const(k)).vn == x.args[0].vn:
                    return x.args[1].vn, k, x.args[2].vn
        y = strip(x.args[0])
        k = 0
        while y.op == 'sub' and not isconst(y.args[1]):
            y = strip(y.args[0])
            k += 1
        if y.op == 'sub' and isconst(y.args[1]):
            return x.args[1].vn, y.args[1].info, x.args[2].vn
    return None


def masked(x):
    x = strip(x)
    if x.op == 'sub':
        return strip(x.args[0]), x.args[1]
    return None


def eqatom(m):
    """The two sides of an equality mask."""
    m = strip(m)
    if m.op != 'bool':
        return None
    vs = list(G.b.support(m.info))
    if len(vs) != 1:
        return None
    pred, nodes, info, vns = G.atoms[vs[0]]
    if pred not in ('eq', '==') or m.info != G.b.var(vs[0]):
        return None
    return nodes


def tops(an):
    """[(what, run, top_n value, weighted value, roots)]"""
    for lab, ft, r in fits(an):
        if r.end is None:
            continue
        pc = r.end.pc
        out = [G.simp(r.final(a), pc) for a in ('candidate_arc',)
               if r.final(a) is not None]
        pk = r.final('candidate_peak')
        yield ('Calibrator.fit (%s)' % lab, r, r.init('top_n_candidate'),
               r.init('candidate_weighted'), out,
               G.simp(pk, pc) if pk is not None else None, pc)
    for f, r in runs(an, lambda f: f.name == 'plot_search_space'):
        out = []
        for e in r.events:
            if e.kind in ('call', 'mcall'):
                for x in list(e.b or ()) + [v for _, v in e.c or ()]:
                    if hasattr(x, 'op'):
                        out.append(x)
        yield (f.full, r, r.p('top_n_candidate'), r.p('weighted'), out,
               None, r.end.pc)


RED = {'max', 'min', 'mean', 'median', 'prod', 'std', 'len', 'nanmax',
       'nanmean', 'ptp'}


def ranked(an, R):
    for what, r, top, wt, outs, peaks, pc in tops(an):
        found = {}
        for o in outs:
            for x in closure(o, gates=False):
                if x.op == 'sub':
                    t = topn(r, x, top)
                    if t is not None:
                        found[x.vn] = t
        # the longest selection is the whole one
        best = {}
        for t in found.values():
            best.setdefault((t[1].vn, t[3].vn), []).append(t)
        if not best:
            R.unk('ranking', what, 'no selection of the top candidates '
                  'recognised')
            continue
        for ts in best.values():
            for base, key, largest, n in ts:
                rank(an, R, what, r, top, wt, base, key, largest, n, pc,
                     peaks)


def rank(an, R, what, r, top, wt, base, key, largest, n, pc, peaks):
    at = r.name
    for e in r.events:
        if e.kind == 'subscript' and strip(e.a).vn == strip(base).vn:
            at = '%s (%s:%s)' % (r.name, R.path(e.fn), e.line)
    if not largest:
        R.bad('best-first', what, 'the candidates with the least support '
              'are kept', at=at)
    else:
        R.ok('best-first', what, 'largest support first')
    k = strip(key)
    if k.op == 'sub' and isconst(k.args[1]) and strip(
            k.args[0]).op == 'fn' and strip(k.args[0]).info == 'unique':
        k = strip(k.args[0])
    if k.op != 'collect':
        R.unk('support', what, show(k, 3)[:200])
        return
    src = strip(k.args[1])
    while src.op == 'fn' and src.info == 'enumerate' or (
            src.op == 'fn' and src.info == 'range' and
            strip(src.args[-1]).op == 'fn' and
            strip(src.args[-1]).info == 'len'):
        src = strip(src.args[-1] if src.info == 'enumerate'
                    else strip(src.args[-1]).args[0])
    if src.op != 'fn' or src.info != 'unique':
        R.unk('support', what, 'groups %s' % show(src, 3)[:200])
        return
    Wl = strip(src.args[0])
    # the ranked list must have the rows of the ranking
    b = strip(base)
    if b.op == 'fn' and b.info == 'unique' and strip(b.args[0]).vn == Wl.vn \
            or b.vn == src.vn:
        R.ok('rank-rows', what, 'distinct lines, ranked by their support')
    elif b.vn == Wl.vn:
        R.bad('rank-rows', 'all matches of a peak indexed by the ranking of '
              'its distinct lines', 'position k of the ranking is the k-th '
              'distinct line %s, but it is used as the k-th match of %s'
              % (show(src, 2)[:80], show(b, 2)[:80]), at=at)
    else:
        S = Spaces(r)
        s, t = S.space(base), S.space(src)
        cb = column(masked(b)[0], r) if masked(b) else None
        if cb is not None and cb[1] != 1:
            R.bad('rank-rows', 'column %s of the candidates is kept'
                  % cb[1], 'ranking of the lines applied to %s' % show(
                      b, 3)[:150], at=at)
        elif s is not None and s == t:
            R.ok('rank-rows', what, told(s))
        else:
            R.unk('rank-rows', what, '%s / %s' % (told(s), told(t)))
    count(R, what, top, n, src, at)
    # support of one line
    for flag in (True, False):
        w = G.truth(wt)
        c = G.b.AND(pc, w if flag else G.b.NOT(w))
        if not G.sat(c):
            continue
        one(R, what, r, G.simp(k.args[0], c), Wl, src, flag, c, at)
    if peaks is not None:
        repeated(R, what, peaks, n, top, src, at)


def least(l, top):
    l = strip(l)
    return l.op == 'fn' and l.info in ('minimum', 'min') and any(
        strip(v).vn == top.vn for v in l.args)


def count(R, what, top, n, src, at):
    """At most top_n."""
    x = strip(n)
    while x.op == 'fn' and x.info in ('int',) and len(x.args) == 1:
        x = strip(x.args[0])
    if x.vn == top.vn:
        R.ok('at-most-n', what, 'top_n_candidate')
        return
    if x.op == 'fn' and x.info in ('minimum', 'min'):
        vs = x.args
        if len(vs) == 1 and strip(vs[0]).op in ('list', 'tuple'):
            vs = strip(vs[0]).args
        for v in vs:
            v = strip(v)
            while v.op == 'fn' and v.info == 'int' and len(v.args) == 1:
                v = strip(v.args[0])
            if v.vn == top.vn:
                R.ok('at-most-n', what, 'no more than top_n_candidate')
                return
    if x.op == 'phi':
        if all(G.implies(c, G.cmp('<=', l, top)) or
               strip(l).vn == top.vn or least(l, top)
               for c, l in G.leaves(x, TRUE) if G.sat(c)):
            R.ok('at-most-n', what, 'no more than top_n_candidate')
        else:
            R.unk('at-most-n', what, show(x, 3)[:150])
        return
    ops = {y.op for y in closure(x, stop=lambda y: y.vn in (
        top.vn, src.vn), gates=False)}
    if ops <= {'bin', 'un', 'const', 'fn', 'field', 'param', 'wrap', 'obj',
               'sub', 'collectcat', 'bool', 'iota'}:
        R.bad('at-most-n', what, '%s candidates are kept' % show(x, 4)[:150],
              at=at)
    else:
        R.unk('at-most-n', what, show(x, 3)[:150])


def one(R, what, r, body, Wl, src, flag, c, at):
    word = 'weighted' if flag else 'unweighted'
    tag = '%s, %s' % (what, word)
    x = strip(body)
    if x.op == 'fn' and x.info in ('len', 'count_nonzero') and not flag:
        m = strip(x.args[0])
        group(R, tag, m.args[1] if m.op == 'sub' else m, Wl, src, at)
        return
    if x.op == 'fn' and x.info == 'sum' and strip(x.args[0]).op == 'bool':
        if flag:
            R.bad('support', tag, 'the weights are ignored: every match '
                  'counts the same', at=at)
        else:
            group(R, tag, strip(x.args[0]), Wl, src, at)
        return
    if x.op == 'fn' and x.info in RED:
        R.bad('support', tag, 'the support of a line is the %s of its '
              'matches, not their sum' % x.info, at=at)
        return
    if x.op != 'fn' or x.info not in ('sum', 'nansum'):
        R.unk('support', tag, show(x, 3)[:200])
        return
    mc = masked(x.args[0])
    if mc is None:
        R.unk('support', tag, show(x, 3)[:200])
        return
    C, m = mc
    C = strip(G.simp(C, c))
    if not group(R, tag, m, Wl, src, at):
        return
    ones = C.op == 'fn' and C.info in ('ones_like', 'ones')
    if flag:
        if ones:
            R.bad('support', tag, 'the weights are ignored: every match '
                  'counts the same', at=at)
            return
        cw, ww = masked(C), masked(Wl)
        if cw is None and ww is not None and column(C, r) is not None:
            R.bad('support', tag, 'a mask over the matches of one peak is '
                  'applied to the weights of all peaks', at=at)
            return
        if cw is None or ww is None:
            R.unk('support', tag, show(C, 3)[:200])
            return
        if cw[1].vn != ww[1].vn:
            R.bad('support', tag, 'weights of rows %s are summed for lines '
                  'of rows %s' % (show(cw[1], 3)[:120],
                                  show(ww[1], 3)[:120]), at=at)
            return
        a, b = column(cw[0], r), column(ww[0], r)
        if a is None or b is None:
            R.unk('support', tag, '%s / %s' % (show(cw[0], 2)[:100],
                                               show(ww[0], 2)[:100]))
        elif a[0] != b[0] or a[2] != b[2]:
            R.unk('support', tag, 'pooled differently')
        elif (b[1], a[1]) != (1, 2):
            R.bad('support', tag, 'column %s is summed for the lines in '
                  'column %s' % (a[1], b[1]), at=at)
        else:
            e = eqatom(ww[1])
            if e is None:
                R.unk('own-peak', tag, show(ww[1], 3)[:150])
            else:
                cs = [column(strip(y), r) for y in e]
                hit = [y for y in cs if y is not None]
                if len(hit) == 1 and hit[0][0] == b[0] and hit[0][2] == b[2]:
                    if hit[0][1] == 0:
                        R.ok('own-peak', tag, 'matches of one peak')
                    else:
                        R.bad('own-peak', tag, 'matches are grouped by '
                              'column %s' % hit[0][1], at=at)
                else:
                    R.unk('own-peak', tag, show(ww[1], 3)[:150])
            R.ok('support', tag, 'sum of the weights of the same matches')
    elif ones:
        R.ok('support', tag, 'number of matches')
    elif masked(C) is not None and column(masked(C)[0], r) is not None:
        R.bad('support', tag, 'the support is weighted although weighting '
              'is off', at=at)
    else:
        R.unk('support', tag, show(C, 3)[:150])


def group(R, tag, m, Wl, src, at):
    """The mask selects the matches of one distinct line."""
    e = eqatom(m)
    if e is None:
        R.unk('same-line', tag, show(m, 3)[:150])
        return False
    sides = [strip(y) for y in e]
    col = [y for y in sides if y.vn == Wl.vn]
    el = [y for y in sides if y.op in ('sub', 'iterel') and
          strip(y.args[0]).vn == src.vn]
    if col and el:
        R.ok('same-line', tag, 'matches equal to the distinct line')
        return True
    R.unk('same-line', tag, '%s == %s' % tuple(show(y, 3)[:90]
                                               for y in sides[:2]))
    return False


def repeated(R, what, peaks, n, top, src, at):
    """The peak is repeated once for each line kept."""
    p = strip(peaks)
    if p.op != 'collectcat':
        R.unk('one-peak-each', what, show(p, 2)[:150])
        return
    x = strip(p.args[0])
    num = None
    if x.op == 'listrep':
        num = x.args[1]
    elif x.op == 'fn' and x.info in ('full', 'repeat'):
        num = x.args[0] if x.info == 'full' else x.args[1]
    if num is None:
        R.unk('one-peak-each', what, show(x, 2)[:150])
        return
    if strip(num).vn == strip(n).vn:
        R.ok('one-peak-each', what, 'as many peaks as lines kept')
        return
    m = strip(num)
    if m.op == 'fn' and m.info == 'len' and m.args:
        R.ok('one-peak-each', what, 'repeated len(kept) times')
        return
    R.bad('one-peak-each', what, 'the peak is repeated %s times for %s '
          'lines' % (show(num, 3)[:100], show(n, 3)[:100]), at=at)


# ---- every index ------------------------------------------------------------
def arrayish(r):
    out = set()
    for e in r.events:
        if e.kind == 'subscript':
            out.add(strip(e.a).vn)
    for L in r.it.allloops:
        if getattr(L, 'iter', None) is not None:
            out.add(strip(L.iter).vn)
    return out


def indices(an, R):
    same = other = 0
    for f, r in runs(an):
        S = Spaces(r)
        arr = arrayish(r)
        for e in r.events:
            if e.kind != 'subscript' or not G.sat(e.pc):
                continue
            x, i = G.simp(e.a, e.pc), r.it.normidx(G.simp(e.b, e.pc))
            t, s = S.target(i), S.space(x)
            if t is None or s is None:
                other += 1
                continue
            if t == s:
                same += 1
                R.ok('index-rows', '%s in %s' % (told(s)[:100], e.fn),
                     'line %s' % e.line)
                continue
            if unlike(r, t, s, arr):
                R.bad('index-rows', 'index of %s used on %s' % (
                    told(t)[:100], told(s)[:100]),
                    'the index counts the rows of %s but is applied to %s'
                    % (told(t)[:150], told(s)[:150]), e)
            else:
                other += 1
    R.ok('index-sites', 'package', '%d with proven equal rows, %d without '
         'claim' % (same, other))


def unlike(r, t, s, arr):
    """Same origin, but selected or reordered differently."""
    a, b = root(t), root(s)
    if not a or not b:
        return False
    for x in (a, b):
        if x[0] == 'base' and x[1] not in arr:
            return False
    if a == b:
        return selects(t, s) or selects(s, t)
    # distinct values against all values of the same list
    for x, y in ((t, s), (s, t)):
        if x[0] == 'uniq':
            n = G.vn_node.get(x[1])
            if n is not None and Spaces(r).space(n) == y:
                return True
    return False


def selects(t, s):
    """t is a strict selection of the very rows s."""
    while t and t[0] in ('sel', 'del', 'ins', 'rev', 'sort'):
        t = t[1]
        if t == s:
            return True
    return False


RULES = [members, ranked, indices]
