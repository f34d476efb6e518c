"""C32: the peaks of a trial are different, enough, and each has a weight."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..interp import Interp
from ..linear import about, implies, sat, split
from ..q import closure
from ..solve import configs, trials

BINS = 5


def bare(x):
    x = strip(x)
    while x.op == 'fn' and x.info in ('copy', 'array', 'ravel', 'flatten',
                                      'sort', 'asarray') and x.args:
        x = strip(x.args[0])
    return x


def draws(an, R):
    for lab, ft, bf, r, ways in configs(an):
        if bf:
            continue
        what = 'Calibrator.fit (%s)' % lab
        X = {}
        for o in ways or ():
            for t in trials(o, ft):
                for x in closure(t.args[0]):
                    if x.op == 'rnd':
                        X[x.vn] = x
        n = 0
        for e in r.events:
            if e.kind not in ('call', 'mcall') or e.res is None or \
                    e.res.vn not in X:
                continue
            d = Draw(e.res)
            if d.size is None:
                continue
            n += 1
            one(R, r, e, what, d)
        if not n:
            R.unk('drawn-peaks', what, 'no draw of several peaks found')


class Draw:
    """Arguments of one draw without regard to how it is written."""

    def __init__(self, n):
        kw = dict(n.kw or ())
        a = list(n.args)
        self.name = str(n.info).split('.')[-1]
        if self.name == 'choice':
            names = ('a', 'size', 'replace', 'p')
            if 'random.choice' == n.info:
                names = ('a',)
            if 'shuffle' in kw or 'axis' in kw:
                kw.pop('shuffle', None)
        elif self.name in ('sample', 'choices'):
            names = ('a', 'size') if self.name == 'sample' else (
                'a', 'weights')
        else:
            names = ('a',)
        for k, x in zip(names, a):
            kw[k] = x
        self.pool = kw.get('a') or kw.get('population')
        self.size = kw.get('size') or kw.get('k')
        self.p = kw.get('p')
        rep = kw.get('replace')
        if self.name == 'sample':
            self.rep = False
        elif self.name == 'choices':
            self.rep = True
        elif self.name == 'choice':
            self.rep = True if rep is None else (
                bool(rep.info) if isconst(rep) else None)
        else:
            self.rep = None
        if self.size is not None and isconst(self.size) and \
                self.size.info is None:
            self.size = None
        if self.p is not None and isconst(self.p) and self.p.info is None:
            self.p = None


def one(R, r, e, what, d):
    if d.pool is None:
        R.unk('drawn-peaks', what, show(e.res, 2))
        return
    # different peaks
    if d.rep is True:
        R.bad('different-peaks', what, 'the same peak can be drawn more than '
              'once into a trial', e)
    elif d.rep is None:
        R.unk('different-peaks', what, show(e.res, 2))
    else:
        pool = [l for _, l in G.leaves(bare(d.pool), e.pc)]
        if all(bare(l).op == 'fn' and bare(l).info == 'unique' or
               isnumber(l) for l in pool):
            R.ok('different-peaks', what, show(d.pool, 2)[:120])
        else:
            R.unk('different-peaks', what, 'pool: %s' % show(d.pool, 3)[:120])
    # no more than there are
    n = r.it.fn('len', [d.pool], (), None)
    enough(R, e, what, d, n)
    if d.p is not None:
        for c, p in G.leaves(strip(d.p), e.pc):
            if not (isconst(p) and p.info is None):
                weights(R, e, what, d, p)
    else:
        R.ok('weights', what, 'all peaks alike')


def isnumber(l):
    return G.num(l.vn) is not None or (
        strip(l).op == 'fn' and strip(l).info == 'len')


def enough(R, e, what, d, n):
    pool = bare(d.pool)
    forms = [n]
    b = G.b
    if pool.op == 'fn' and pool.info == 'unique' or pool.op == 'phi':
        forms.append(LEN(pool))
    pc = split(e.pc)
    if any(implies(e.pc, G.cmp('<=', d.size, f)) or implies(pc, split(
            G.cmp('<=', d.size, f))) for f in forms):
        R.ok('enough-peaks', what, '%s <= %s' % (
            show(d.size, 1)[:60], show(forms[-1], 2)[:60]))
        return
    # the number asked for does not depend on the peaks at all
    told = any(pool.vn == y.vn for v in b.support(e.pc)
               for a in G.atoms[v][1] for z in closure(a)
               if z.op == 'fn' and z.info == 'len'
               for y in [bare(z.args[0])])
    inside = any(pool.vn == bare(z.args[0]).vn for z in closure(d.size)
                 if z.op == 'fn' and z.info == 'len' and z.args)
    g = split(G.cmp('<=', d.size, forms[-1]))
    if not told and not inside:
        R.bad('enough-peaks', what, 'the number of peaks drawn is not '
              'compared with the number of peaks there are', e)
    elif sat(b.AND(pc, b.NOT(g))) and linear(pc, g):
        R.bad('enough-peaks', what, 'more peaks can be drawn than there are: '
              '%s' % G.bshow(b.NOT(g), 2)[:160], e)
    else:
        R.unk('enough-peaks', what, G.bshow(g, 2)[:160])


def linear(pc, g):
    """Are all the comparisons with the quantities of g plain linear ones?"""
    return all(G.atoms[v][0] == 'pos' for v in
               set(G.b.support(about(pc, g))) | set(G.b.support(g)))


def LEN(x):
    return Interp(None).fn('len', [x], (), None)


# ---- weights --------------------------------------------------------------
def weights(R, e, what, d, p):
    p = strip(p)
    num = p
    summed = False
    if p.op == 'bin' and p.info == '/':
        s = strip(p.args[1])
        if s.op == 'fn' and s.info == 'sum' and len(s.args) == 1:
            summed = True
            num = strip(p.args[0])
            if bare(s.args[0]).vn != bare(num).vn:
                R.bad('weights', what, 'are divided by the sum of something '
                      'else: %s' % show(s, 2)[:100], e)
                return
    if not summed:
        if p.op == 'bin' and p.info == '/' and hist(p.args[1]) is not None:
            R.bad('weights', what, 'do not add up to one: %s' % show(p, 3)[
                :120], e)
        else:
            R.unk('weights', what, show(p, 3)[:120])
        return
    den = None
    if num.op == 'bin' and num.info == '/' and isconst(num.args[0]) and \
            G.num(num.args[0].vn) is not None and G.num(num.args[0].vn) > 0:
        den = num.args[1]
    elif num.op == 'fn' and num.info == 'reciprocal':
        den = num.args[0]
    elif num.op == 'bin' and num.info == '**' and isconst(num.args[1]) and \
            num.args[1].info == -1:
        den = num.args[0]
    if den is None:
        R.unk('weights', what, show(num, 3)[:120])
        return
    if positive(den):
        R.ok('weights', what, 'one over a positive number')
        return
    h = hist(den)
    if h is None:
        R.unk('weights', what, 'one over %s' % show(den, 3)[:120])
        return
    H, idx = h
    if bare(H.args[0]).vn != bare(d.pool).vn:
        R.unk('weights', what, 'histogram of %s' % show(H.args[0], 2)[:80])
        return
    kw = dict(H.kw or ())
    if 'range' in kw or 'weights' in kw or 'density' in kw or \
            len(H.args) > 2:
        R.unk('weights', what, show(H, 2)[:120])
        return
    bins = H.args[1] if len(H.args) > 1 else kw.get('bins', G.const(10))
    nb = BINS
    if isconst(bins) and isinstance(bins.info, int) and not isinstance(
            bins.info, bool):
        nb = bins.info
    elif strip(bins).op in ('fn', 'list', 'sub') and not isconst(bins):
        R.unk('weights', what, 'bins %s' % show(bins, 2)[:80])
        return
    for case, x, want in cells(nb):
        try:
            got = Index(H, bare(d.pool), nb, x).num(idx)
        except Unsure as u:
            R.unk('weights', what, 'bin of a peak: %s' % u)
            return
        ok = isinstance(got, int) and -nb <= got < nb and got % nb == want
        if not ok:
            R.bad('weights', what, 'a peak %s is weighted with the count of '
                  '%s instead of its own, bin %d: it can be zero' % (
                      case, 'bin %d of %d' % (got % nb, nb)
                      if isinstance(got, int) and -nb <= got < nb
                      else 'no bin (%s)' % got, want), e)
            return
    R.ok('weights', what, 'every peak by the count of its own bin, %d cases'
         % (2 * nb + 1))


def positive(n, d=0):
    """At least a positive constant whatever the counts are."""
    n = strip(n)
    v = G.num(n.vn)
    if v is not None:
        return v > 0
    if d > 6:
        return False
    if n.op == 'fn' and n.info in ('maximum',) and len(n.args) == 2:
        return any(positive(a, d + 1) for a in n.args)
    if n.op == 'fn' and n.info == 'clip' and len(n.args) >= 2:
        return positive(n.args[1], d + 1)
    if n.op == 'bin' and n.info == '+':
        a, b = n.args
        return positive(a, d + 1) and (positive(b, d + 1) or hist(b)) or \
            positive(b, d + 1) and hist(a) is not None
    if n.op == 'sub':
        return positive(n.args[0], d + 1)
    return False


def hist(n):
    """(histogram, index) of counts looked up by an index array."""
    n = strip(n)
    if n.op == 'fn' and n.info == 'take' and len(n.args) == 2:
        x, i = n.args
    elif n.op == 'sub':
        x, i = n.args
    else:
        return None
    x = strip(x)
    if x.op == 'sub' and isconst(x.args[1]) and x.args[1].info == 0:
        H = strip(x.args[0])
        if H.op == 'fn' and H.info == 'histogram':
            return H, i
    return None


def cells(nb):
    """Where a value can lie: (text, rank, bin); edge i has rank 2 * i."""
    for k in range(nb):
        if k:
            yield 'on the edge of two bins', 2 * k, k
        else:
            yield 'at the first edge', 0, 0
        yield 'inside a bin', 2 * k + 1, k
    yield 'at the last edge', 2 * nb, nb - 1


class Unsure(Exception):
    pass


class Index:
    """The index of one peak, as a whole number."""

    def __init__(self, H, x, nb, rank):
        self.H, self.x, self.nb, self.rank = H, x, nb, rank

    def edges(self, n):
        n = strip(n)
        if n.op == 'sub':
            x, i = n.args
            if isconst(i) and i.info == 1 and not isinstance(i.info, slice) \
                    and strip(x).vn == self.H.vn:
                return [2 * k for k in range(self.nb + 1)]
            i = strip(i)
            if i.op == 'slice':
                a = [None if isconst(y) and y.info is None else self.num(y)
                     for y in i.args]
                return self.edges(x)[slice(*a)]
            if isconst(i) and isinstance(i.info, slice):
                return self.edges(x)[i.info]
        if n.op == 'fn' and n.info in ('copy', 'array', 'sort'):
            return self.edges(n.args[0])
        if n.op == 'fn' and n.info == 'histogram_bin_edges':
            return [2 * k for k in range(self.nb + 1)]
        raise Unsure(show(n, 2))

    def flag(self, n, kw, k, name):
        v = n.args[k] if len(n.args) > k else kw.get(name)
        if v is None:
            return None
        if not isconst(v):
            raise Unsure(show(v, 2))
        return v.info

    def num(self, n):
        n = strip(n)
        v = G.num(n.vn)
        if v is not None:
            if v.denominator != 1:
                raise Unsure(show(n, 2))
            return int(v)
        kw = dict(n.kw or ())
        if n.op == 'fn' and n.info == 'digitize' and len(n.args) >= 2:
            return self.count(n.args[0], self.edges(n.args[1]),
                              not self.flag(n, kw, 2, 'right'))
        if n.op == 'fn' and n.info == 'searchsorted' and len(n.args) >= 2:
            return self.count(n.args[1], self.edges(n.args[0]),
                              self.flag(n, kw, 2, 'side') == 'right')
        if n.op == 'fn' and n.info in ('minimum', 'maximum', 'min', 'max') \
                and len(n.args) == 2:
            a = [self.num(y) for y in n.args]
            return min(a) if n.info.startswith('min') else max(a)
        if n.op == 'fn' and n.info == 'clip' and len(n.args) == 3:
            x = self.num(n.args[0])
            lo, hi = [None if isconst(y) and y.info is None else self.num(y)
                      for y in n.args[1:]]
            if lo is not None:
                x = max(x, lo)
            return x if hi is None else min(x, hi)
        if n.op == 'fn' and n.info == 'len' and len(n.args) == 1:
            y = strip(n.args[0])
            if y.op == 'sub' and isconst(y.args[1]) and \
                    y.args[1].info == 0 and strip(y.args[0]).vn == self.H.vn:
                return self.nb
            return len(self.edges(y))
        if n.op == 'bin' and n.info in '+-*':
            a, b = [self.num(y) for y in n.args]
            return a + b if n.info == '+' else a - b if n.info == '-' \
                else a * b
        if n.op == 'sub' and isconst(n.args[1]) and \
                strip(n.args[0]).op == 'attr' and \
                strip(n.args[0]).info == 'shape':
            return self.num(G.raw('fn', (strip(n.args[0]).args[0],), 'len'))
        raise Unsure(show(n, 2))

    def count(self, x, edges, right):
        """Edges up to (right: and including) the value."""
        if bare(x).vn != self.x.vn:
            raise Unsure('of %s' % show(x, 2))
        return sum(1 for g in edges if g < self.rank or
                   right and g == self.rank)


RULES = [draws]
