"""C30: every peak is refined from its own window alone."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..front import Missing
from ..interp import Interp, fullslice
from ..lines import walk, stepkind, boolish
from ..linear import implies
from ..linear import sat as lsat
from ..q import closure, mentions, bdd_nodes
from ..ratform import Rat
from ..rows import Rows, row, cells
from ..stencil import Stencil, Unknown

WHO = 'refine_peaks'
WHOLE = {'max', 'min', 'mean', 'median', 'std', 'sum', 'ptp', 'percentile',
         'nanmax', 'nanmin', 'nanmean', 'nanmedian', 'nansum', 'nanstd',
         'quantile', 'nanpercentile', 'argmax', 'argmin', 'cumsum',
         'average', 'var'}


def setting(an):
    r = an.func('util', WHO)
    sp, pk, w = r.p('spectrum'), r.p('peaks'), r.p('window_width')
    return r, sp, pk, w


def refined(r):
    """(collection of the refined positions, the loop, position, when)."""
    out = []
    if r.ret is None:
        return out
    for n in closure(r.ret):
        if n.op == 'collect' and n.info.kind and mentions(
                n.args[0], isfit):
            if n.vn not in [x.vn for x in out]:
                out.append(n)
    return out


def isfit(x):
    return x.op == 'call' and str(x.info).split('.')[-1] in (
        'curve_fit', 'least_squares', 'minimize', 'leastsq')


def over(L, pk, r):
    """Does the loop go through the peaks?"""
    s = strip(L.space) if L.space is not None else None
    while s is not None and s.op == 'fn' and s.info in (
            'enumerate', 'range', 'len') and len(s.args) == 1:
        s = strip(s.args[0])
    return s is not None and mentions(s, lambda x: x.vn == pk.vn)


def own(x, pk, L):
    """The peak the loop is at."""
    return x.op == 'sub' and strip(x.args[0]).vn == pk.vn and \
        x.args[1].op == 'iota' and x.args[1] is L.iota


def window(x, sp):
    return x.op == 'sub' and x.args[1].op == 'slice' and \
        not fullslice(x.args[1]) and strip(x.args[0]).vn == sp.vn


class Deps:
    """What a value is computed from, stopping at windows and own peak."""

    def __init__(self, r, sp, pk, L):
        self.windows, self.other, self.carried = [], [], []
        self.whole, self.unknown = [], []
        self.sp, self.pk, self.L = sp, pk, L
        self.seen = {}

    def go(self, n, up=None):
        if n.uid in self.seen:
            return
        self.seen[n.uid] = n
        if own(n, self.pk, self.L):
            return
        if window(n, self.sp):
            if n.vn not in [x.vn for x in self.windows]:
                self.windows.append(n)
            self.go(n.args[1])
            return
        if n.op == 'fn' and n.info in ('len', 'size', 'shape') and strip(
                n.args[0]).vn == self.sp.vn:
            return
        if n.op == 'wrap' and not n.kw:
            if strip(n).vn in (self.sp.vn, self.pk.vn):
                self.bare(strip(n), up)
                return
        if n.vn in (self.sp.vn, self.pk.vn):
            self.bare(n, up)
            return
        if n.op == 'mu' and any(m is n for m in self.L.mus.values()):
            self.carried.append((n, up))
            return
        for x in n.args:
            self.go(x, n)
        for _, v in n.kw or ():
            self.go(v, n)
        if n.op == 'mu' and n.next is not None:
            self.go(n.next, n)
        if n.op in ('phi', 'bool'):
            self.gate(n.info, n)

    def gate(self, f, up=None):
        for v in G.b.support(f):
            for x in G.atoms[v][1]:
                self.go(x, v)

    def bare(self, n, up):
        if n.vn == self.pk.vn:
            self.other.append((n, up))
        elif hasattr(up, 'op') and (
                up.op == 'fn' and up.info in WHOLE or up.op == 'call' and
                str(up.info).split('.')[-1] in WHOLE or
                up.op == 'sub' and strip(up.args[0]).vn == n.vn and
                isconst(up.args[1])):
            self.whole.append((n, up))
        else:
            self.unknown.append((n, up))


def loops(r, pk):
    out, seen = [], []
    for c in refined(r):
        L = c.info
        if over(L, pk, r) and c.vn not in seen:
            seen.append(c.vn)
            out.append((c, L))
    return out


def independent(an, R):
    try:
        r, sp, pk, w = setting(an)
    except Missing as e:
        R.bad('anchor', WHO, str(e), at='util')
        return
    cs = loops(r, pk)
    if not cs:
        # accumulated through other values of the loop?
        bad = False
        for L in r.it.allloops:
            if not over(L, pk, r):
                continue
            if L.breaks and any(L in e.loops and e.kind == 'call' and
                                e.res is not None and isfit(e.res)
                                for e in r.events):
                bad = True
                R.bad('own-window', 'presence of a refined peak', 'the loop '
                      'over the peaks stops early, so a peak is only refined '
                      'when an earlier one does not end the loop', at=r.name)
                continue
            for e in r.events:
                if e.kind == 'mutate' and L in e.loops and \
                        e.name in ('.append', '[]=', '.extend'):
                    bad = True
                    accumulated(R, r, sp, pk, L, e)
        if not bad:
            R.unk('own-window', WHO, 'the refined positions are not '
                  'collected peak by peak')
        return
    for c, L in cs:
        d = Deps(r, sp, pk, L)
        d.go(c.args[0])
        judge(R, r, d, 'position', L, c)
        g = Deps(r, sp, pk, L)
        g.gate(G.truth(c.args[2]))
        judge(R, r, g, 'presence', L, c)
        if L.breaks:
            R.bad('own-window', 'presence of a refined peak', 'the loop over '
                  'the peaks stops early, so a peak is only refined when an '
                  'earlier one does not end the loop', at=r.name)
        for e in r.events:
            if e.kind == 'return' and L in e.loops and G.sat(e.pc):
                R.bad('own-window', 'presence of a refined peak', 'the '
                      'function returns from inside the loop over the peaks',
                      ev=e)
        spectrum_changes(R, r, sp, L)
        windows(R, r, d, L, w, pk, c)
        offset(R, r, sp, pk, c, L, d)
        finite(R, r, sp, c, L)


def accumulated(R, r, sp, pk, L, e):
    """Positions appended one by one with values carried between peaks."""
    for m in L.mus.values():
        if m.next is None or strip(m).vn == (e.a.vn if e.a is not None
                                             else None):
            continue
    n = e.a
    if n is None or n.op != 'mu' or n.next is None:
        return
    for x in closure(n.next):
        if x.op == 'append' and mentions(x.args[1], isfit):
            d = Deps(r, sp, pk, L)
            d.go(x.args[1])
            d.carried = [(m, u) for m, u in d.carried if m is not n]
            if d.carried or d.whole or d.other:
                judge(R, r, d, 'position', L, None)
                return
    g = Deps(r, sp, pk, L)
    g.gate(e.pc)
    g.carried = [(m, u) for m, u in g.carried if m is not n]
    if g.carried or g.whole or g.other:
        judge(R, r, g, 'presence', L, None)
    else:
        R.unk('own-window', WHO, 'positions are appended under conditions '
              'that are not understood')


def judge(R, r, d, what, L, c):
    name = '%s of a refined peak' % what
    for m, up in d.carried:
        R.bad('own-window', name, 'it depends on a value carried over from '
              'the peaks before it (%s, through %s)' % (
                  key(L, m), show(up, 2) if hasattr(up, 'op') else
                  'a condition'), at=r.name)
    for n, up in d.other:
        R.bad('own-window', name, 'it depends on the other peaks (%s)' % (
            show(up, 2) if hasattr(up, 'op') else 'a condition'), at=r.name)
    for n, up in d.whole:
        R.bad('own-window', name, 'it depends on the whole spectrum (%s)' %
              show(up, 2), at=r.name)
    for n, up in d.unknown:
        R.unk('own-window', name, 'the spectrum is read by %s' % (
            show(up, 3) if hasattr(up, 'op') else 'a condition'))
    if not (d.carried or d.other or d.whole or d.unknown):
        R.ok('own-window', name, '%d windows of the spectrum, the length of '
             'the spectrum and the own initial position' % len(d.windows))


def key(L, m):
    for k, x in L.mus.items():
        if x is m:
            return k[-1] if isinstance(k[-1], str) else str(k[-1])
    return 'loop state'


def spectrum_changes(R, r, sp, L):
    n = 0
    for e in r.events:
        if e.kind != 'mutate' or e.a is None or L not in e.loops or \
                not G.sat(e.pc):
            continue
        if any(strip(x).vn == sp.vn for x in closure(
                e.a, gates=False) if x.op in ('wrap', 'param')) and \
                memory(e.a, sp):
            n += 1
            R.bad('own-window', 'spectrum', 'the spectrum is changed while '
                  'the peaks are refined, so later windows differ', ev=e)
    if not n:
        R.ok('own-window', 'spectrum', 'not changed inside the loop')


def memory(n, sp):
    """A view of the spectrum (or of its copy made before the loop)."""
    while True:
        if n.op == 'wrap':
            n = n.args[0]
        elif n.op == 'sub' and n.args[1].op in ('slice', 'const', 'iota'):
            n = n.args[0]
        elif n.op in ('mu', 'update'):
            n = n.args[0]
        else:
            return n.vn == sp.vn


def windows(R, r, d, L, w, pk, c):
    """Each window is placed around the own peak and starts in range."""
    pc = G.truth(c.args[2])
    for x in d.windows:
        lo, hi, st = x.args[1].args
        what = 'window [%s : %s]' % (show(lo, 4), show(hi, 4))
        for b, side in ((lo, 'start'), (hi, 'end')):
            if b is None or isconst(b) and b.info is None or not mentions(
                    b, lambda y: own(y, pk, L)):
                R.bad('window', '%s of the window' % side, 'it does not '
                      'depend on the initial position of the peak: %s' %
                      show(b, 4), at=r.name)
                return
            if not mentions(b, lambda y: y.vn == w.vn):
                R.bad('window', '%s of the window' % side, 'it does not '
                      'depend on the window width: %s' % show(b, 4),
                      at=r.name)
                return
        low = nonnegative(lo)
        if low:
            R.ok('window', what, 'starts at 0 or later')
        elif low is False:
            R.bad('window', 'start of the window', '%s can be negative, '
                  'which counts from the far end of the spectrum' %
                  show(lo, 4), at=r.name)
        else:
            R.unk('window', what, 'sign of %s' % show(lo, 4))


def nonnegative(lo):
    n = strip(lo)
    if isconst(n):
        return n.info >= 0
    if n.op == 'fn' and n.info in ('maximum', 'max') and len(n.args) == 2:
        v = [nonnegative(x) for x in n.args]
        return True if True in v else None if None in v else False
    if n.op == 'fn' and n.info in ('minimum', 'min') and len(n.args) == 2:
        v = [nonnegative(x) for x in n.args]
        return False if False in v else True if v == [True, True] else None
    if n.op == 'fn' and n.info == 'clip' and len(n.args) == 3:
        return nonnegative(n.args[1])
    if n.op == 'fn' and n.info == 'int' and len(n.args) == 1:
        return nonnegative(n.args[0])
    if n.op == 'fn' and n.info in ('len', 'abs'):
        return True
    if n.op == 'phi':
        neg = G.cmp('<', n, G.const(0))
        if not lsat(neg):
            return True
        v = []
        for c, l in G.leaves(n, TRUE):
            if not lsat(G.b.AND(c, G.cmp('<', l, G.const(0)))):
                v.append(True)
            else:
                v.append(nonnegative(l))
        return True if all(v) else False if False in v else None
    if n.op == 'bin' and n.info == '-':
        return False if all(simple(x) for x in n.args) else None
    return None


def simple(n):
    n = strip(n)
    return isconst(n) or n.op == 'param' or n.op == 'sub' or (
        n.op == 'fn' and n.info in ('int', 'round', 'floor', 'abs') and
        simple(n.args[0])) or n.op == 'bin' and all(
            simple(x) for x in n.args)


def fits(n):
    out = []
    for x in closure(n):
        if isfit(x) and x.vn not in [y.vn for y in out]:
            out.append(x)
    return out


def arrays(r, L):
    W = Rows(r)
    return W


def sample(W, n, j, sp):
    """(window slice node, row inside it, chain above) of a sample."""
    v = W.at(n, j)
    cs = [c for c in cells(v) if strip(c[1]).vn == sp.vn]
    return v, cs


def split(jj):
    """Row of the spectrum -> (masks applied after the slice, slice, row)."""
    chain, j0 = walk(None, jj)
    return chain, j0


def offset(R, r, sp, pk, c, L, d):
    """Position reported = window start + position inside the window."""
    v = c.args[0]
    for f in fits(v):
        if not str(f.info).endswith('curve_fit') or len(f.args) < 3:
            R.unk('pixel-scale', WHO, 'fit by %s' % f.info)
            continue
        W = Rows(r)
        W.arr[sp.info] = True
        j = row()
        X, Y = f.args[1:3]
        x, y = W.at(X, j), W.at(Y, j)
        cs = [t for t in cells(y) if strip(t[1]).vn == sp.vn]
        if len({t[2].vn for t in cs}) != 1:
            R.unk('pixel-scale', WHO, 'samples fitted: %s' % show(y, 4))
            continue
        jj = cs[0][2]
        # the chain of the sample: first applied first
        chain, _ = walk(W, jj)
        sl = [(s, k) for s, k in chain if s.op == 'slice']
        if len(sl) != 1 or chain[0] != sl[0]:
            R.unk('pixel-scale', WHO, 'samples fitted: %s' % show(y, 4))
            continue
        inner = sl[0][1].args[1]        # row inside the window
        lo = sl[0][0].args[0]
        lo = G.const(0) if lo is None or isconst(lo) and lo.info is None \
            else lo
        # coordinate = k + row inside the window
        k = coordinate(x, inner)
        if k is None:
            R.unk('pixel-scale', WHO, 'coordinates fitted: %s' % show(x, 4))
            continue
        if k is False:
            R.bad('pixel-scale', 'coordinates of the samples', 'a sample is '
                  'fitted at the coordinate of another one: %s' % show(x, 3),
                  at=r.name)
            continue
        centre = parameter(f, 1)
        for cond, leaf in G.leaves(v, G.truth(c.args[2])):
            leaf = strip(leaf)
            m = [z for z in closure(leaf, gates=False)
                 if z.vn == centre.vn]
            if not m:
                if any(z.vn == f.vn for z in closure(leaf, gates=False)):
                    other = [i for i in range(4)
                             if any(z.vn == parameter(f, i).vn
                                    for z in closure(leaf, gates=False))]
                    if other:
                        R.bad('pixel-scale', 'position of a refined peak',
                              'it is built from parameter %d of the fit, '
                              'which is not the centre' % other[0],
                              at=r.name)
                        continue
                R.unk('pixel-scale', WHO, 'position %s' % show(leaf, 3))
                continue
            same = equal(G.bin('-', leaf, centre), G.bin('-', lo, k))
            if same is None:
                same = both(leaf, centre, lo, k)
            if same:
                R.ok('pixel-scale', 'position of a refined peak',
                     'window start + centre inside the window')
            elif same is False:
                R.bad('pixel-scale', 'position of a refined peak',
                      '%s added to the centre of the fit, but the window '
                      'starts at %s and its first sample has coordinate %s' %
                      (show(G.bin('-', leaf, centre), 4), show(lo, 4),
                       show(k, 3)), at=r.name)
            else:
                R.unk('pixel-scale', WHO, 'position %s' % show(leaf, 3))


def both(leaf, centre, lo, k):
    return None


def parameter(f, i):
    """popt[i] of a curve fit."""
    return Interp(None).index(G.raw('sub', (f, G.const(0))), G.const(i))


def equal(a, b):
    q = Rat(lambda x: x.vn if x.op not in ('bin', 'un', 'const', 'wrap')
            else None)
    try:
        return q.equal(q.rat(a), q.rat(b))
    except Exception:
        return None


def coordinate(x, inner):
    """k with x = k + row inside the window; False: another sample's."""
    x = strip(x)
    if x.vn == inner.vn:
        return G.const(0)
    if x.op == 'bin' and x.info in '+-':
        a, b = x.args
        ka = coordinate(a, inner)
        if ka is not None and ka is not False and not has(b, inner):
            return G.bin(x.info, ka, b)
        if ka is False and not has(b, inner):
            return False
        if x.info == '+':
            kb = coordinate(b, inner)
            if kb is not None and kb is not False and not has(a, inner):
                return G.bin('+', kb, a)
            if kb is False:
                return False
        return None
    if x.op == 'sub':
        s, i = strip(x.args[0]), x.args[1]
        if s.op == 'fn' and s.info in ('arange', 'range'):
            if len(s.args) == 3:
                return None
            start = s.args[0] if len(s.args) == 2 else G.const(0)
            k = coordinate(i, inner)
            if k is not None and k is not False:
                return G.bin('+', start, k)
            return k
    if x.op in ('sel', 'row'):
        return False
    return None


def has(n, inner):
    return mentions(n, lambda y: y.vn == inner.vn or y.op in ('row', 'sel'))


def finite(R, r, sp, c, L):
    """Only finite samples reach the fit and its initial guess."""
    v = c.args[0]
    for f in fits(v):
        for i, a in enumerate(f.args[1:3]):
            name = ('coordinates', 'samples')[i]
            if i == 0:
                continue
            verdict(R, r, sp, a, name + ' fitted')
        kw = dict(f.kw or ())
        p0 = kw.get('p0') or (f.args[3] if len(f.args) > 3 else None)
        if p0 is None:
            continue
        seen = set()
        for x in closure(p0, gates=False):
            if x.op == 'fn' and x.info in ('sum', 'mean', 'max', 'min',
                                           'median', 'std', 'dot', 'argmax',
                                           'average', 'nansum', 'nanmean',
                                           'nanmax') and \
                    x.args and x.vn not in seen and mentions(
                        x.args[0], lambda y: y.vn == sp.vn, gates=False):
                seen.add(x.vn)
                if x.info.startswith('nan'):
                    continue
                verdict(R, r, sp, x.args[0], 'initial guess')
            if x.op == 'call' and str(x.info).split('.')[-1] in (
                    'average', 'mean', 'sum', 'dot') and x.args and mentions(
                        x.args[0], lambda y: y.vn == sp.vn, gates=False):
                R.unk('finite', 'initial guess', show(x, 2))


def verdict(R, r, sp, a, what):
    W = Rows(r)
    W.arr[sp.info] = True
    j = row()
    y = W.at(a, j)
    f = TRUE
    cs = [t for t in cells(y) if strip(t[1]).vn == sp.vn]
    # reductions inside (the scale) are scalars of the window
    if not cs:
        R.unk('finite', what, show(y, 3))
        return
    jj = cs[0][2]
    if len({t[2].vn for t in cs}) != 1:
        R.unk('finite', what, 'several samples at once: %s' % show(y, 3))
        return
    chain, j0 = walk(W, jj)
    known = False
    unknown = []
    for s, k in chain:
        kind = stepkind(s)
        if kind == 'slice':
            continue
        if kind != 'mask':
            unknown.append(s)
            continue
        g = G.truth(W.at(s, k))
        f = G.b.AND(f, g)
    for vv in G.b.support(f):
        pred, nodes = G.atoms[vv][:2]
        fin = None
        if pred == 'isfinite':
            fin = True
        elif pred == 'truthy' and nodes and nodes[0].op == 'fn' and \
                nodes[0].info == 'isfinite':
            fin = True
            nodes = nodes[0].args
        if fin and any(t[2].vn == jj.vn for n in nodes for t in cells(n)) \
                and G.implies(f, G.b.var(vv)):
            known = True
    if known:
        R.ok('finite', what, 'only rows with a finite sample')
    elif unknown:
        R.unk('finite', what, 'selection %s' % show(unknown[0], 3))
    else:
        R.bad('finite', what, 'samples that are not finite are used: %s' %
              show(a, 4), at=r.name)


def result(an, R):
    """Only positions inside the spectrum, none twice in a row."""
    try:
        r, sp, pk, w = setting(an)
    except Missing:
        return
    cs = loops(r, pk)
    if not cs or r.ret is None:
        R.unk('inside', WHO, 'the refined positions are not collected peak '
              'by peak')
        return
    pc = r.end.pc
    for cond, ret in G.leaves(r.ret, pc):
        ret = strip(ret)
        size = r.it.length(ret, None)
        if not lsat(G.b.AND(cond, G.cmp('>', size, G.const(0)))) or \
                not G.sat(G.b.AND(cond, G.truth(size))):
            continue            # nothing is returned here
        if strip(ret).op in ('list', 'tuple') and not ret.args:
            continue
        # selections of the collection, last applied first
        steps = []
        x = ret
        sorted_unique = False
        while True:
            x = strip(x)
            if x.op == 'sub' and x.args[1].op != 'const':
                steps.append((x.args[1], strip(x.args[0])))
                x = x.args[0]
            elif x.op == 'fn' and x.info in ('unique', 'sort'):
                sorted_unique = sorted_unique or x.info == 'unique'
                x = x.args[0]
            else:
                break
        c = next((c for c, _ in cs if c.vn == x.vn), None)
        if c is None:
            R.unk('inside', WHO, 'the result is %s' % show(ret, 3))
            continue
        W = Rows(r)
        W.arr[sp.info] = True
        j = row()
        v = W.at(ret, j)
        f = TRUE
        odd = []
        Wc = Rows(r)
        for s, base in steps[::-1]:
            if stepkind(s) == 'mask':
                f = G.b.AND(f, inward(s, c, j))
            elif stepkind(s) != 'slice':
                odd.append(s)
        one = position(c, j)
        g0 = G.truth(c.args[2])
        n = length(r, sp)
        e = c.args[0]
        own_ = G.b.AND(g0, TRUE)
        f2 = G.b.AND(f, TRUE)
        good = G.b.AND(G.cmp('>=', one, G.const(0)),
                       G.cmp('<=', one, n))
        raw = G.b.AND(G.cmp('>=', e, G.const(0)), G.cmp('<=', e, n))
        if implies(f2, good) or implies(own_, raw):
            R.ok('inside', WHO, 'every position returned is in the spectrum')
        elif odd:
            R.unk('inside', WHO, 'selection %s' % show(odd[0], 3))
        else:
            R.bad('inside', 'positions returned', 'a position outside the '
                  'spectrum can be returned: only %s is known of it' %
                  G.bshow(f2, 2)[:200], at=r.name)
        twice(R, r, steps, c, sorted_unique)


def length(r, sp):
    return r.it.length(sp, None)


def position(c, j):
    return G.raw('sub', (c, j))


def inward(s, c, j):
    """Condition of a mask in terms of the element it is applied to."""
    t = strip(s)
    if t.op != 'bool':
        return TRUE
    out = TRUE
    f = t.info
    b = G.b
    rep = {}
    one = position(c, j)
    for v in b.support(f):
        pred, nodes = G.atoms[v][:2]
        if pred == 'pos' and len(nodes) == 2:
            m = [y if strip(y).vn != c.vn else one for y in nodes]
            ns = []
            for y in nodes:
                ns.append(swap(y, c, one))
            base, orig = G.lt(*ns), G.lt(*nodes)
            if orig == b.var(v):
                rep[v] = base
            elif orig == b.NOT(b.var(v)):
                rep[v] = b.NOT(base)

    def comp(f):
        if f <= 1:
            return f
        v, lo, hi = b.nodes[f]
        return b.ite(rep.get(v, b.var(v)), comp(hi), comp(lo))
    return comp(f)


def swap(y, c, one):
    y = strip(y)
    if y.vn == c.vn or selection(y, c):
        return one
    if y.op == 'bin':
        return G.bin(y.info, *[swap(a, c, one) for a in y.args])
    if y.op == 'un':
        return G.un(y.info, *[swap(a, c, one) for a in y.args])
    return y


def selection(y, c):
    while y.op == 'sub' and y.args[1].op not in ('const', 'slice', 'iota'):
        y = strip(y.args[0])
    return y.vn == c.vn


def twice(R, r, steps, c, unique):
    """Neighbours of the list returned differ."""
    if unique:
        R.ok('none-twice', WHO, 'the result is made unique')
        return
    found = False
    later = []
    for s, base in steps:            # last applied first
        kind = stepkind(s)
        near = compares(s)
        if near is None:
            later.append(s)
            continue
        found = True
        others = [a for a in near if a.vn != base.vn]
        if others:
            R.bad('none-twice', 'comparison of neighbours', 'neighbours of '
                  'another list than the one it selects from are compared: '
                  '%s' % show(others[0], 3), at=r.name)
            return
        try:
            S = Stencil(r.it, base)
            v = S.at(s, ('i', 0))
            if kind != 'mask' and not boolish(v):
                raise Unknown('selection %s' % show(s, 3))
            v = G.truth(v)
        except Unknown as e:
            R.unk('none-twice', WHO, 'neighbour comparison: %s' % e)
            return
        bad = decide(R, r, v)
        if bad:
            return
        if later:
            R.bad('none-twice', 'selection after the comparison',
                  'positions are taken out after the neighbours were '
                  'compared: %s' % show(later[0], 3), at=r.name)
        else:
            R.ok('none-twice', WHO, 'a position close to the one before it '
                 'is left out')
        return
    if any(mentions(s, lambda y: y.op == 'fn' and y.info in (
            'unique', 'isclose', 'diff') or y.op == 'mu') for s, _ in steps):
        R.unk('none-twice', WHO, 'selection not understood')
        return
    if any(mentions(c.args[2], lambda y: y.op == 'mu') for _ in (0,)):
        R.unk('none-twice', WHO, 'compared while collecting')
        return
    R.bad('none-twice', 'positions returned', 'nothing compares a position '
          'with the one before it', at=r.name)


def compares(s):
    """Arrays whose shifted slices a selection compares."""
    out = []
    for x in closure(s):
        if x.op == 'sub' and x.args[1].op == 'slice':
            lo, hi, st = x.args[1].args
            a = strip(x.args[0])
            if (number(lo) or number(hi)) and a.op != 'update':
                if a.vn not in [y.vn for y in out]:
                    out.append(a)
        if x.op == 'fn' and x.info in ('diff', 'ediff1d'):
            a = strip(x.args[0])
            if a.vn not in [y.vn for y in out]:
                out.append(a)
    return out or None


def number(n):
    return n is not None and isconst(n) and isinstance(n.info, int)


def decide(R, r, v):
    """Is a position close to its neighbour left out, and nothing else?"""
    b = G.b
    for u in b.support(v):
        pred, nodes = G.atoms[u][:2]
        els = [y for n in nodes for y in closure(n) if y.op == 'elem']
        pos = {y.info for y in els}
        if len(pos) < 2:
            R.bad('none-twice', 'selection with the comparison',
                  'positions are taken out for another reason in the same '
                  'step, so neighbours in the result were not compared: %s'
                  % G.ashow(u)[:150], at=r.name)
            return True
    pairs = {}
    for u in b.support(v):
        for n in G.atoms[u][1]:
            for y in closure(n):
                if y.op == 'elem':
                    pairs[y.info] = y
    if len(pairs) != 2:
        if v == TRUE or not pairs:
            R.bad('none-twice', 'comparison of neighbours', 'it never '
                  'leaves a position out', at=r.name)
        else:
            R.unk('none-twice', WHO, 'more than two neighbours compared')
        return True
    (p, x), (q, y) = sorted(pairs.items())
    if q[1] - p[1] != 1:
        R.bad('none-twice', 'comparison of neighbours', 'positions %d apart '
              'are compared' % (q[1] - p[1]), at=r.name)
        return True
    # the same position twice
    same = r.it.subst(G.bool(v), {x.vn: y})
    f = G.truth(same)
    for u in b.support(f):
        pred, nodes = G.atoms[u][:2]
        if pred == 'truthy' and nodes[0].op == 'fn' and \
                nodes[0].info == 'isclose':
            pred, nodes = 'isclose', nodes[0].args
        if pred == 'isclose' and len({n.vn for n in nodes[:2]}) == 1:
            f = b.restrict(f, b.var(u))
    if f == FALSE or not lsat(f):
        return False
    if f == TRUE:
        R.bad('none-twice', 'comparison of neighbours', 'a position equal '
              'to the one before it is kept: %s' % G.bshow(v, 2)[:150],
              at=r.name)
        return True
    R.unk('none-twice', WHO, 'comparison %s' % G.bshow(f, 2)[:150])
    return True


RULES = [independent, result]
