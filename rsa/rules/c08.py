"""C08: matched pixels and wavelengths change together or not at all."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..interp import fullslice
from ..linear import entails
from ..loops import outs, peel
from ..q import closure
from ..solve import configs
from ..spaces import Spaces, told, root

A, B = 'matched_peaks', 'matched_atlas'


def key(r, a):
    return ('o', r.self.vn, a)


def merge(r, k):
    """Both lists have the same rows to begin with."""
    names = {r.it.initial(key(r, a)).vn for a in (A, B)}
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == 'base' and k[1] in names:
            return ('base', 'pairs')
        return tuple(merge(r, x) for x in k)
    return k


def runs(an):
    for lab, ft, bf, r, ways in configs(an):
        yield 'Calibrator.fit (%s)' % lab, r
    for e in methods(an):
        yield 'Calibrator.' + e, an.method('Calibrator', e)


def methods(an):
    return [f.name for f in an.entries() if f.cls is not None and
            f.cls.name == 'Calibrator' and not f.name.startswith('_') and
            f.name != 'fit']


def unchanged(r, v, a):
    return strip(v).vn == r.it.initial(key(r, a)).vn


def together(an, R):
    """Both lists are replaced on the same paths, with matching rows."""
    for what, r in runs(an):
        if r.end is None:
            continue
        mp, ma = r.final(A), r.final(B)
        if unchanged(r, mp, A) and unchanged(r, ma, B):
            continue
        S = Spaces(r)
        if any(peel(l)[0] is not None and peel(l)[0].info.mus.get(
                key(r, a)) is not None for a, v in ((A, mp), (B, ma))
                for c, l in G.leaves(v, r.end.pc)):
            ways = outs(r, {A: mp, B: ma})
            if not ways:
                R.unk('together', what, 'no replacement followed')
                continue
            for o in ways:
                w = '%s, %s of the loop body' % (what, o.kind)
                x, y = o.vals.get(A), o.vals.get(B)
                if (x is None) != (y is None):
                    one(R, r, w, A if y is None else B, o.loop.fn)
                    continue
                aligned(R, r, S, w, G.simp(x, o.pc), G.simp(y, o.pc), o.pc,
                        o.loop.fn)
            continue
        for c, x in G.leaves(mp, r.end.pc):
            for d, y in G.leaves(ma, c):
                if not G.sat(d):
                    continue
                if unchanged(r, x, A) and unchanged(r, y, B):
                    continue
                x, y = G.simp(x, d), G.simp(y, d)
                if unchanged(r, x, A) != unchanged(r, y, B) and not \
                        any(strip(z).op == 'param' for z in (x, y)):
                    one(R, r, what, B if unchanged(r, x, A) else A, r.name)
                    continue
                aligned(R, r, S, what, x, y, d, r.name, (mp, ma))


def one(R, r, what, a, fn):
    R.bad('together', what, '%s is replaced but %s is not' % (
        a, B if a == A else A), at=fn)


def aligned(R, r, S, what, x, y, pc, fn, whole=()):
    k, l = [merge(r, S.space(v)) for v in (x, y)]
    x, y = strip(x), strip(y)
    if k is not None and k == l:
        R.ok('together', what, told(S.space(x)))
        return
    ps = [v for v in (x, y) if v.op == 'param']
    if ps and all(v.op in ('param', 'field', 'list') for v in (x, y)):
        if whole:
            n, m = [r.it.fn('len', [strip(v)], (), None) for v in whole]
            if G.implies(pc, G.eq(n, m)):
                R.ok('together', what, 'lengths compared')
                return
        n, m = [r.it.fn('len', [v], (), None) for v in (x, y)]
        differ = G.b.NOT(G.eq(n, m))
        if entails(pc, G.eq(n, m)) or not G.sat(G.b.AND(pc, differ)):
            R.ok('together', what, 'lengths compared')
        else:
            R.bad('together', what, 'lists of different lengths are '
                  'accepted: %s and %s' % (show(x, 2), show(y, 2)), at=fn)
        return
    if k is None or l is None:
        bad = stuck(S, x) or stuck(S, y)
        if bad:
            R.bad('together', what, bad, at=fn)
        else:
            R.unk('together', what, '%s / %s' % (show(x, 3)[:120],
                                                 show(y, 3)[:120]))
        return
    if differs(r, k, l):
        R.bad('together', what, 'the pixels are the %s, but the wavelengths '
              'the %s' % (told(S.space(x))[:150], told(S.space(y))[:150]),
              at=fn)
    else:
        R.unk('together', what, '%s / %s' % (told(S.space(x)),
                                             told(S.space(y))))


def stuck(S, v):
    """A list that does not gain one entry in each round."""
    for x in closure(v):
        if x.op == 'mu' and x.next is not None and x.args:
            first = S.elements(x.args[0], 0)
            if not first or any(e is None or isinstance(e, tuple) or
                                S.space(e) != ('list', 0) for e in first):
                continue
            g = S.growth(x)
            if None in g:
                continue
            if g != {1}:
                return 'not every round adds one entry: %s' % sorted(g)
            if not S.complete(x.info):
                return 'the rounds may stop early'
    return None


STEP = ('sel', 'ins', 'del', 'idx', 'slice', 'rev', 'sort', 'uniq', 'cat')


def differs(r, k, l):
    """The keys are known to differ (same origin, different steps)."""
    if k[0] == l[0] and k[0] in ('ins', 'del', 'sel', 'idx', 'slice', 'rev',
                                 'sort'):
        if k[1] != l[1]:
            return differs(r, k[1], l[1])
        if k[0] in ('ins', 'del'):
            return apart(k[2], l[2])
        return True
    for p, q in ((k, l), (l, k)):
        if p[0] == 'zip' and q in p[1:] and any(
                x != q and differs(r, x, q) for x in p[1:]):
            return True
        if p[0] == 'ins' and q[0] == 'cat' and root(p) == root(q[1]) and \
                strip(G.vn_node[p[2]]).info != 'len':
            return True
    if k[0] == 'cat' and l[0] == 'cat':
        return any(p != q and differs(r, p, q) for p, q in zip(
            k[1:], l[1:]))
    if k[0] == 'list' and l[0] == 'list':
        return True
    a, b = root(k), root(l)
    if a == b and (k[0] in STEP or l[0] in STEP):
        return True
    if a and b and a != b and a[0] == b[0] == 'uniq':
        return True
    if {a and a[0], b and b[0]} <= {'uniq', 'base', 'list'} and (
            a[0] == 'uniq' or b[0] == 'uniq'):
        return True
    return False


def apart(i, j):
    """Two positions that are not computed from the same things."""
    def deps(v):
        n = G.vn_node[v]
        return {x.vn for x in closure(n) if x.op in ('field', 'param')}
    p, q = G.poly_of(i), G.poly_of(j)
    d = {m: p.get(m, 0) - q.get(m, 0) for m in set(p) | set(q)}
    d = {m: c for m, c in d.items() if c}
    if list(d) == [()]:
        return True
    return deps(i) != deps(j) or isconst(G.vn_node[i]) or isconst(
        G.vn_node[j])


# ---- adding and removing -------------------------------------------------
def insertion(n):
    """(list, position, entry) of one added pair."""
    n = strip(n)
    if n.op == 'fn' and n.info == 'insert' and len(n.args) == 3:
        return n.args
    if n.op == 'mut' and n.info == 'insert' and len(n.args) == 3:
        return n.args
    return None


def adding(an, R):
    for what, r in runs(an):
        if r.end is None or 'fit' in what:
            continue
        ps = [p for p in r.params.values() if p.op == 'param'] if hasattr(
            r, 'params') else []
        for c, x in G.leaves(r.final(A), r.end.pc):
            for d, y in G.leaves(r.final(B), c):
                if not G.sat(d):
                    continue
                p, q = insertion(x), insertion(y)
                if p is None or q is None:
                    continue
                order(R, r, what, p, q)
                anywhere(R, r, what, p[1], d)


def order(R, r, what, p, q):
    names = list(r.params)
    names = [n for n in names if n != 'self']
    v, w = strip(p[2]), strip(q[2])
    if v.op != 'param' or w.op != 'param':
        R.unk('own-list', what, '%s, %s' % (show(v, 2), show(w, 2)))
        return
    if names.index(v.info) < names.index(w.info):
        R.ok('own-list', what)
    else:
        R.bad('own-list', what, '%s is added to the pixels and %s to the '
              'wavelengths' % (v.info, w.info), at=r.name)


def anywhere(R, r, what, i, pc):
    """The position exists for every pixel."""
    i = strip(i)
    w = 'position in ' + what
    if i.op == 'fn' and i.info in ('sum', 'searchsorted', 'len', 'bisect',
                                   'bisect_left', 'bisect_right'):
        R.ok('any-position', w, show(i, 3))
        return
    if i.op == 'call' and str(i.info).startswith('bisect.'):
        R.ok('any-position', w, show(i, 3))
        return
    for x in closure(i, gates=False):
        if x.op == 'sub' and (isconst(x.args[1])) and strip(
                x.args[0]).op == 'fn' and strip(x.args[0]).info in (
                    'flatnonzero', 'argwhere'):
            m = strip(strip(x.args[0]).args[0])
            some = r.it.quant('any', m)
            if not G.implies(pc, some) and not G.implies(pc, G.cmp(
                    '<', G.const(0), r.it.fn('sum', [m], (), None))):
                R.bad('any-position', w, 'there may be no entry %s of %s' % (
                    x.args[1].info, show(x.args[0], 3)[:120]), at=r.name)
                return
    if i.op == 'fn' and i.info in ('argmax', 'argmin') and strip(
            i.args[0]).op == 'bool':
        R.bad('any-position', w, '%s is 0 when there is no such entry' %
              show(i, 3)[:120], at=r.name)
        return
    R.unk('any-position', w, show(i, 3)[:120])


# ---- failures ------------------------------------------------------------
FAIL = {'insert', 'delete', 'append', 'concatenate', 'hstack', 'int',
        'stack', 'vstack', 'column_stack', 'reshape'}


def atomic(an, R):
    for what, r in runs(an):
        st = [e for e in r.events if e.kind in ('store', 'mutate') and
              about(r, e) is not None and G.sat(e.pc)]
        for i, e in enumerate(st):
            for f in st[i + 1:]:
                if about(r, f) == about(r, e):
                    continue
                if e.fn != f.fn and not e.stack[:1] == f.stack[:1]:
                    continue
                if not G.sat(G.b.AND(e.pc, f.pc)):
                    continue
                between(R, r, what, e, f)
                break
        after(R, r, what, st)


def about(r, e):
    """Which of the two lists an event replaces."""
    if e.kind == 'store' and e.a is not None and e.a.vn == r.self.vn and \
            e.name in (A, B):
        return e.name
    if e.kind == 'mutate' and e.a is not None:
        s = strip(e.a)
        for a in (A, B):
            if s.vn == r.it.initial(key(r, a)).vn:
                return a
    return None


def between(R, r, what, e, f):
    w = '%s: %s then %s' % (what, about(r, e), about(r, f))
    for x in r.events[e.seq + 1:f.seq]:
        if not G.sat(G.b.AND(e.pc, x.pc)):
            continue
        if x.kind in ('raise', 'assert') and not x.caught:
            if x.kind == 'assert' and x.a is not None and G.implies(
                    x.pc, G.truth(x.a)):
                continue
            R.bad('atomic', w, 'an exception between the two leaves only '
                  'one of them replaced', ev=x)
            return
        if x.kind in ('dyncall', 'call') and str(x.name).startswith(
                ('numpy.polynomial', 'scipy')):
            R.bad('atomic', w, 'a failure of %s between the two leaves only '
                  'one of them replaced' % x.name, ev=x)
            return
    if f.b is not None and f.kind == 'store':
        p, q = (strip(e.b), strip(f.b)) if e.b is not None else (None, None)
        if p is not None and p.op == q.op and p.info == q.info and \
                p.op in ('fn', 'mut') and p.info in ('delete', 'pop') and [
                    x.vn for x in p.args[1:]] == [x.vn for x in q.args[1:]]:
            R.ok('atomic', w, 'both fail or neither')
            return
        for x in closure(f.b, gates=False):
            if x.uid > e.uid and (x.op == 'fn' and x.info in FAIL or
                                  x.op == 'mut' or x.op == 'call' and
                                  str(x.info).startswith('numpy.poly')):
                R.bad('atomic', w, '%s may fail after %s has been replaced' %
                      (show(x, 2)[:150], about(r, e)), ev=f)
                return
    if f.kind == 'mutate':
        n = str(f.name)
        if n.endswith(('.insert', '.append')) or n.endswith('.pop') and \
                str(e.name) == n and same(e, f):
            R.ok('atomic', w, n)
        else:
            R.unk('atomic', w, 'changed in place by %s' % n)
        return
    R.ok('atomic', w)


def same(e, f):
    return (e.c is None and f.c is None) or (
        e.c is not None and f.c is not None and e.c.vn == f.c.vn)


def after(R, r, what, st):
    """No check of the arguments once both lists are replaced."""
    if 'fit' in what.split('(')[0] and 'refit' not in what:
        return
    for e in st[-1:]:
        if len(st) < 2:
            return
        for x in r.events[e.seq + 1:]:
            if x.kind not in ('raise', 'assert') or x.caught or not G.sat(
                    G.b.AND(e.pc, x.pc)):
                continue
            deps = set()
            n = x.a if x.kind == 'assert' else None
            if n is not None:
                if G.implies(x.pc, G.truth(n)):
                    continue
                deps = {y.info for y in closure(n) if y.op == 'param'}
            else:
                deps = {y.info for v in G.b.support(x.pc)
                        for n in G.atoms[v][1]
                        for y in closure(n) if y.op == 'param'}
            if deps:
                R.bad('atomic', what + ': checks', 'the lists are already '
                      'replaced when this is rejected', ev=x)
                return
        R.ok('atomic', what + ': checks')


def partof(S, x, f):
    """x is f without some entries, or with its entries rearranged."""
    k = S.space(x)
    return k is not None and k[0] in ('sel', 'slice', 'rev', 'sort',
                                      'uniq') and root(k) == S.space(f)


def reported(an, R):
    """The list of pairs shows each with the position that removes it."""
    r = an.method('Calibrator', 'get_pix_wave_pairs')
    w = 'the reported list of pairs'
    if r is None or r.end is None or r.ret is None:
        R.unk('reported', w, 'no list returned')
        return
    S = Spaces(r)
    lists = [r.it.initial(key(r, a)) for a in (A, B)]
    for c, l in G.leaves(r.ret, r.end.pc):
        if not G.sat(c):
            continue
        rows = []
        for x in closure(l):
            if x.op == 'collect':
                rows.append(strip(x.args[0]))
            elif x.op == 'append':
                rows.append(strip(x.args[1]))
        if not rows or strip(l).op == 'list' and not strip(l).args:
            R.unk('reported', w, show(l, 3)[:160])
            continue
        for t in rows:
            if t.op not in ('tuple', 'list') or t.kw or len(t.args) != 3:
                R.unk('reported', w, show(t, 3)[:160])
                continue
            i = strip(t.args[0])
            for a, f, v in zip((A, B), lists, t.args[1:]):
                v = strip(v)
                if v.op != 'sub':
                    R.unk('reported', w + ': ' + a, show(v, 3)[:160])
                    continue
                of, at = strip(v.args[0]), strip(v.args[1])
                if of.vn == f.vn and at.vn == i.vn:
                    R.ok('reported', w + ': ' + a)
                elif of.vn == f.vn and G.poly_of(at.vn) is not None and \
                        isconst(strip(G.bin('-', at, i))):
                    R.bad('reported', w + ': ' + a, 'entry %s is reported at '
                          'position %s' % (show(at, 2), show(i, 2)),
                          at=r.name)
                elif of.vn != f.vn and of.op == 'field':
                    R.bad('reported', w + ': ' + a, 'shows %s, not %s' % (
                        show(of, 2), a), at=r.name)
                elif partof(S, of, f):
                    R.bad('reported', w + ': ' + a, 'shows %s only' % show(
                        of, 3)[:120], at=r.name)
                else:
                    R.unk('reported', w + ': ' + a, show(v, 3)[:160])
        k = S.space(l)
        if k is not None and k[0] in ('sel', 'slice', 'idx', 'uniq'):
            R.bad('reported', w + ': all pairs', 'only %s' % told(k)[:150],
                  at=r.name)
        else:
            (R.ok if k is not None else R.unk)('reported', w + ': all pairs',
                                               told(k)[:150] if k else '')


RULES = [together, adding, atomic, reported]
