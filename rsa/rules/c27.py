"""C27: a synthetic spectrum always uses its latest model and limits.

Histories of calls on one generator are run symbolically one after another
on the same object.  Coefficients are symbols, so the polynomial that the
last call inverts is compared as a polynomial, for every degree up to TOP.
"""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..entry import Run
from ..front import Missing
from ..lines import walk, stepkind, facts
from ..linear import implies
from ..q import mentions
from ..ratform import Rat
from ..rows import Rows, row, cells

TOP = 5
CLS = 'SyntheticSpectrum'


def symbols(tag, k):
    out = []
    for i in range(k + 1):
        x = G.raw('param', (), '%s%d' % (tag, i),
                  vn=G.intern(('param', 'C27' + tag, i)))
        G.notnone.add(x.vn)
        out.append(x)
    return out


def number(tag):
    x = G.raw('param', (), tag, vn=G.intern(('param', 'C27', tag)))
    G.notnone.add(x.vn)
    return x


class History:
    """One generator and the calls made on it so far."""

    def __init__(self, an, cs=None):
        self.an = an
        self.lo, self.hi = number('lo'), number('hi')
        self.cs = cs
        b = {'min_wavelength': self.lo, 'max_wavelength': self.hi}
        if cs is not None:
            b['coefficients'] = G.raw('list', tuple(cs))
        self.text = ['created with %s' % self.words(cs)]
        self.r = Run(an, an.prog.method(CLS, '__init__'), bind=b)
        self.runs = [self.r]
        self.obj = self.r.self

    def words(self, cs):
        return 'no model' if cs is None else 'a model of degree %d' % (
            len(cs) - 1)

    def dead(self):
        return self.r.end is None or not G.sat(self.r.end.pc)

    def call(self, name, **b):
        last = self.r
        self.r = Run(self.an, self.an.prog.method(CLS, name), obj=self.obj,
                     st=last.end, interp=last.it, bind=b)
        self.runs.append(self.r)
        return self.r

    def model(self, cs):
        self.cs = cs
        self.text.append('set to %s' % self.words(cs))
        self.call('set_model', coefficients=G.raw('list', tuple(cs)))

    def limits(self, lo, hi):
        none = G.const(None)
        if lo is not None:
            self.lo = lo
        if hi is not None:
            self.hi = hi
        self.text.append('limited to %s' % ' and '.join(
            w for w, x in (('a new minimum', lo), ('a new maximum', hi))
            if x is not None))
        self.call('set_wavelength_limit', min_wavelength=lo or none,
                  max_wavelength=hi or none)

    def pixels(self):
        self.text.append('asked')
        self.w = number('w%d' % len(self.runs))
        return self.call('get_pixels', wavelengths=self.w)

    def what(self):
        return ', '.join(self.text)


def histories(an):
    """(description, history) ending in get_pixels."""
    for k in range(TOP + 1):
        h = History(an, symbols('c', k))
        yield h, ()
        h = History(an)
        yield h, (('model', symbols('d', k)),)
        h = History(an, symbols('c', k))
        yield h, (('pixels',), ('limits', number('a'), number('b')))
        for m in (None, 0, 1, 2, 4) if k < 5 else (5,):
            h = History(an, None if m is None else symbols('c', m))
            pre = () if m is None else (('pixels',),)
            yield h, pre + (('model', symbols('d', k)),
                            ('limits', number('a'), number('b')))
        h = History(an, symbols('c', 2))
        yield h, (('limits', number('a'), None), ('pixels',),
                  ('model', symbols('d', k)))
        h = History(an, symbols('c', k))
        yield h, (('limits', None, number('b')),)
        h = History(an, symbols('c', k))
        yield h, (('pixels',), ('limits', number('a'), None))


def play(an):
    for h, steps in histories(an):
        for s in steps:
            if h.dead():
                break
            getattr(h, s[0])(*s[1:])
        if not h.dead():
            h.pixels()
        yield h


def latest(an, R):
    """Pixels come from the latest polynomial and the latest limits."""
    order = {}
    n = 0
    for h in play(an):
        what = h.what()
        r = h.r
        if h.dead() or r.ret is None:
            R.bad('answers', '%s.get_pixels' % CLS, 'no pixels are returned '
                  'at all when ' + what, at='synthetic')
            continue
        out = strip(G.simp(r.ret, r.end.pc))
        if out.op != 'tuple' or len(out.args) != 2:
            R.unk('answers', what, 'the result is %s' % show(out, 2))
            continue
        n += 1
        j = row()
        W = Rows(arrays=())
        W.it = r.it
        W.arr[h.w.info] = True
        pix, wav = out.args
        inside(R, h, r, W, wav, j)
        inverse(R, h, r, W, pix, wav, j, order)
        fields(R, h, r)
    orders(R, order)
    if not n:
        R.unk('answers', CLS, 'no history decided')


def old(h, n):
    """Symbols of earlier settings that a value still depends on."""
    now = {x.vn for x in (h.cs or ())} | {h.lo.vn, h.hi.vn, h.w.vn}
    out = []

    def see(x):
        if x.op == 'param' and x.vn not in now and x.vn in MINE:
            out.append(x)
        return False
    MINE = mine()
    mentions(n, see)
    return out


def mine():
    r = set()
    for tag in 'cd':
        for x in symbols(tag, TOP):
            r.add(x.vn)
    for t in ['lo', 'hi', 'a', 'b'] + ['w%d' % i for i in range(9)]:
        r.add(number(t).vn)
    return r


def inside(R, h, r, W, wav, j):
    """The wavelengths returned are exactly those inside the limits."""
    what, pc = h.what(), r.end.pc
    o = old(h, G.simp(wav, pc))
    if o:
        R.bad('latest-limits', '%s.get_pixels' % CLS, 'the wavelengths '
              'returned depend on %s, which was replaced (%s)' % (
                  o[0].info, what), at='synthetic')
        return
    v = W.at(G.simp(wav, pc), j)
    cs = [c for c in cells(v, pc)]
    if not cs or len({(b.vn, k.vn) for _, b, k, _ in cs}) != 1 or \
            strip(cs[0][1]).vn != h.w.vn:
        R.unk('latest-limits', what, 'the wavelengths are %s' % show(v, 3))
        return
    w = v
    while w.op == 'wrap':
        w = w.args[0]
    if w.op != 'sub':
        R.unk('latest-limits', what, 'the wavelengths are %s' % show(v, 3))
        return
    chain, j0 = walk(W, cs[0][2])
    if any(stepkind(s) != 'mask' for s, _ in chain):
        R.unk('latest-limits', what, 'selection not understood')
        return
    f = facts(W, chain, pc)
    g = G.b.AND(G.cmp('>', w, h.lo), G.cmp('<', w, h.hi))
    if not implies(f, g):
        R.bad('inside-limits', '%s.get_pixels' % CLS, 'a wavelength not '
              'strictly inside the limits is answered: %s is all that holds '
              '(%s)' % (G.bshow(f, 2)[:200], what), at='synthetic')
    elif not implies(G.b.AND(pc, g), f):
        R.bad('inside-limits', '%s.get_pixels' % CLS, 'a wavelength inside '
              'the limits is left out (%s)' % what, at='synthetic')
    else:
        R.ok('inside-limits', what, 'exactly ' + G.bshow(g, 2)[:120])


def expand(n, d=0):
    """Sums and Horner forms over known coefficients, written out."""
    n = strip(n)
    if d > 40:
        return n
    a = tuple(expand(x, d + 1) for x in n.args) if n.op in ('bin', 'un') \
        else n.args
    if n.op == 'bin':
        return G.bin(n.info, *a)
    if n.op == 'un':
        return G.un(n.info, *a)
    if n.op == 'fn' and n.info == 'sum' and len(n.args) == 1 and strip(
            n.args[0]).op in ('list', 'tuple'):
        t = None
        for x in strip(n.args[0]).args:
            x = expand(x, d + 1)
            t = x if t is None else G.bin('+', t, x)
        return t if t is not None else G.const(0)
    if n.op in ('fn', 'call') and str(n.info).split('.')[-1] in (
            'polyval',) and len(n.args) == 2:
        c, x = n.args
        low = 'polynomial' in str(n.info)
        if low:
            c, x = x, c
        c = literal(c)
        if c is not None:
            t = G.const(0)
            for y in (c[::-1] if low else c):
                t = G.bin('+', G.bin('*', t, x), expand(y, d + 1))
            return t
    return n


def literal(c, d=0):
    c = strip(c)
    if c.op in ('list', 'tuple') and not c.kw:
        return list(c.args)
    if c.op == 'fn' and c.info in ('flip', 'reversed') and len(c.args) == 1:
        x = literal(c.args[0])
        return x and x[::-1]
    return None


def polynomial(v, x, cs):
    """'lowest', 'highest', 'both' (a constant) or False; None: unknown."""
    q = Rat(lambda y: y.vn if y.op not in ('bin', 'un', 'const', 'wrap',
                                           'fn', 'call', 'mu', 'phi')
            or y.vn == x.vn else None)
    try:
        a = q.rat(expand(v))
    except Exception:
        return None
    hit = []
    for name, c in (('lowest', cs), ('highest', cs[::-1])):
        t = G.const(0)
        for i, y in enumerate(c):
            t = G.bin('+', t, G.bin('*', y, G.bin('**', x, G.const(i))))
        if q.equal(a, q.rat(t)):
            hit.append(name)
    return ('both' if len(hit) == 2 else hit[0]) if hit else False


def inverse(R, h, r, W, pix, wav, j, order):
    """Pixels: where the latest polynomial takes these wavelengths."""
    what, pc = h.what(), r.end.pc
    k = len(h.cs) - 1
    pix = G.simp(pix, pc)
    o = old(h, pix)
    if o:
        R.bad('latest-model', '%s.get_pixels' % CLS, 'the pixels depend on '
              '%s, which was replaced (%s)' % (o[0].info, what),
              at='synthetic')
        return
    p = strip(pix)
    wrow = W.at(G.simp(wav, pc), j)
    if p.op == 'call' and str(p.info).endswith('inversefunc'):
        if len(p.args) < 2 or p.kw:
            R.unk('latest-model', what, show(p, 2))
            return
        m, arg = p.args[:2]
        x = number('x')
        ev = None
        if strip(m).op in ('lambda', 'func', 'partial'):
            ev = r.it.call(strip(m), [x], {}, r.end.copy())
        if ev is None:
            R.unk('latest-model', what, 'the model is %s' % show(m, 3))
            return
        ev = G.simp(ev, pc)
        o = old(h, ev)
        if [y for y in o if y.vn != x.vn]:
            R.bad('latest-model', '%s.get_pixels' % CLS, 'the model inverted '
                  'depends on %s, which was replaced (%s)' % (
                      o[0].info, what), at='synthetic')
            return
        got = polynomial(ev, x, h.cs)
        same = W.at(arg, j).vn == wrow.vn
        opaque = W.at(arg, j)
        if not same:
            d = cells(opaque, pc), cells(wrow, pc)
            if all(len(c) == 1 for c in d):
                R.bad('one-to-one', '%s.get_pixels' % CLS, 'the pixels are '
                      'those of %s, the wavelengths returned are %s (%s)' % (
                          show(arg, 3), show(wav, 3), what), at='synthetic')
            else:
                R.unk('one-to-one', what, show(arg, 3))
        else:
            R.ok('one-to-one', what, 'the wavelengths inverted are the '
                 'wavelengths returned')
        shown = show(ev, 6)
    else:
        e = W.at(pix, j)
        cs = {(b.vn, i.vn) for _, b, i, _ in cells(e, pc)
              if strip(b).vn == h.w.vn}
        ws = {(b.vn, i.vn) for _, b, i, _ in cells(wrow, pc)}
        if cs and len(cs) == len(ws) == 1:
            if cs != ws:
                R.bad('one-to-one', '%s.get_pixels' % CLS, 'the pixels and '
                      'the wavelengths returned are of different selections '
                      '(%s)' % what, at='synthetic')
                return
            R.ok('one-to-one', what, 'pixel j is computed from wavelength j')
        elif k > 0:
            R.unk('one-to-one', what, show(e, 4))
        if k == 0:
            got = 'both' if constant(e, h.cs[0]) else None
            if got is None and strip(e).op in ('bin', 'const', 'param'):
                got = False
        else:
            # e(w) inverts the polynomial when the polynomial of e(w) is w
            got = False
            wr = strip(wrow)
            q = Rat(lambda y: y.vn if y.op not in (
                'bin', 'un', 'const', 'wrap', 'fn', 'call', 'mu', 'phi')
                else None)
            try:
                a, b = q.rat(e), q.rat(wr)
                hit = []
                for name, c in (('lowest', h.cs), ('highest', h.cs[::-1])):
                    t = ({}, q.ONE)
                    for i, y in enumerate(c):
                        t = q.radd(t, q.rmul(q.rat(y), q.rpow(a, i)))
                    if q.equal(t, b):
                        hit.append(name)
                got = hit[0] if len(hit) == 1 else False
            except Exception:
                got = None
        shown = show(e, 6)
    if got is None:
        R.unk('latest-model', what, 'pixels %s' % shown[:300])
    elif got is False:
        R.bad('latest-model', '%s.get_pixels' % CLS, 'the pixels do not '
              'invert the polynomial of the coefficients set: %s (%s)' % (
                  shown[:200], what), at='synthetic')
    else:
        R.ok('latest-model', what, shown[:200])
        if got != 'both':
            order.setdefault(k, set()).add(got)


def constant(e, c):
    e = strip(e)
    if e.vn == c.vn:
        return True
    if e.op == 'bin' and e.info == '*':
        a, b = (strip(x) for x in e.args)
        for x, y in ((a, b), (b, a)):
            if x.vn == c.vn and one(y):
                return True
    if e.op == 'fn' and e.info in ('full', 'full_like') and len(
            e.args) > 1:
        return constant(e.args[1], c)
    if e.op == 'sub':
        x = strip(e.args[0])
        if x.op in ('fn', 'listrep', 'bin', 'list'):
            return constant(x, c) or (
                x.op == 'list' and len(x.args) == 1 and
                constant(x.args[0], c))
    if e.op == 'listrep' and len(e.args[0].args) == 1:
        return constant(e.args[0].args[0], c)
    return False


def one(y):
    return G.num(y.vn) == 1 or y.op == 'fn' and y.info in (
        'ones', 'ones_like') or y.op == 'sub' and one(strip(y.args[0]))


def orders(R, order):
    """Coefficients are listed in one order, whatever the degree."""
    for k, got in sorted(order.items()):
        name = 'degree 1' if k == 1 else 'degree %d' % k
        if got == {'lowest'}:
            R.ok('coefficient-order', name, 'lowest order first')
        elif 'highest' in got:
            R.bad('coefficient-order', 'coefficients of %s' % (
                'degree 1' if k == 1 else 'degree 2 and above'),
                'the model of %s takes its coefficients highest order '
                'first' % name, at='synthetic')


def fields(R, h, r):
    """model, degree and coefficients describe the same polynomial."""
    what, pc = h.what(), r.end.pc
    k = len(h.cs) - 1
    d = G.simp(r.final('degree', h.obj), pc)
    c = strip(G.simp(r.final('coefficients', h.obj), pc))
    if isconst(strip(d)):
        R.put(strip(d).info == k, 'same-model', '%s.degree' % CLS
              if strip(d).info != k else what,
              'degree %d' % k, 'the degree kept is %s for %d coefficients '
              '(%s)' % (show(d), k + 1, what))
    elif old(h, d):
        R.bad('same-model', '%s.degree' % CLS, 'the degree depends on a '
              'replaced model (%s)' % what, at='synthetic')
    else:
        R.unk('same-model', what, 'degree is %s' % show(d, 3))
    if c.op in ('list', 'tuple') and len(c.args) == k + 1:
        same = [x.vn for x in c.args] == [x.vn for x in h.cs]
        R.put(same, 'same-model', '%s.coefficients' % CLS
              if not same else what + ' (coefficients)',
              'as given', 'the coefficients kept are %s (%s)' % (
                  show(c, 3), what))
    elif old(h, c):
        R.bad('same-model', '%s.coefficients' % CLS, 'the coefficients kept '
              'are of a replaced model (%s)' % what, at='synthetic')
    else:
        R.unk('same-model', what, 'coefficients are %s' % show(c, 3))
    m = strip(G.simp(r.final('model', h.obj), pc))
    if m.op in ('lambda', 'func', 'partial'):
        x = number('x')
        v = G.simp(r.it.call(m, [x], {}, r.end.copy()), pc)
        o = [y for y in old(h, v) if y.vn != x.vn]
        got = polynomial(v, x, h.cs)
        if o:
            R.bad('same-model', '%s.model' % CLS, 'the model depends on %s, '
                  'which was replaced (%s)' % (o[0].info, what),
                  at='synthetic')
        elif got is False:
            R.bad('same-model', '%s.model' % CLS, 'the model is %s, not the '
                  'polynomial of the coefficients (%s)' % (
                      show(v, 5), what), at='synthetic')
        elif got:
            R.ok('same-model', what + ' (model)', show(v, 5)[:200])
        else:
            R.unk('same-model', what, 'the model is %s' % show(v, 4))
    else:
        R.unk('same-model', what, 'the model is %s' % show(m, 3))
    for a, want in (('min_wavelength', h.lo), ('max_wavelength', h.hi)):
        v = strip(G.simp(r.final(a, h.obj), pc))
        if v.vn == want.vn:
            R.ok('latest-limits', what + ' (%s)' % a, 'as last given')
        elif v.op in ('param', 'const'):
            R.bad('latest-limits', '%s.%s' % (CLS, a), 'it is %s, not what '
                  'was last given (%s)' % (show(v), what), at='synthetic')
        else:
            R.unk('latest-limits', what, '%s is %s' % (a, show(v, 3)))


def unchanged(an, R):
    """A refused call leaves the generator as it was; get_pixels always."""
    for name in ('set_model', 'set_wavelength_limit', 'get_pixels'):
        try:
            r = an.method(CLS, name)
        except Missing:
            R.bad('anchor', '%s.%s' % (CLS, name), 'the method is gone',
                  at='synthetic')
            continue
        n = bad = 0
        for e in r.evs('raise'):
            if e.caught is not None or not G.sat(e.pc):
                continue
            n += 1
            changed = []
            for k, v in e.slots.items():
                if k[0] != 'o' or k[1] != r.self.vn or k[2] == '__born__':
                    continue
                i = r.it.initial(k)
                for c, l in G.leaves(v, e.pc):
                    if l.op != 'unbound' and l.vn != i.vn and G.sat(c):
                        changed.append(k[2])
            if changed:
                bad += 1
                R.bad('refused-call', '%s of %s.%s' % (
                    ', '.join(sorted(set(changed))), CLS, name),
                    'a refused call has already replaced it', e)
        if not bad:
            R.ok('refused-call', '%s.%s' % (CLS, name), '%d refusals leave '
                 'the generator as it was' % n)
        if name == 'get_pixels' and r.end is not None:
            for a in ('min_wavelength', 'max_wavelength', 'coefficients',
                      'degree', 'model'):
                for c, l in G.leaves(r.final(a), r.end.pc):
                    if l.vn != r.init(a).vn and G.sat(c):
                        R.bad('asking-changes-nothing', '%s.%s' % (CLS, a),
                              'get_pixels replaces it', at='synthetic')
                        break
                else:
                    R.ok('asking-changes-nothing', a)


RULES = [latest, unchanged]
