"""C17: coefficients are used in the basis and order they were fitted in."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..entry import Run
from ..front import Missing
from ..interp import St
from ..q import closure, mentions, bdd_nodes
from ..ratform import Rat
from ..rows import Rows, row

NP = 'numpy.polynomial.'
# function -> (family, order, position of x, position of the coefficients)
EVAL = {NP + 'polynomial.polyval': ('power', 'lowest', 0, 1),
        NP + 'legendre.legval': ('legendre', 'lowest', 0, 1),
        NP + 'chebyshev.chebval': ('chebyshev', 'lowest', 0, 1),
        NP + 'hermite.hermval': ('hermite', 'lowest', 0, 1),
        NP + 'hermite_e.hermeval': ('hermite_e', 'lowest', 0, 1),
        NP + 'laguerre.lagval': ('laguerre', 'lowest', 0, 1),
        'numpy.polyval': ('power', 'highest', 1, 0)}
FIT = {NP + 'polynomial.polyfit': ('power', 'lowest'),
       NP + 'legendre.legfit': ('legendre', 'lowest'),
       NP + 'chebyshev.chebfit': ('chebyshev', 'lowest'),
       NP + 'hermite.hermfit': ('hermite', 'lowest'),
       NP + 'hermite_e.hermefit': ('hermite_e', 'lowest'),
       NP + 'laguerre.lagfit': ('laguerre', 'lowest'),
       'numpy.polyfit': ('power', 'highest')}
DER = {NP + 'polynomial.polyder': ('power', 'lowest'),
       NP + 'legendre.legder': ('legendre', 'lowest'),
       NP + 'chebyshev.chebder': ('chebyshev', 'lowest'),
       'numpy.polyder': ('power', 'highest')}
TYPES = {'poly': 'power', 'legendre': 'legendre', 'chebyshev': 'chebyshev'}
OTHER = {'lowest': 'highest', 'highest': 'lowest'}


def fitted(an, t):
    return an.method('Calibrator', 'fit', bind={'fit_type': G.const(t)})


def families(an, R):
    """fit() selects the fit and the evaluation of the family asked for."""
    kept = {}
    for t, fam in TYPES.items():
        r = fitted(an, t)
        for a in settled(r):
            s = strip(G.simp(r.final(a), r.end.pc))
            for tab, word in ((EVAL, 'evaluation'), (FIT, 'fit')):
                if s.op in ('ext', 'func') and str(s.info) in tab:
                    kept.setdefault(a, word)
    if not kept:
        R.unk('family', 'fit', 'no evaluation kept')
    for t, fam in TYPES.items():
        r = fitted(an, t)
        if r.end is None:
            R.unk('family', 'fit_type=%r' % t, 'fit does not return')
            continue
        for a, word in sorted(kept.items()):
            tab = EVAL if word == 'evaluation' else FIT
            what = '%s for fit_type=%r' % (word, t)
            v = G.simp(r.final(a), r.end.pc)
            for c, l in G.leaves(v, r.end.pc):
                s = strip(l)
                if not G.sat(c):
                    continue
                if s.op in ('ext', 'func') and str(s.info) in tab:
                    got = tab[str(s.info)][:2]
                    R.put(got == (fam, 'lowest'), 'family', what,
                          '%s is %s' % (a, s.info), '%s is %s' % (a, s.info))
                elif s.op == 'field' and fieldname(s) == a:
                    R.bad('family', what, '%s is kept from an earlier fit, '
                          'whatever its type' % a, at='calibrator')
                else:
                    R.unk('family', what, '%s is %s' % (a, show(s, 3)))


def settled(r):
    """Fields that hold a known function or constant after the call."""
    out = []
    if r.end is None:
        return out
    for a in r.stored():
        s = strip(G.simp(r.final(a), r.end.pc))
        if s.op in ('ext', 'func', 'lambda', 'partial') or isconst(s) and \
                isinstance(s.info, str):
            out.append(a)
    return out


def state(an, t):
    r = fitted(an, t)
    return {a: G.simp(r.final(a), r.end.pc) for a in settled(r)}


def runs(an, t):
    """Runs of the entry points on a calibrator fitted with family t."""
    yield fitted(an, t)
    vals = state(an, t)
    for f in an.entries():
        if f.name in ('__init__', 'fit') and f.cls is not None:
            continue
        try:
            r0 = an.run(f)
        except Missing:
            continue
        if not uses(r0, vals):
            continue
        s = {}
        if f.cls is not None and f.cls.name == 'Calibrator' and \
                not f.static:
            o = an.selfof('Calibrator')
            for a, v in vals.items():
                s[('o', o.vn, a)] = v
        for p, x in r0.params.items():
            if x.cls == 'Calibrator':
                for a, v in vals.items():
                    s[('o', x.vn, a)] = v
        yield Run(an, f, st=St(s, TRUE))


def uses(r, vals):
    for e in r.events:
        if e.kind == 'call' and (e.name in EVAL or e.name in FIT or
                                 str(e.name).split('.')[-1] in (
                                     'least_squares', 'poly1d')):
            return True
        if e.kind == 'dyncall' and e.a is not None and mentions(
                e.a, lambda x: x.op == 'field' and fieldname(x) in vals):
            return True
        if e.kind == 'store' and e.name == 'fit_coeff':
            return True
    return False


def fieldname(x):
    i = x.info
    return i if isinstance(i, str) else i[-1] if isinstance(
        i, tuple) else None


class Tags:
    def __init__(self, r, model):
        self.r, self.model = r, model
        self.memo = {}
        # coefficients given with a calibrator are of its family
        self.convention = r.fn.cls is not None and r.fn.cls.name == \
            'Calibrator' or any(x.cls == 'Calibrator'
                                for x in r.params.values())

    def of(self, n):
        k = n.uid
        t = self.memo.get(k)
        if t is None:
            self.memo[k] = frozenset()
            t = self.memo[k] = frozenset(self._of(n))
        return t

    def flip(self, ts):
        out = set()
        for t in ts:
            if t[0] in ('fit', 'robust', 'given', 'deriv'):
                out.add(t[:-1] + (OTHER[t[-1]],))
            else:
                out.add(t)
        return out

    def _of(self, n):
        op = n.op
        if op == 'wrap':
            return self.of(n.args[0])
        if op == 'phi':
            return self.of(n.args[0]) | self.of(n.args[1])
        if op == 'mu':
            r = self.of(n.args[0])
            return r | self.of(n.next) if n.next is not None else r
        if op == 'const':
            return {('none',)}
        if op == 'call':
            f = FIT.get(str(n.info))
            if f is not None and not (n.kw and dict(n.kw).get('full')):
                return {('fit',) + f}
            if str(n.info) in DER and n.args:
                out = set()
                fam, order = DER[str(n.info)]
                for t in self.of(n.args[0]):
                    if t[0] in ('fit', 'robust', 'given'):
                        out.add(('deriv', fam, t, order) if t[-1] == order
                                else ('wrong', 'coefficients %s order first '
                                      'differentiated as %s order first' % (
                                          t[-1], order)))
                    else:
                        out.add(('?',))
                return out
            return {('?',)}
        if op == 'attr' and n.info == 'x' and n.args and strip(
                n.args[0]).op == 'call' and str(strip(n.args[0]).info
                                                ).endswith('least_squares'):
            return {('robust', self.model)} if self.model else {('?',)}
        if op == 'update':
            return self.of(n.args[0])
        if op in ('bin', 'un'):
            out = set()
            for a in n.args:
                out |= {t for t in self.of(a) if t[0] not in (
                    'none', '?', 'given')}
            if not out:
                for a in n.args:
                    out |= {t for t in self.of(a) if t[0] == 'given'}
            return out or {('?',)}
        if op == 'sub':
            i = n.args[1]
            if i.op == 'slice':
                v = [isconst(y) and y.info for y in i.args]
                if v == [None, None, -1]:
                    return self.flip(self.of(n.args[0]))
                if v in ([None, None, None], [None, None, 1]):
                    return self.of(n.args[0])
            return {('?',)}
        if op == 'fn' and n.info in ('flip', 'reversed') and len(
                n.args) == 1:
            return self.flip(self.of(n.args[0]))
        if op in ('param', 'field'):
            return {('given', 'lowest')} if self.convention else {('any',)}
        if op in ('collect', 'list'):
            return self.derived(n)
        return {('?',)}

    def derived(self, n):
        """A list built from coefficients: their derivative?"""
        if n.op != 'collect':
            return {('?',)}
        j = row()
        v = Rows(self.r).at(n, j)
        base = {}
        for x in closure(v, gates=False):
            if x.op == 'sub' and x.args[1].op != 'slice' and mentions(
                    x.args[1], lambda z: z.vn == j.vn):
                ts = {t for t in self.of(x.args[0])
                      if t[0] in ('fit', 'robust', 'given')}
                if ts:
                    base[strip(x.args[0]).vn] = (x.args[0], ts)
        if len(base) != 1:
            return {('?',)}
        (p, ts), = base.values()
        one = G.const(1)
        nxt = G.bin('+', j, one)
        want = G.bin('*', nxt, G.raw('sub', (p, nxt)))
        q = Rat(lambda x: x.vn if x.op not in ('bin', 'un', 'const', 'wrap')
                else None)
        try:
            same = q.equal(q.rat(v), q.rat(want))
            a = counted(self.r.it, self.r.it.length(n, None))
            b = G.bin('-', self.r.it.length(p, None), one)
            sized = q.equal(q.rat(a), q.rat(b))
        except Exception:
            return {('?',)}
        if same and sized:
            return {('deriv', 'power', t, 'lowest') if t[-1] == 'lowest' else
                    ('wrong', 'coefficients highest order first '
                     'differentiated as lowest order first') for t in ts}
        if mentions(v, lambda x: x.vn == j.vn and x.op == 'row', False) and \
                v.op == 'bin':
            return {('wrong', 'coefficients times their index, but not the '
                     'derivative: entry j is %s' % show(v, 4))}
        return {('?',)}


def counted(it, n):
    """len(range(a, b)) is b - a (a list is never shorter than a)."""
    s = strip(n)
    while s.op == 'fn' and s.info == 'len' and len(s.args) == 1:
        a = strip(s.args[0])
        if a.op == 'fn' and a.info in ('range', 'arange') and \
                len(a.args) in (1, 2):
            return a.args[0] if len(a.args) == 1 else G.bin(
                '-', a.args[1], a.args[0])
        if a.op == 'fn' and a.info in ('arange',):
            break
        if a.op == 'sub' and a.args[1].op == 'slice':
            v = [isconst(y) and y.info for y in a.args[1].args]
            if isinstance(v[0], int) and v[0] >= 0 and \
                    v[1] is None and v[2] in (None, 1):
                return G.bin('-', it.length(a.args[0], None),
                             G.const(v[0] or 0))
        break
    return s


def words(t):
    return {'power': 'power-series', 'legendre': 'Legendre',
            'chebyshev': 'Chebyshev'}.get(t, t)


def judge(R, ts, fam, order, now, use, ev, text):
    """Coefficients with tags ts are used as (fam, order)."""
    good = True
    for t in sorted(ts, key=str):
        name = None
        if t[0] == 'any':
            continue
        if t[0] == 'fit':
            if t[1] != fam:
                name = '%s coefficients used as %s' % (words(t[1]),
                                                       words(fam))
            elif t[2] != order:
                name = 'coefficients %s order first used as %s order ' \
                    'first' % (t[2], order)
        elif t[0] == 'robust':
            if fam != 'power':
                # the refit is a power series whatever the family
                R.bad('basis', 'robust refit of a %s fit' % words(fam),
                      'robust_polyfit returns power-series coefficients, '
                      'which are %s as %s coefficients (%s)' % (
                          use, words(fam), text), at='calibrator')
                good = False
                continue
            if t[1] != order:
                name = 'robust coefficients %s order first used as %s ' \
                    'order first' % (t[1], order)
        elif t[0] == 'given':
            if fam != now:
                name = 'coefficients of a %s fit used as %s' % (
                    words(now), words(fam))
            elif t[1] != order:
                name = 'coefficients lowest order first used as %s order ' \
                    'first' % order
                if t[1] == 'highest':
                    name = 'reversed coefficients used as %s order first' % \
                        order
        elif t[0] == 'deriv':
            src = t[2]
            f = src[1] if src[0] == 'fit' else 'power' if src[0] == \
                'robust' else now
            if f != t[1]:
                R.bad('basis', 'derivative of a %s fit' % words(f),
                      'the coefficients of a %s fit are differentiated as '
                      'those of a %s (%s)' % (words(f), words(t[1]), text),
                      at='calibrator')
                good = False
                continue
            if t[1] != fam or t[-1] != order:
                name = 'derivative of %s coefficients used as %s' % (
                    words(t[1]), words(fam))
        elif t[0] == 'wrong':
            R.bad('derivative', 'derivative of the coefficients', t[1],
                  ev=ev)
            good = False
        elif t[0] == '?':
            R.unk('basis', text, 'origin of the coefficients')
            good = False
        if name:
            good = False
            R.bad('basis', name, '%s (%s)' % (use, text), ev=ev)
    return good


def coefficient(n, r):
    """Is the value a coefficient list, by documentation or by origin?"""
    s = strip(n)
    if s.op == 'param' and 'coeff' in str(s.info):
        return True
    if s.op == 'field' and 'coeff' in str(fieldname(s)):
        return True
    return False


def used(an, R):
    model = order_of_model(an)
    for ty, now in TYPES.items():
        n = 0
        for r in runs(an, ty):
            T = Tags(r, model)
            for e in r.events:
                if not G.sat(e.pc):
                    continue
                if e.kind == 'call' and e.name in EVAL:
                    fam, order, ix, ic = EVAL[e.name]
                    kw = dict(e.c or ())
                    if len(e.b) < 2:
                        R.unk('basis', e.fn, 'call by keywords')
                        continue
                    n += 1
                    x, c = e.b[ix], e.b[ic]
                    text = '%s, fit_type=%r' % (e.fn, ty)
                    tx = {t for t in T.of(x) if t[0] in (
                        'fit', 'robust', 'deriv')}
                    if tx or coefficient(x, r):
                        R.bad('arguments', 'coefficients evaluated at',
                              'the coefficients are passed as the position: '
                              '%s' % show(x, 3), ev=e)
                        continue
                    ts = T.of(c)
                    if judge(R, ts, fam, order, now, 'evaluated', e, text):
                        R.ok('basis', '%s line %s' % (text, e.line),
                             '%s coefficients evaluated as such' % words(
                                 fam))
                elif e.kind == 'call' and str(e.name).split('.')[-1] == \
                        'poly1d' and e.b:
                    judge(R, T.of(e.b[0]), 'power', 'highest', now,
                          'evaluated', e, '%s, fit_type=%r' % (e.fn, ty))
                elif e.kind == 'store' and e.name == 'fit_coeff' and \
                        e.a.cls == 'Calibrator':
                    ts = frozenset().union(*[
                        T.of(l) for c, l in G.leaves(e.b, e.pc)
                        if G.sat(c)] or [frozenset()])
                    n += 1
                    text = '%s stores fit_coeff, fit_type=%r' % (e.fn, ty)
                    if judge(R, ts, now, 'lowest', now, 'kept', e, text):
                        R.ok('basis', text, 'kept in the family asked for')
            intercept(R, r, T, now, ty)
        if not n:
            R.unk('basis', 'fit_type=%r' % ty, 'no evaluation found')


def intercept(R, r, T, now, ty):
    """The value at pixel 0 that is compared with the intercept limits."""
    seen = set()
    vs = set()
    for e in r.events:
        if e.kind in ('call', 'icall', 'mcall'):
            vs |= set(G.b.support(e.pc))
    for v in sorted(vs):
        pred, nodes = G.atoms[v][:2]
        if pred != 'pos' or not any(mentions(x, limit) for x in nodes):
            continue
        for x in nodes:
            for y in closure(x, gates=False):
                if y.op != 'sub' or not isconst(y.args[1]) or \
                        y.vn in seen:
                    continue
                ts = {t for t in T.of(y.args[0])
                      if t[0] in ('fit', 'robust')}
                if not ts:
                    continue
                seen.add(y.vn)
                i = y.args[1].info
                for t in ts:
                    f = t[1] if t[0] == 'fit' else 'power'
                    at0 = 0 if t[-1] == 'lowest' else -1
                    if i != at0:
                        R.bad('intercept', 'intercept of a trial fit',
                              'coefficient %s is compared with the limits '
                              'of the intercept' % i, at='calibrator')
                    elif f != 'power':
                        R.bad('intercept', 'intercept of a %s fit' %
                              words(f), 'the first %s coefficient is '
                              'compared with the limits of the value at '
                              'pixel 0' % words(f), at='calibrator')
                    else:
                        R.ok('intercept', 'fit_type=%r' % ty,
                             'value at pixel 0')


def limit(x):
    return x.op == 'field' and 'intercept' in str(fieldname(x))


# ---- the robust fit ------------------------------------------------------
def symbols(tag, k):
    out = []
    for i in range(k):
        x = G.raw('param', (), '%s%d' % (tag, i),
                  vn=G.intern(('param', 'C17' + tag, i)))
        G.notnone.add(x.vn)
        out.append(x)
    return out


class NoForm(Exception):
    pass


class Elem:
    """Element k of an array expression with n elements."""

    def __init__(self, it, n, res):
        self.it, self.n, self.res = it, n, res

    def at(self, x, k, d=0):
        if d > 200:
            raise NoForm('depth')
        if x.op == 'wrap':
            return self.at(x.args[0], k, d + 1)
        if x.op == 'attr' and x.info == 'x' and strip(
                x.args[0]).op == 'call':
            return self.res[k]
        if x.op in ('list', 'tuple') and not x.kw:
            if k >= len(x.args):
                raise NoForm('length')
            return self.flat(x.args[k], d + 1)
        if x.op == 'update':
            i = x.args[1]
            m = self.size(x.args[0])
            if isconst(i) and isinstance(i.info, int):
                j = i.info % m
                return self.flat(x.args[2], d + 1) if j == k else \
                    self.at(x.args[0], k, d + 1)
            if i.op == 'slice':
                ks = self.range(i, m)
                if k in ks:
                    if not self.array(x.args[2]):
                        return self.flat(x.args[2], d + 1)
                    return self.at(x.args[2], ks.index(k), d + 1)
                return self.at(x.args[0], k, d + 1)
            raise NoForm('update')
        if x.op == 'mu':
            return self.at(self.unroll(x), k, d + 1)
        if x.op == 'fn' and x.info == 'copy':
            return self.at(x.args[0], k, d + 1)
        if x.op == 'bin':
            return G.bin(x.info, *[self.either(a, k, d) for a in x.args])
        if x.op == 'un':
            return G.un(x.info, self.at(x.args[0], k, d + 1))
        if x.op == 'sub' and x.args[1].op == 'slice':
            ks = self.range(x.args[1], self.size(x.args[0]))
            if k >= len(ks):
                raise NoForm('slice')
            return self.at(x.args[0], ks[k], d + 1)
        if x.op == 'fn' and x.info in ('flip', 'reversed') and len(
                x.args) == 1:
            return self.at(x.args[0], self.size(x.args[0]) - 1 - k, d + 1)
        if x.op == 'fn' and x.info in ('arange', 'range') and len(
                x.args) == 1:
            return G.const(k)
        if x.op == 'fn' and x.info in ('arange', 'range') and len(
                x.args) == 3 and all(isconst(strip(a)) for a in x.args):
            return G.const(range(*[strip(a).info for a in x.args])[k])
        if x.op == 'fn' and x.info in ('ones', 'ones_like'):
            return G.const(1)
        if x.op == 'listrep' and len(x.args[0].args) == 1:
            return self.flat(x.args[0].args[0], d + 1)
        raise NoForm(x.op + ' ' + str(x.info)[:30])

    def range(self, s, m):
        v = []
        for y in s.args:
            y = strip(y)
            if not isconst(y):
                raise NoForm('slice')
            v.append(y.info)
        return list(range(m))[slice(*v)]

    def size(self, x):
        x = strip(x)
        if x.op in ('list', 'tuple') and not x.kw:
            return len(x.args)
        if x.op in ('update', 'mu') or x.op == 'fn' and x.info in (
                'copy', 'flip', 'reversed'):
            return self.size(x.args[0])
        if x.op == 'attr' and x.info == 'x':
            return len(self.res)
        if x.op == 'sub' and x.args[1].op == 'slice':
            return len(self.range(x.args[1], self.size(x.args[0])))
        if x.op in ('bin', 'un'):
            for a in x.args:
                if self.array(a):
                    return self.size(a)
        return self.n

    def unroll(self, x):
        """The list a loop over the fitted values leaves."""
        nx = x.next and strip(x.next)
        if nx is None or nx.op != 'update' or nx.args[0].vn != x.vn:
            raise NoForm('loop')
        its = {y.vn: y for a in nx.args[1:] for y in closure(a, gates=False)
               if y.op == 'iota'}
        if len(its) != 1:
            raise NoForm('loop')
        (i,) = its
        out = x.args[0]
        for t in range(len(self.res)):
            m = {i: G.const(t), x.vn: out}
            out = G.raw('update', (out, strip(self.it.subst(nx.args[1], m)),
                                   self.it.subst(nx.args[2], m)))
        return out

    def array(self, x):
        x = strip(x)
        if x.op in ('list', 'tuple', 'update', 'listrep', 'mu'):
            return True
        if x.op == 'attr':
            return x.info == 'x'
        if x.op in ('bin', 'un'):
            return any(self.array(a) for a in x.args)
        if x.op == 'sub':
            return x.args[1].op == 'slice' and self.array(x.args[0])
        return x.op == 'fn' and x.info in (
            'arange', 'range', 'flip', 'ones', 'ones_like', 'reversed',
            'copy')

    def either(self, a, k, d):
        return self.at(a, k, d + 1) if self.array(a) else \
            self.flat(a, d + 1)

    def flat(self, x, d=0):
        if d > 200:
            raise NoForm('depth')
        s = strip(x)
        if s.op == 'sub' and isconst(s.args[1]) and self.array(s.args[0]):
            i = s.args[1].info
            if not isinstance(i, int):
                raise NoForm('index')
            return self.at(s.args[0], i % self.size(s.args[0]), d + 1)
        if s.op == 'bin':
            return G.bin(s.info, *[self.flat(a, d + 1) for a in s.args])
        if s.op == 'un':
            return G.un(s.info, self.flat(s.args[0], d + 1))
        if s.op in ('phi', 'mu', 'collect'):
            raise NoForm(s.op)
        return s


def expand(v):
    from .c27 import expand as e
    return e(v)


def cost_model(an, r, fit, cs, x):
    """The function fitted, at x, for coefficients cs (target subtracted)."""
    kw = dict(fit.kw or ())
    args = strip(kw['args']) if 'args' in kw else None
    if args is None or args.op != 'tuple':
        raise NoForm('arguments of the cost function')
    lst = G.raw('list', tuple(cs))
    f = strip(fit.args[0])
    return r.it.call(f, [lst] + list(args.args), {}, r.end.copy()), args.args


def robust_cases(an, top=5):
    for d in range(1, top + 1):
        for given in (False, True):
            b = {'degree': G.const(d)}
            cs = symbols('s', d + 1)
            b['x0'] = G.raw('list', tuple(cs)) if given else G.const(None)
            yield d, given, cs, an.func('models', 'robust_polyfit', bind=b)


def ratio(q, x, xn):
    a, b = q.rat(x), q.rat(xn)
    return q.rdiv(a, b)


def order_of_model(an):
    """Order of the coefficients the cost function of the robust fit takes."""
    try:
        for d, given, cs, r in robust_cases(an, 2):
            if d != 2:
                continue
            for fit in fits(r):
                return analyse(an, r, fit, d)[1]
    except (NoForm, Missing, TypeError):
        return None
    return None


def fits(r):
    out = []
    if r.ret is None:
        return out
    for x in closure(r.ret):
        if x.op == 'call' and str(x.info).endswith('least_squares') and \
                x.vn not in [y.vn for y in out]:
            out.append(x)
    return out


def analyse(an, r, fit, d):
    """(scales of x and y, order, q) of the model that is fitted."""
    res = symbols('r', d + 1)
    v, args = cost_model(an, r, fit, res, None)
    x, y = r.p('x'), r.p('y')
    xn = [a for a in args if mentions(a, lambda z: z.vn == x.vn) and
          not mentions(a, lambda z: z.vn == y.vn)]
    yn = [a for a in args if mentions(a, lambda z: z.vn == y.vn) and
          not mentions(a, lambda z: z.vn == x.vn)]
    if len(xn) != 1 or len(yn) != 1:
        raise NoForm('data of the cost function')
    q = Rat(lambda z: z.vn if z.op not in (
        'bin', 'un', 'const', 'wrap', 'phi', 'mu') else None)
    try:
        sx, sy = ratio(q, x, xn[0]), ratio(q, y, yn[0])
        got = q.rat(expand(v))
        hits = []
        for name, c in (('lowest', res), ('highest', res[::-1])):
            t = G.const(0)
            for i, z in enumerate(c):
                t = G.bin('+', t, G.bin('*', z, G.bin(
                    '**', xn[0], G.const(i))))
            for s in (1, -1):
                w = G.bin('-', yn[0], t) if s == 1 else G.bin(
                    '-', t, yn[0])
                if q.equal(got, q.rat(w)):
                    hits.append(name)
    except ValueError as e:
        raise NoForm(str(e))
    return (sx, sy), hits[0] if hits else None, q, res


def robust(an, R):
    """Coefficients of the robust fit: those of the data as given."""
    try:
        cs = list(robust_cases(an))
    except Missing as e:
        R.unk('robust-fit', 'robust_polyfit', str(e))
        return
    for d, given, c0, r in cs:
        what = 'degree %d%s' % (d, ', initial coefficients given'
                                if given else '')
        fs = fits(r)
        if r.ret is None or len(fs) != 1:
            R.unk('robust-fit', what, 'fit not found')
            continue
        fit = fs[0]
        try:
            (sx, sy), order, q, res = analyse(an, r, fit, d)
        except (NoForm, TypeError) as e:
            R.unk('robust-fit', what, 'cost function: %s' % e)
            continue
        if order is None:
            R.bad('robust-fit', 'cost function of robust_polyfit', 'it is '
                  'not the difference of the data and a polynomial of '
                  'degree %d' % d, at='models')
            continue
        R.ok('robust-fit', what + ', model', 'a polynomial, %s order first' %
             order)
        E = Elem(r.it, d + 1, res)
        bad = None
        try:
            for k in range(d + 1):
                got = q.rat(E.at(r.ret, k))
                rk = res[k if order == 'lowest' else d - k]
                # y/sy = sum r_i (x/sx)^i
                want = q.rdiv(q.rmul(q.rat(rk), sy), q.rpow(sx, k))
                if not q.equal(got, want):
                    bad = k, E.at(r.ret, k)
                    break
        except (NoForm, ValueError) as e:
            R.unk('robust-fit', what, 'coefficients returned: %s' % e)
            continue
        if bad:
            R.bad('robust-fit', 'coefficients returned by robust_polyfit',
                  'coefficient %d is %s, which is not the coefficient of '
                  'x**%d of the fit (%s)' % (bad[0], show(bad[1], 5), bad[0],
                                             what), at='models')
        else:
            R.ok('robust-fit', what + ', result', 'coefficient k is that of '
                 'x**k of the data as given')
        if not given:
            continue
        # the initial coefficients, lowest order first, in the same scale
        if len(fit.args) < 2:
            R.unk('robust-start', what, 'no initial coefficients')
            continue
        E = Elem(r.it, d + 1, res)
        try:
            for k in range(d + 1):
                i = k if order == 'lowest' else d - k
                got = q.rat(E.at(fit.args[1], i))
                want = q.rdiv(q.rmul(q.rat(c0[k]), q.rpow(sx, k)), sy)
                if not q.equal(got, want):
                    R.bad('robust-start', 'initial coefficients of '
                          'robust_polyfit', 'entry %d the fit starts from is '
                          '%s, which is not coefficient %d of x0 in the '
                          'scale of the fit' % (i, show(E.at(
                              fit.args[1], i), 5), k), at='models')
                    break
            else:
                R.ok('robust-start', what, 'x0, lowest order first')
        except (NoForm, ValueError) as e:
            R.unk('robust-start', what, str(e))


# ---- the adjustment of the coefficients ----------------------------------
def adjusted(an, R):
    """match_peaks keeps the coefficients the adjustment was judged on."""
    f = an.prog.method('Calibrator', 'match_peaks')
    vals = state(an, 'poly')
    o = an.selfof('Calibrator')
    for k in (3, 4):
        what = '%d of 4 coefficients adjusted' % k
        cs, ds = symbols('c', 4), symbols('d', k)
        r = Run(an, f, st=St({('o', o.vn, a): v for a, v in vals.items()},
                             TRUE),
                bind={'fit_coeff': G.raw('list', tuple(cs)),
                      'refine': G.const(True), 'n_delta': G.const(k),
                      'robust_refit': G.const(False)})
        ms = [e for e in r.events if e.kind == 'call' and
              str(e.name).startswith('scipy.optimize') and G.sat(e.pc) and
              e.b]
        if len(ms) != 1:
            R.unk('adjustment', what, 'no minimisation found')
            continue
        m = ms[0]
        a = dict(m.c or {}).get('args')
        a = strip(a) if a is not None else G.raw('tuple', ())
        end = m.res
        try:
            v = r.it.call(strip(m.b[0]), [G.wrap(
                'array', G.raw('list', tuple(ds)), None)] +
                          list(a.args), {}, r.end.copy())
            E = Elem(r.it, 4, ds)
            q = Rat(lambda z: z.vn if z.op not in (
                'bin', 'un', 'const', 'wrap') else None)
            tried = {tuple(rkey(q, E.at(x.args[EVAL[str(x.info)][3]], i))
                           for i in range(4)): x for x in closure(v)
                     if x.op == 'call' and str(x.info) in EVAL}
            kept = {}
            for e in r.events:
                if e.kind == 'call' and e.name in EVAL and G.sat(e.pc):
                    c = e.b[EVAL[e.name][3]]
                    if not mentions(c, lambda z: z is end or z.vn == (
                            end.vn if end is not None else None)):
                        continue
                    if mentions(c, lambda z: z.op == 'call' and str(z.info)
                                in FIT):
                        continue
                    kept[tuple(rkey(q, E.at(c, i)) for i in range(4))] = c
        except (NoForm, ValueError, TypeError) as x:
            R.unk('adjustment', what, str(x))
            continue
        if len(tried) != 1 or len(kept) != 1:
            R.unk('adjustment', what, '%d forms judged, %d kept' % (
                len(tried), len(kept)))
            continue
        (a, x), = tried.items()
        (b, y), = kept.items()
        if a == b:
            R.ok('adjustment', what, 'the coefficients kept are those '
                 'judged')
        else:
            i = [i for i in range(4) if a[i] != b[i]][0]
            R.bad('adjustment', 'coefficients match_peaks keeps after an '
                  'adjustment', 'coefficient %d is %s, the minimisation '
                  'judged %s' % (i, show(E.at(y, i), 4), show(E.at(
                      x.args[EVAL[str(x.info)][3]], i), 4)),
                  at='calibrator')


def rkey(q, n):
    return tuple(frozenset(p.items()) for p in q.rat(n))


RULES = [families, used, robust, adjusted]
