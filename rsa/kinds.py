"""Physical kinds of values: a units inference over the extracted values.

A type is one of
  ('u', units)    a value, or an array of values, of one of the given units;
                  no unit: a bare number, a count, an index, anything
  ('row', types)  a tuple: entry k has type k
  ('tab', types)  rows of a table: column k has type k
  ('list', type)  a list of such values
  ('spl', x, y, z), ('hull', type)   an interpolator, a hull of points
  None            not known
A unit is a tuple of (base, exponent), or ('coef', out, in).
"""
from fractions import Fraction

from .core import G, TRUE, strip, isconst
from .interp import fullslice

BOT = ('u', frozenset())


def unit(**kw):
    return tuple(sorted((k, Fraction(v)) for k, v in kw.items() if v))


P, W, I = unit(P=1), unit(W=1), unit(I=1)
D = unit(W=1, P=-1)
NAMES = {P: 'pixel', W: 'wavelength', D: 'dispersion', I: 'intensity',
         unit(K=1): 'temperature', unit(Pa=1): 'pressure',
         unit(RH=1): 'humidity', unit(E=1): 'element'}
BASE = {P, W, D, I}


def U(*us):
    return ('u', frozenset(us))


def coef(out=W, inn=P):
    return ('coef', out, inn)


def name(u):
    if u and u[0] == 'coef':
        return 'coefficients'
    if u in NAMES:
        return NAMES[u]
    return '*'.join(k if e == 1 else '%s^%s' % (k, e) for k, e in u) or '1'


def names(t):
    if t is None:
        return '?'
    if t[0] == 'u':
        return '/'.join(sorted(name(u) for u in t[1])) or 'number'
    if t[0] in ('row', 'tab'):
        return '(%s)' % ', '.join(names(x) for x in t[1])
    return str(t[0])


def umul(a, b, s=1):
    if a and a[0] == 'coef' or b and b[0] == 'coef':
        return None
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + s * e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def join(a, b):
    if a == b:
        return a
    if a == BOT:
        return b
    if b == BOT:
        return a
    if a is None or b is None:
        return None
    if a[0] == b[0] == 'u':
        return ('u', a[1] | b[1])
    if a[0] == b[0] and a[0] in ('row', 'tab') and len(a[1]) == len(b[1]):
        return (a[0], tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if a[0] == b[0] == 'list':
        return ('list', join(a[1], b[1]))
    if a[0] == 'list' and b[0] == 'row' and not b[1]:
        return a
    if b[0] == 'list' and a[0] == 'row' and not a[1]:
        return b
    return None


def joins(ts):
    r = BOT
    for t in ts:
        r = join(r, t)
    return r


def elem(t):
    """Type of one entry of a sequence."""
    if t is None:
        return None
    if t[0] == 'u':
        return t
    if t[0] == 'list':
        return t[1]
    if t[0] == 'tab':
        return ('row', t[1])
    if t[0] == 'row':
        return joins(t[1])
    return None


def many(t):
    """A sequence of values of type t."""
    if t is None or t[0] == 'u':
        return t
    if t[0] == 'row':
        return ('tab', t[1])
    return ('list', t)


def clash(a, b):
    """Both are known, and can never be of the same kind."""
    if a is None or b is None:
        return False
    if a[0] == b[0] == 'u':
        return bool(a[1]) and bool(b[1]) and not a[1] & b[1]
    if a[0] in ('row', 'tab') and b[0] in ('row', 'tab'):
        return len(a[1]) == len(b[1]) and any(
            clash(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == b[0] == 'list':
        return clash(a[1], b[1])
    return False


def known(t):
    if t is None or t == BOT:
        return False
    if t[0] in ('row', 'tab'):
        return any(known(x) for x in t[1])
    if t[0] == 'list':
        return known(t[1])
    return True


# element by element, or a reduction: the kind stays
SAME = {'abs', 'sort', 'unique', 'reversed', 'copy', 'flatten', 'ravel',
        'delete', 'compress', 'tile', 'repeat', 'roll', 'atleast_1d',
        'squeeze', 'iter', 'flat', 'min', 'max', 'nanmin', 'nanmax',
        'round', 'floor', 'ceil', 'around', 'clip', 'mean', 'median', 'sum',
        'nansum', 'nanmean', 'nanmedian', 'cumsum', 'diff', 'ptp', 'std',
        'nanstd', 'average', 'nan_to_num', 'percentile', 'nanpercentile',
        'quantile', 'rint', 'trunc', 'astype', 'flip', 'squeeze', 'fabs',
        'median_low', 'amin', 'amax', 'quantile', 'flipud', 'ediff1d'}
FREE = {'len', 'argmin', 'argmax', 'argsort', 'nonzero', 'flatnonzero',
        'argwhere', 'isfinite', 'isnan', 'exp', 'log', 'log10', 'any', 'all',
        'zeros', 'ones', 'zeros_like', 'ones_like', 'empty', 'empty_like',
        'range', 'searchsorted', 'digitize', 'isin', 'isclose', 'allclose',
        'str', 'format', 'bincount', 'count_nonzero', 'array_equal',
        'hash', 'unravel_index', 'ravel_multi_index', 'type', 'sign', 'shape', 'size', 'full_like2'}
ALIKE = {'minimum', 'maximum', 'isclose', 'searchsorted', 'isin', 'digitize',
         'allclose', 'intersect1d', 'union1d', 'setdiff1d', 'linspace',
         'arange', 'clip', 'hypot'}


class Kinds:
    def __init__(self, run, roots, overrides=None):
        self.it, self.run, self.roots = run.it, run, roots
        self.over = overrides or {}
        self.mus = {}
        self.memo = {}
        self.busy = set()
        self.changed = False

    def settle(self, nodes):
        """Types of all nodes, loops followed until nothing changes."""
        for _ in range(8):
            self.memo = {}
            self.changed = False
            for n in nodes:
                self.of(n)
            for n in list(self.todo.values()) if self.mus else ():
                t = join(self.of(n.args[0]), self.of(n.next)
                         if n.next is not None else None)
                if t != self.mus.get(n.uid, BOT):
                    self.mus[n.uid] = join(self.mus.get(n.uid, BOT), t)
                    self.changed = True
            if not self.changed:
                return
        for k in self.mus:
            self.mus[k] = None
        self.memo = {}

    todo = None

    def of(self, n, d=0):
        k = n.uid
        if k in self.memo:
            return self.memo[k]
        if k in self.busy or d > 150:
            return None
        self.busy.add(k)
        try:
            t = self.over.get(k, 0)
            if t == 0:
                t = self._of(n, d + 1)
        finally:
            self.busy.discard(k)
        self.memo[k] = t
        return t

    def _of(self, n, d):
        op, a = n.op, n.args
        of = self.of
        if op == 'wrap':
            return of(a[0], d)
        if op == 'const':
            return BOT
        if op == 'phi':
            return join(of(a[0], d), of(a[1], d))
        if op == 'mu':
            if self.todo is None:
                self.todo = {}
            self.todo[n.uid] = n
            if n.uid not in self.mus:
                self.mus[n.uid] = of(a[0], d)
                self.changed = True
            return self.mus[n.uid]
        if op in ('param', 'field', 'attr'):
            t = self.roots(n, self)
            if t != 0:
                return t
            if op == 'attr':
                if n.info in ('T', 'real') and a:
                    return flip(of(a[0], d))
                if n.info in ('shape', 'size', 'ndim'):
                    return BOT
            return None
        if op == 'ext':
            last = str(n.info).split('.')[-1]
            if last in ('polyval', 'legval', 'chebval') and str(
                    n.info) != 'numpy.polyval':
                return ('polyval',)
            if last in ('polyfit', 'legfit', 'chebfit'):
                return ('polyfit',)
            return None
        if op in ('bool', 'iota', 'rowindex'):
            return BOT
        if op in ('tuple', 'list', 'set'):
            if n.kw:
                return None
            ts = [of(x, d) for x in a]
            if not ts:
                return BOT
            if op == 'list' and ts and all(
                    t is not None and t[0] == 'u' for t in ts):
                r = joins(ts)
                if len(r[1]) <= 1:
                    return r
            if op == 'set':
                return many(joins(ts))
            return ('row', tuple(ts))
        if op == 'collect' or op == 'collectcat':
            e = of(a[0], d)
            if op == 'collectcat':
                return e if e is None or e[0] != 'row' else many(joins(e[1]))
            c = derived(a[0], self, d)
            return c or many(e)
        if op == 'listrep':
            t = of(a[0], d)
            if t is not None and t[0] == 'row':
                return many(joins(t[1]))
            return t
        if op in ('append', 'mut', 'extend', 'concat'):
            x = of(a[0], d)
            if op == 'mut' and n.info in ('sort', 'reverse', 'pop', 'remove',
                                          'clear'):
                return x
            if len(a) < 2:
                return None
            y = of(a[-1], d)
            if x is not None and x[0] == 'row':
                x = many(joins(x[1]))
            if op in ('append', 'mut'):
                y = many(y)
            elif y is not None and y[0] == 'row':
                y = many(joins(y[1]))
            return join(x, y)
        if op == 'update':
            if len(a) != 3:
                return None
            return self.update(n, d)
        if op == 'rnd':
            if n.info.split('.')[-1] in ('choice', 'permutation', 'sample',
                                         'shuffled'):
                t = of(a[0], d)
                return many(joins(t[1])) if t is not None and \
                    t[0] == 'row' else t
            if n.info.split('.')[-1] in ('random', 'rand', 'random_sample'):
                return BOT
            if n.info.split('.')[-1] == 'uniform':
                return joins(of(x, d) for x in a[:2])
            return None
        if op == 'sub':
            return self.item(n, d)
        if op == 'un':
            return of(a[0], d) if n.info in ('-', '+') else BOT
        if op == 'bin':
            return self.arith(n.info, of(a[0], d), of(a[1], d), a)
        if op == 'fn':
            return self.func(n, d)
        if op in ('call', 'dyncall', 'mcall'):
            return self.ext(n, d)
        if op in ('dictcollect',):
            return many(of(a[1], d))
        return None

    def update(self, n, d):
        x, i, v = n.args
        t, e = self.of(x, d), self.of(v, d)
        if t is not None and t[0] in ('row', 'tab'):
            k = strip(i)
            if t[0] == 'tab' and k.op == 'tuple' and len(k.args) == 2:
                k = strip(k.args[1])
            elif t[0] == 'tab':
                return t
            if isconst(k) and isinstance(k.info, int) and \
                    -len(t[1]) <= k.info < len(t[1]):
                ts = list(t[1])
                ts[k.info] = e
                return (t[0], tuple(ts))
            return None
        if t is not None and t[0] == 'u' and any(
                x and x[0] == 'coef' for x in t[1]):
            return t            # coefficients, some of them adjusted
        return join(t, e)

    def item(self, n, d):
        x, i = n.args
        t = self.of(x, d)
        if t is None:
            return None
        i = strip(i)
        if t[0] == 'u':
            for u in t[1]:
                if u and u[0] == 'coef':
                    return U(u[1]) if isconst(i) and i.info == 0 else (
                        t if i.op == 'slice' and fullslice(i) else None)
            return t
        whole = i.op in ('slice', 'bool', 'collect') or i.op == 'fn' and \
            i.info in ('nonzero', 'flatnonzero', 'argsort', 'sort', 'where',
                       'unique', 'argwhere')
        if t[0] == 'row':
            if isconst(i) and isinstance(i.info, int) and \
                    not isinstance(i.info, bool):
                return t[1][i.info] if -len(t[1]) <= i.info < len(
                    t[1]) else None
            if i.op == 'slice':
                v = [isconst(strip(y)) and strip(y).info for y in i.args]
                if all(y is None or type(y) is int for y in v):
                    return ('row', t[1][slice(*v)])
            if i.op == 'tuple' and i.args and isconst(strip(i.args[0])):
                k = strip(i.args[0]).info
                if isinstance(k, int) and -len(t[1]) <= k < len(t[1]):
                    return t[1][k]
            r = joins(t[1])
            return many(r) if whole else r
        if t[0] == 'tab':
            if i.op == 'tuple' and len(i.args) == 2:
                k = strip(i.args[1])
                if isconst(k) and isinstance(k.info, int) and \
                        -len(t[1]) <= k.info < len(t[1]):
                    return t[1][k.info]
                if k.op == 'slice' and fullslice(k):
                    return t if self.several(i.args[0]) else ('row', t[1])
                if k.op == 'slice':
                    v = [isconst(strip(y)) and strip(y).info
                         for y in k.args]
                    if all(y is None or type(y) is int for y in v):
                        ts = t[1][slice(*v)]
                        return ('tab', ts)
                return None
            return t if self.several(i) else ('row', t[1])
        if t[0] == 'list':
            return t if self.several(i) else t[1]
        return None

    def several(self, i):
        i = strip(i)
        return i.op in ('slice', 'bool', 'collect', 'list') or \
            i.op == 'fn' and i.info not in ('argmin', 'argmax', 'len', 'sum',
                                            'max', 'min', 'int') or \
            i.op == 'sub' and self.several(i.args[0]) and not isconst(
                strip(i.args[1])) or \
            i.op == 'sub' and strip(i.args[0]).op == 'fn' and strip(
                i.args[0]).info in ('nonzero', 'unique', 'where')

    def arith(self, op, s, t, a=None):
        if s is None or t is None or s[0] != 'u' or t[0] != 'u':
            # a column added to each row, and so on: not followed
            if op in ('+', '-') and s is not None and t is not None:
                if s == BOT:
                    return t
                if t == BOT:
                    return s
            return None
        x, y = s[1], t[1]
        if op in ('+', '-'):
            if not x or not y:
                # a bare number next to an uncommon unit may carry one
                u = x or y
                return ('u', u) if all(
                    v in BASE or v[:1] == ('coef',) for v in u) else None
            return ('u', x | y)
        if op in ('*', '/', '//'):
            if not x and not y:
                return BOT
            if not x and op != '*':
                return None     # the number may stand for a quantity
            sg = 1 if op == '*' else -1
            out = set()
            for u in x or [()]:
                for v in y or [()]:
                    w = umul(u, v, sg)
                    if w is None:
                        return None
                    if w:
                        out.add(w)
                    elif len(x) > 1 or len(y) > 1:
                        return None
            return ('u', frozenset(out))
        if op == '**':
            if not x:
                return BOT
            e = strip(a[1]) if a else None
            if e is None or not isconst(e) or not isinstance(
                    e.info, (int, float)):
                return None
            return self.power(s, Fraction(e.info).limit_denominator(12))
        if op == '%':
            return s
        return BOT if op in ('&', '|', '^') else None

    def power(self, s, e):
        if s is None or s[0] != 'u':
            return None
        out = set()
        for u in s[1]:
            if u and u[0] == 'coef':
                return None
            out.add(tuple((k, v * e) for k, v in u if v * e))
        return ('u', frozenset(u for u in out if u))

    def func(self, n, d):
        f, a = n.info, n.args
        of = self.of
        if f == 'T' and a:
            return flip(of(a[0], d))
        if f in ('full', 'full_like') and len(a) > 1:
            return of(a[1], d)
        if f == 'sqrt' and a:
            return self.power(of(a[0], d), Fraction(1, 2))
        if f in ('square', 'var') and a:
            return self.power(of(a[0], d), Fraction(2))
        if f in ('int', 'float'):
            return of(a[0], d) if a else BOT
        if f in ('min', 'max') and len(a) > 1:
            return joins(of(x, d) for x in a)
        if f in SAME and a:
            t = of(a[0], d)
            if f in ('min', 'max', 'sum', 'mean', 'median') and \
                    t is not None and t[0] in ('row', 'list'):
                return elem(t)
            if f in ('sort', 'unique', 'copy', 'delete', 'round', 'repeat',
                     'astype', 'iter', 'atleast_1d') or \
                    t is None or t[0] == 'u':
                return t
            return None
        if f in FREE:
            return BOT
        if f in ('where', 'where3') and len(a) == 3:
            return join(of(a[1], d), of(a[2], d))
        if f == 'where':
            return BOT
        if f in ALIKE:
            return joins(of(x, d) for x in a[:2])
        if f == 'reshape' and a:
            return of(a[0], d)
        if f in ('column_stack', 'dstack') and len(a) == 1:
            t = of(a[0], d)
            x = strip(a[0])
            if t is not None and t[0] == 'row' and f == 'column_stack' and \
                    all(y is not None and y[0] == 'u' for y in t[1]):
                return ('tab', t[1])
            if t is not None and t[0] == 'u' and x.op in ('list', 'tuple') \
                    and not x.kw and f == 'column_stack':
                return ('tab', tuple(of(y, d) for y in x.args))
            return t if t is not None and t[0] == 'u' else None
        if f in ('vstack', 'hstack', 'concatenate', 'append', 'stack',
                 'insert'):
            if f == 'append' and len(a) > 1:
                return join(of(a[0], d), of(a[1], d))
            if f == 'insert' and len(a) > 2:
                return join(of(a[0], d), of(a[2], d))
            if not a:
                return None
            t = of(a[0], d)
            if f == 'stack' or f == 'vstack' and t is not None and \
                    t[0] == 'row' and all(y is not None and y[0] == 'u'
                                          for y in t[1]):
                return t
            return elem(t)
        if f == 'zip':
            if len(a) == 1 and a[0].op == 'star':
                t = of(a[0].args[0], d)
                return ('row', t[1]) if t is not None and t[0] == 'tab' \
                    else None
            return ('tab', tuple(elem(of(x, d)) for x in a))
        if f == 'product':
            if any(x.op == 'star' for x in a):
                return None
            return ('tab', tuple(elem(of(x, d)) for x in a))
        if f == 'enumerate' and a:
            return ('tab', (BOT, elem(of(a[0], d))))
        if f in ('outer', 'multiply', 'dot', 'inner', 'convolve') and \
                len(a) > 1:
            return self.arith('*', of(a[0], d), of(a[1], d))
        if f == 'interp' and len(a) > 2:
            return of(a[2], d)
        if f == 'histogram2d' and len(a) > 1:
            return ('row', (BOT, of(a[0], d), of(a[1], d)))
        if f == 'histogram' and a:
            return ('row', (BOT, of(a[0], d)))
        if f in ('add', 'subtract', 'divide', 'power') and len(a) > 1:
            return self.arith({'add': '+', 'subtract': '-', 'divide': '/',
                               'power': '**'}[f], of(a[0], d), of(a[1], d),
                              a)
        if f == 'gradient' and a:
            if len(a) > 1:
                return self.arith('/', of(a[0], d), of(a[1], d))
            return of(a[0], d)
        return None

    def ext(self, n, d):
        of = self.of
        s = str(n.info)
        last = s.split('.')[-1].split(':')[-1]
        a = n.args
        if n.op == 'dyncall':
            f = of(a[0], d)
            if f is not None and f[0] == 'spl':
                return f[3]
            b = strip(a[0])
            if f is not None and f[0] == 'polyval':
                last = 'polyval'
            elif f is not None and f[0] == 'polyfit':
                last = 'polyfit'
            elif f is not None and f[0] == 'pix':
                return f[1]
            else:
                last = ''
            a = a[1:]
        if last in ('polyval', 'legval', 'chebval', 'hermval') and len(
                a) >= 2:
            x, c = (a[0], a[1]) if s != 'numpy.polyval' else (a[1], a[0])
            return value(of(x, d), of(c, d))
        if last in ('polyfit', 'legfit', 'chebfit', 'hermfit') and len(
                a) >= 2:
            x, y = of(a[0], d), of(a[1], d)
            if x is None or y is None or x[0] != 'u' or y[0] != 'u' or len(
                    x[1]) != 1 or len(y[1]) != 1:
                return None
            return U(('coef',) + tuple(y[1]) + tuple(x[1]))
        if last in ('polyder', 'legder', 'chebder') and a:
            return deriv(of(a[0], d))
        if last in ('RectBivariateSpline',) and len(a) >= 3:
            return ('spl', of(a[0], d), of(a[1], d), of(a[2], d))
        if last in ('Delaunay', 'ConvexHull') and a:
            return ('hull', many(elem(of(a[0], d))))
        if last in ('find_simplex',):
            return BOT
        if last in ('loadtxt', 'genfromtxt', 'read_csv') and a:
            return self.roots(n, self) or None
        if last in ('ev', '__call__') and a:
            f = of(a[0], d)
            if f is not None and f[0] == 'spl':
                return f[3]
        if n.op == 'mcall' or s.startswith('mcall:'):
            return None
        return None


def flip(t):
    if t is None or t[0] == 'u':
        return t
    if t[0] == 'tab':
        return ('row', t[1])
    if t[0] == 'row' and all(x is not None and x[0] == 'u' for x in t[1]):
        return ('tab', t[1])
    return None


def value(x, c):
    if c is None or c[0] != 'u' or len(c[1]) != 1:
        return None
    (u,) = c[1]
    return U(u[1]) if u and u[0] == 'coef' else None


def deriv(c):
    if c is None or c[0] != 'u' or len(c[1]) != 1:
        return None
    (u,) = c[1]
    if not u or u[0] != 'coef':
        return None
    w = umul(u[1], u[2], -1)
    return U(('coef', w, u[2]))


def derived(e, K, d):
    """The entries are coefficients times their index: a derivative."""
    e = strip(e)
    if e.op != 'bin' or e.info != '*':
        return None
    for x, y in (e.args, e.args[::-1]):
        s = strip(x)
        if s.op == 'sub' and not isconst(s.args[1]) and strip(y).op in (
                'bin', 'iota'):
            t = K.of(s.args[0], d)
            r = deriv(t)
            if r is not None:
                return r
    return None
