"""Value graph, value numbering and path conditions.

Values are immutable Node objects.  Object identity of a Node stands for the
identity of the run-time object it denotes (aliasing); Node.vn is a value
number: equal numbers mean "same value" under the algebraic and numpy
normalisations below.  Conditions are ROBDDs over atoms (comparisons in
polynomial normal form, None tests, type tests, ...).
"""
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)

TRUE, FALSE = 1, 0


class BDD:
    def __init__(self):
        self.nodes = [None, None]      # id -> (var, lo, hi)
        self.uniq = {}
        self.memo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = r
        return r

    def var(self, v):
        return self.mk(v, 0, 1)

    def top(self, f):
        return self.nodes[f][0] if f > 1 else 1 << 60

    def cof(self, f, v):
        if f > 1 and self.nodes[f][0] == v:
            return self.nodes[f][1], self.nodes[f][2]
        return f, f

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = ('i', f, g, h)
        r = self.memo.get(k)
        if r is None:
            v = min(self.top(f), self.top(g), self.top(h))
            f0, f1 = self.cof(f, v)
            g0, g1 = self.cof(g, v)
            h0, h1 = self.cof(h, v)
            r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
            self.memo[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def restrict(self, f, c):
        """Simplify f using the care set c (Coudert-Madre restrict)."""
        if c == 1 or f <= 1 or c == 0:
            return f
        k = ('r', f, c)
        r = self.memo.get(k)
        if r is None:
            vf, vc = self.top(f), self.top(c)
            if vc < vf:
                c0, c1 = self.cof(c, vc)
                r = self.restrict(f, self.OR(c0, c1))
            else:
                f0, f1 = self.cof(f, vf)
                c0, c1 = self.cof(c, vf)
                if c0 == 0:
                    r = self.restrict(f1, c1)
                elif c1 == 0:
                    r = self.restrict(f0, c0)
                else:
                    r = self.mk(vf, self.restrict(f0, c0),
                                self.restrict(f1, c1))
            self.memo[k] = r
        return r

    def support(self, f):
        k = ('s', f)
        r = self.memo.get(k)
        if r is None:
            if f <= 1:
                r = frozenset()
            else:
                v, lo, hi = self.nodes[f]
                r = self.support(lo) | self.support(hi) | {v}
            self.memo[k] = r
        return r

    def exists(self, f, vs):
        if f <= 1 or not (self.support(f) & vs):
            return f
        k = ('e', f, vs)
        r = self.memo.get(k)
        if r is None:
            v, lo, hi = self.nodes[f]
            a, b = self.exists(lo, vs), self.exists(hi, vs)
            r = self.OR(a, b) if v in vs else self.mk2(v, a, b)
            self.memo[k] = r
        return r

    def mk2(self, v, a, b):
        return self.ite(self.var(v), b, a)

    def cubes(self, f, limit=64):
        """Paths to 1 as lists of (var, polarity)."""
        out = []

        def go(f, acc):
            if len(out) >= limit:
                return
            if f == 1:
                out.append(list(acc))
            elif f > 1:
                v, lo, hi = self.nodes[f]
                go(hi, acc + [(v, True)])
                go(lo, acc + [(v, False)])
        go(f, [])
        return out


class Node:
    __slots__ = ('op', 'args', 'info', 'kw', 'uid', 'vn', 'line', 'fn',
                 'cls', 'next', 'mut', 'extra')

    def __repr__(self):
        return show(self, 4)


def show(n, d=6):
    """Readable form of a node."""
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'const':
        return repr(n.info)
    if n.op == 'param':
        return n.info
    if d <= 0:
        return '..'
    a = [show(x, d - 1) for x in n.args]
    if n.op == 'field':
        return '%s.%s' % (a[0], n.info)
    if n.op == 'attr':
        return '%s.%s' % (a[0], n.info)
    if n.op == 'sub':
        return '%s[%s]' % tuple(a)
    if n.op == 'slice':
        return ':'.join('' if x == 'None' else x for x in a[:2])
    if n.op == 'bin':
        return '(%s %s %s)' % (a[0], n.info, a[1])
    if n.op == 'un':
        return '%s%s' % (n.info, a[0])
    if n.op in ('tuple', 'list', 'set'):
        return '%s(%s)' % (n.op, ', '.join(a))
    if n.op in ('fn', 'call', 'wrap'):
        kw = ['%s=%s' % (k, show(v, d - 1)) for k, v in (n.kw or ())]
        return '%s(%s)' % (n.info, ', '.join(a + kw))
    if n.op == 'phi':
        return 'phi(%s ? %s : %s)' % (G.bshow(n.info, 3), a[0], a[1])
    if n.op == 'bool':
        return '{%s}' % G.bshow(n.info, 4)
    if n.op == 'mu':
        return 'mu%d' % n.uid
    if n.op == 'iota':
        return 'i%d' % n.info.depth
    if n.op == 'collect':
        return '[%s for i%d]' % (a[0], n.info.depth)
    if n.op in ('ext', 'func', 'class', 'obj'):
        return str(n.info)
    return '%s%s(%s)' % (n.op, '' if n.info is None else ':%s' % (n.info,),
                         ', '.join(a))


# Functions with one canonical name, whichever way they are spelt.
CANON = {
    'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'abs': 'abs',
    'numpy.fabs': 'abs',
    'numpy.sum': 'sum', 'sum': 'sum', 'numpy.nansum': 'nansum',
    'numpy.mean': 'mean', 'numpy.nanmean': 'nanmean',
    'numpy.max': 'max', 'numpy.amax': 'max', 'max': 'max',
    'numpy.min': 'min', 'numpy.amin': 'min', 'min': 'min',
    'numpy.nanmax': 'nanmax', 'numpy.nanmin': 'nanmin',
    'numpy.minimum': 'minimum', 'numpy.maximum': 'maximum',
    'numpy.ptp': 'ptp', 'numpy.std': 'std', 'numpy.var': 'var',
    'numpy.sqrt': 'sqrt', 'math.sqrt': 'sqrt', 'numpy.exp': 'exp',
    'math.exp': 'exp',
    'numpy.log10': 'log10', 'math.log10': 'log10', 'numpy.log': 'log',
    'numpy.unique': 'unique', 'numpy.sort': 'sort', 'sorted': 'sort',
    'numpy.argsort': 'argsort', 'numpy.argmin': 'argmin',
    'numpy.argmax': 'argmax', 'numpy.nanargmin': 'argmin',
    'numpy.argwhere': 'argwhere', 'numpy.where': 'where',
    'numpy.nonzero': 'nonzero', 'numpy.flatnonzero': 'flatnonzero',
    'numpy.count_nonzero': 'sum',
    'numpy.any': 'any', 'any': 'any', 'numpy.all': 'all', 'all': 'all',
    'numpy.diff': 'diff', 'numpy.in1d': 'isin', 'numpy.isin': 'isin',
    'numpy.isfinite': 'isfinite', 'math.isfinite': 'isfinite',
    'numpy.isnan': 'isnan', 'math.isnan': 'isnan',
    'numpy.isclose': 'isclose', 'numpy.allclose': 'allclose',
    'numpy.column_stack': 'column_stack', 'numpy.vstack': 'vstack',
    'numpy.concatenate': 'concatenate', 'numpy.outer': 'outer',
    'numpy.hstack': 'concatenate', 'numpy.append': 'concat2',
    'numpy.dstack': 'dstack', 'numpy.stack': 'stack',
    'numpy.insert': 'insert', 'numpy.delete': 'delete',
    'numpy.zeros_like': 'zeros_like', 'numpy.ones_like': 'ones_like',
    'numpy.zeros': 'zeros', 'numpy.ones': 'ones', 'numpy.full': 'full',
    'numpy.arange': 'arange', 'numpy.linspace': 'linspace',
    'numpy.histogram2d': 'histogram2d', 'numpy.histogram': 'histogram',
    'numpy.digitize': 'digitize', 'numpy.around': 'round',
    'numpy.round': 'round', 'numpy.rint': 'round', 'round': 'round',
    'numpy.floor': 'floor', 'numpy.ceil': 'ceil', 'int': 'int',
    'math.floor': 'floor', 'math.ceil': 'ceil',
    'len': 'len', 'numpy.size': 'len',
    'numpy.unravel_index': 'unravel_index',
    'numpy.percentile': 'percentile', 'numpy.median': 'median',
    'str': 'str', 'range': 'range', 'zip': 'zip', 'enumerate': 'enumerate',
    'reversed': 'reversed', 'numpy.flip': 'reversed',
    'numpy.flipud': 'reversed',
    'set': 'mkset', 'frozenset': 'mkset', 'bool': 'bool',
    'itertools.product': 'product', 'itertools.combinations': 'combinations',
    'numpy.power': 'power', 'pow': 'power', 'math.pow': 'power',
    'numpy.square': 'square', 'isinstance': 'isinstance',
    'numpy.isscalar': 'isscalar', 'numpy.ravel': 'flat',
    'numpy.tile': 'tile', 'numpy.repeat': 'repeat',
    'numpy.dot': 'dot', 'numpy.clip': 'clip', 'numpy.take': 'take',
    'numpy.compress': 'compress', 'numpy.array_equal': 'array_equal',
    'numpy.log1p': 'log1p', 'numpy.interp': 'interp',
    'numpy.transpose': 'T', 'numpy.swapaxes': 'swapaxes',
    'numpy.cumsum': 'cumsum', 'numpy.prod': 'prod',
    'numpy.nan_to_num': 'nan_to_num', 'type': 'type', 'id': 'id',
    'hash': 'hash', 'dict': 'mkdict', 'filter': 'filter', 'map': 'map',
    'numpy.meshgrid': 'meshgrid', 'numpy.full_like': 'full_like',
    'numpy.empty': 'empty', 'numpy.empty_like': 'empty_like',
    'numpy.logical_and': 'logical_and', 'numpy.logical_or': 'logical_or',
    'numpy.logical_not': 'logical_not',
    'numpy.add': 'add', 'numpy.subtract': 'subtract',
    'numpy.multiply': 'multiply', 'numpy.divide': 'divide',
    'numpy.true_divide': 'divide', 'numpy.negative': 'negative',
    'numpy.less': 'less', 'numpy.less_equal': 'less_equal',
    'numpy.greater': 'greater', 'numpy.greater_equal': 'greater_equal',
    'numpy.equal': 'equal', 'numpy.not_equal': 'not_equal',
    'numpy.linalg.norm': 'norm', 'next': 'next', 'iter': 'iter',
    'math.fabs': 'abs', 'math.log': 'log', 'math.fsum': 'sum',
    'numpy.lexsort': 'lexsort', 'numpy.searchsorted': 'searchsorted',
    'bisect.bisect_left': 'bisect', 'bisect.bisect': 'bisect',
    'numpy.nanmedian': 'median', 'numpy.mod': 'mod',
}

# Methods of arrays, lists and strings with a functional canonical form.
METH = {
    'sum': 'sum', 'max': 'max', 'min': 'min', 'mean': 'mean', 'std': 'std',
    'any': 'any', 'all': 'all', 'argmin': 'argmin', 'argmax': 'argmax',
    'argsort': 'argsort', 'ptp': 'ptp', 'nonzero': 'nonzero',
    'round': 'round', 'dot': 'dot', 'take': 'take', 'compress': 'compress',
    'clip': 'clip', 'repeat': 'repeat', 'cumsum': 'cumsum', 'prod': 'prod',
    'var': 'var', 'transpose': 'T', 'swapaxes': 'swapaxes',
    'searchsorted': 'searchsorted',
}

# Calls whose result has the same element values as their first argument.
# name -> (kind, fresh): fresh means a new object is guaranteed.
WRAP = {
    'numpy.array': ('array', True), 'numpy.asarray': ('asarray', False),
    'numpy.asfarray': ('asarray', False),
    'numpy.ascontiguousarray': ('asarray', False),
    'numpy.asanyarray': ('asarray', False),
    'numpy.copy': ('copy', True), 'list': ('list', True),
    'tuple': ('tuple', True), 'copy.copy': ('copy', True),
    'copy.deepcopy': ('deepcopy', True), 'float': ('float', True),
    'numpy.float64': ('float', True), 'numpy.atleast_1d': ('asarray', False),
    'numpy.squeeze': ('asarray', False),
    'tqdm.autonotebook.tqdm': ('tqdm', False), 'tqdm.tqdm': ('tqdm', False),
    'tqdm.auto.tqdm': ('tqdm', False),
    'numpy.fromiter': ('array', True),
    'numpy.nditer': ('asarray', False),
}
WRAPM = {'copy': ('copy', True), 'flatten': ('flat', True),
         'ravel': ('flat', False), 'tolist': ('list', True),
         'view': ('asarray', False), 'item': ('float', True),
         'squeeze': ('asarray', False)}

INTFN = {'len', 'argmin', 'argmax', 'int'}


def constset(n):
    """The value of a set of constants."""
    while n.op == 'wrap':
        n = n.args[0]
    if n.op == 'fn' and n.info == 'mkset' and len(n.args) == 1:
        n = n.args[0]
        while n.op == 'wrap':
            n = n.args[0]
        if n.op not in ('list', 'tuple', 'set'):
            return None
    elif n.op != 'set':
        return None
    if n.kw or not all(x.op == 'const' for x in n.args):
        return None
    return frozenset(x.info for x in n.args)


class Graph:
    def __init__(self):
        self.reset()

    def reset(self):
        self.b = BDD()
        self.tab = {}
        self.vkeys = []
        self.n = 0
        self.atoms = []            # index -> (pred, args(Nodes), info)
        self.atomidx = {}
        self.axmemo = {}
        self.site = (None, None)
        self.intvn = set()
        self.notnone = set()       # value numbers never None
        self.vn_node = {}
        self.simp_memo = {}

    # ---- value numbers -------------------------------------------------
    def intern(self, key):
        v = self.tab.get(key)
        if v is None:
            v = len(self.vkeys)
            self.tab[key] = v
            self.vkeys.append(key)
        return v

    def poly_of(self, vn):
        """Polynomial (dict monomial -> coeff) of a value number."""
        k = self.vkeys[vn]
        if k[0] == 'poly':
            return dict(k[1])
        if k[0] == 'num':
            return {(): k[1]} if k[1] != 0 else {}
        return {((vn, 1),): Fraction(1)}

    def vn_of_poly(self, p):
        p = {m: c for m, c in p.items() if c != 0}
        if not p:
            return self.intern(('num', Fraction(0)))
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                return self.intern(('num', c))
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return self.intern(('poly', tuple(sorted(p.items()))))

    def padd(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + s * c
        return {m: c for m, c in r.items() if c != 0}

    def pmul(self, p, q):
        r = {}
        if len(p) * len(q) > 400:
            return None
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted((a, e) for a, e in d.items() if e != 0))
                r[m] = r.get(m, 0) + c1 * c2
        return {m: c for m, c in r.items() if c != 0}

    def num(self, vn):
        k = self.vkeys[vn]
        return k[1] if k[0] == 'num' else None

    def is_int(self, vn):
        k = self.vkeys[vn]
        if k[0] == 'num':
            return k[1].denominator == 1
        if k[0] == 'poly':
            return all(c.denominator == 1 and
                       all(e >= 0 and float(e).is_integer() and
                           self.is_int(a) for a, e in m)
                       for m, c in k[1])
        return vn in self.intvn

    # ---- node construction --------------------------------------------
    def raw(self, op, args=(), info=None, kw=None, vn=None, cls=None):
        n = Node()
        n.op, n.args, n.info, n.kw = op, tuple(args), info, kw
        self.n += 1
        n.uid = self.n
        n.line, n.fn = self.site
        n.cls, n.next, n.mut, n.extra = cls, None, None, None
        if vn is None:
            key = (op, _hk(info), tuple(a.vn for a in n.args),
                   tuple((k, v.vn) for k, v in kw) if kw else None)
            vn = self.intern(key)
        n.vn = vn
        self.vn_node.setdefault(vn, n)
        return n

    def const(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return self.raw('const', (), v,
                            vn=self.intern(('const', type(v).__name__, v)))
        if isinstance(v, (int, float)):
            try:
                return self.raw('const', (), v,
                                vn=self.intern(('num', Fraction(str(v))
                                                if isinstance(v, float)
                                                else Fraction(v))))
            except (ValueError, OverflowError):
                pass
        return self.raw('const', (), v, vn=self.intern(('k', repr(v))))

    def uniq(self, op, args=(), info=None, kw=None, cls=None):
        self.n += 1
        return self.raw(op, args, info, kw,
                        vn=self.intern(('uniq', op, self.n)), cls=cls)

    def param(self, name, cls=None):
        return self.raw('param', (), name, cls=cls)

    def field(self, obj, attr, cls=None):
        return self.raw('field', (obj,), attr, cls=cls)

    def wrap(self, kind, x, fresh):
        n = self.raw('wrap', (x,), kind, vn=x.vn)
        n.extra = fresh
        return n

    def bool(self, f):
        if f == TRUE:
            return self.const(True)
        if f == FALSE:
            return self.const(False)
        return self.raw('bool', (), f)

    def phi(self, g, a, b):
        if g == TRUE or a is b:
            return a
        if g == FALSE:
            return b
        # flatten phis on the same gate
        if a.op == 'phi' and a.info == g:
            a = a.args[0]
        if b.op == 'phi' and b.info == g:
            b = b.args[1]
        if a is b:
            return a
        bt = ('bool',)
        if a.op in bt and b.op in bt or (
                self.isboolconst(a) and self.isboolconst(b)):
            return self.bool(self.b.ite(g, self.truth(a), self.truth(b)))
        vn = a.vn if a.vn == b.vn else None
        cls = a.cls if a.cls == b.cls else None
        return self.raw('phi', (a, b), g, vn=vn, cls=cls)

    def isboolconst(self, n):
        return n.op == 'bool' or (n.op == 'const' and n.info in (True, False)
                                  and isinstance(n.info, bool))

    # ---- arithmetic ----------------------------------------------------
    def seqlike(self, n):
        n = strip(n)
        if n.op == 'const':
            return isinstance(n.info, (str, tuple))
        if n.op == 'phi':
            return self.seqlike(n.args[0]) or self.seqlike(n.args[1])
        if n.op in ('list', 'tuple', 'concat', 'fstr', 'listrep'):
            return True
        if n.op == 'fn' and n.info in ('str', 'format', 'join'):
            return True
        if n.op == 'sub':
            return False
        return False

    def bin(self, op, a, b):
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = a.info, b.info
                if isinstance(x, str) and isinstance(y, str) and op == '+':
                    return self.const(x + y)
            except Exception:
                pass
        if op == '+' and (islist(a) or islist(b) or self.seqlike(a)
                          or self.seqlike(b)) and not any(
                              x.op == 'wrap' and x.info == 'array'
                              for x in (a, b)):
            if a.op == 'list' and b.op == 'list' and not a.kw and not b.kw:
                return self.raw('list', a.args + b.args)
            return self.raw('concat', (a, b))
        if op == '*' and (a.op == 'list' or b.op == 'list'):
            return self.raw('listrep', (a, b) if a.op == 'list' else (b, a))
        if op == '%' and a.op == 'const' and isinstance(a.info, str):
            return self.raw('fn', (a, b), 'format')
        if op in ('&', '|', '^'):
            if a.op in ('const', 'bool', 'phi') or b.op in ('bool',) or True:
                ta, tb = self.truth(a), self.truth(b)
                if op == '&':
                    return self.bool(self.b.AND(ta, tb))
                if op == '|':
                    return self.bool(self.b.OR(ta, tb))
                return self.bool(self.b.ite(ta, self.b.NOT(tb), tb))
        vn = self.arith_vn(op, a.vn, b.vn)
        n = self.raw('bin', (a, b), op, vn=vn)
        v = self.num(n.vn)
        if v is not None:
            f = int(v) if v.denominator == 1 and op != '/' else float(v)
            return self.raw('const', (), f, vn=n.vn)
        return n

    def arith_vn(self, op, x, y):
        pa, pb = self.poly_of(x), self.poly_of(y)
        if op == '+':
            return self.vn_of_poly(self.padd(pa, pb))
        if op == '-':
            return self.vn_of_poly(self.padd(pa, pb, -1))
        if op == '*':
            r = self.pmul(pa, pb)
            if r is not None:
                return self.vn_of_poly(r)
        if op == '/':
            ny = self.num(y)
            if ny is not None and ny != 0:
                return self.vn_of_poly({m: c / ny for m, c in pa.items()})
            if len(pb) == 1:
                (m, c), = pb.items()
                inv = {tuple((a, -e) for a, e in m): 1 / c}
                r = self.pmul(pa, inv)
            else:
                # normalise the denominator by its leading coefficient
                lead = sorted(pb.items())[0][1]
                den = self.vn_of_poly({m: c / lead for m, c in pb.items()})
                r = self.pmul(pa, {((den, -1),): 1 / lead})
            if r is not None:
                return self.vn_of_poly(r)
        if op == '**':
            ny = self.num(y)
            if ny is not None:
                if ny.denominator == 1 and 0 <= ny <= 6:
                    r = {(): Fraction(1)}
                    for _ in range(int(ny)):
                        r = self.pmul(r, pa)
                        if r is None:
                            break
                    if r is not None:
                        return self.vn_of_poly(r)
                if len(pa) == 1:
                    (m, c), = pa.items()
                    if ny.denominator == 1 and c != 0:
                        try:
                            return self.vn_of_poly(
                                {tuple((a, e * ny) for a, e in m):
                                 c ** int(ny)})
                        except (OverflowError, ZeroDivisionError):
                            pass
                    if c == 1 and m:
                        return self.vn_of_poly(
                            {tuple((a, e * ny) for a, e in m): Fraction(1)})
        return self.intern(('bin', op, x, y))

    def un(self, op, a):
        if op == '-':
            n = self.raw('un', (a,), '-', vn=self.vn_of_poly(
                {m: -c for m, c in self.poly_of(a.vn).items()}))
            v = self.num(n.vn)
            if v is not None:
                return self.raw('const', (), -a.info if a.op == 'const'
                                else float(v), vn=n.vn)
            return n
        if op == '+':
            return a
        if op in ('not', '~'):
            return self.bool(self.b.NOT(self.truth(a)))
        return self.raw('un', (a,), op)

    # ---- conditions ----------------------------------------------------
    def atom(self, pred, nodes, info=None, vns=None):
        key = (pred, _hk(info), tuple(vns if vns is not None
                                      else [x.vn for x in nodes]))
        i = self.atomidx.get(key)
        if i is None:
            i = len(self.atoms)
            self.atomidx[key] = i
            self.atoms.append((pred, tuple(nodes), info, key[2]))
        return self.b.var(i)

    def fresh_atom(self, pred, info=None):
        self.n += 1
        return self.atom(pred, (), (info, self.n))

    def truth(self, n):
        if n.op == 'const':
            return TRUE if n.info else FALSE
        if n.op == 'bool':
            return n.info
        if n.op == 'phi':
            return self.b.ite(n.info, self.truth(n.args[0]),
                              self.truth(n.args[1]))
        if n.op in ('func', 'class', 'ext', 'obj', 'lambda'):
            return TRUE
        if n.op in ('list', 'tuple', 'set') and not n.kw:
            return TRUE if n.args else FALSE
        if n.op == 'dict':
            return TRUE if n.args else FALSE
        if n.op == 'fn' and n.info == 'bool':
            return self.truth(n.args[0])
        if n.op == 'wrap' and n.info in ('array', 'asarray', 'boolcast'):
            return self.truth(n.args[0])
        if n.op == 'fn' and n.info == 'len':
            return self.pos(n.vn, n)
        return self.atom('truthy', (n,))

    def pos(self, vn, *nodes):
        """Atom: value > 0."""
        v = self.num(vn)
        if v is not None:
            return TRUE if v > 0 else FALSE
        p = self.poly_of(vn)
        # remove a common positive factor
        lead = sorted(p.items(), key=lambda t: (t[0] == (), t[0]))[0][1]
        if self.is_int(vn):
            # p > 0  <=>  not (1 - p > 0) for integers
            if lead < 0:
                q = self.padd({(): Fraction(1)}, p, -1)
                return self.b.NOT(self.pos(self.vn_of_poly(q), *nodes))
            return self.atom('pos', nodes, None, (vn,))
        s = abs(lead)
        if s != 1:
            p = {m: c / s for m, c in p.items()}
            vn = self.vn_of_poly(p)
        return self.atom('pos', nodes, None, (vn,))

    def lt(self, a, b):
        vn = self.vn_of_poly(self.padd(self.poly_of(b.vn),
                                       self.poly_of(a.vn), -1))
        return self.pos(vn, a, b)

    def eq(self, a, b):
        if a.vn == b.vn and a.op != 'bool':
            return TRUE
        ca, cb = strip(a), strip(b)
        if isconst(ca) and isconst(cb):
            na, nb = self.num(ca.vn), self.num(cb.vn)
            if na is not None and nb is not None:
                return TRUE if na == nb else FALSE
            return TRUE if ca.vn == cb.vn else FALSE
        if ca.op == 'const' and ca.info is None:
            return self.isnone(b)
        if cb.op == 'const' and cb.info is None:
            return self.isnone(a)
        for x, y in ((ca, cb), (cb, ca)):
            if isinstance(x.info, bool) and x.op == 'const':
                t = self.truth(y)
                return t if x.info else self.b.NOT(t)
        x, y = sorted((a, b), key=lambda n: n.vn)
        return self.atom('eq', (x, y))

    def isnone(self, n):
        if n.op == 'const':
            return TRUE if n.info is None else FALSE
        if n.op == 'phi':
            return self.b.ite(n.info, self.isnone(n.args[0]),
                              self.isnone(n.args[1]))
        if n.op == 'wrap' and n.info in ('copy', 'deepcopy'):
            return self.isnone(n.args[0])
        if n.op in ('param', 'field', 'mu', 'call', 'sub', 'attr', 'unknown',
                    'global', 'rnd'):
            if n.vn in self.notnone:
                return FALSE
            return self.atom('isnone', (n,))
        return FALSE

    def cmp(self, op, a, b, depth=6):
        if depth:
            if a.op == 'phi':
                return self.b.ite(a.info,
                                  self.cmp(op, a.args[0], b, depth - 1),
                                  self.cmp(op, a.args[1], b, depth - 1))
            if b.op == 'phi':
                return self.b.ite(b.info,
                                  self.cmp(op, a, b.args[0], depth - 1),
                                  self.cmp(op, a, b.args[1], depth - 1))
        N = self.b.NOT
        if op in ('<', '>', '<=', '>=', '==', '!='):
            x = constset(a)
            y = constset(b) if x is not None else None
            if y is not None:
                return TRUE if {'<': x < y, '>': x > y, '<=': x <= y,
                                '>=': x >= y, '==': x == y,
                                '!=': x != y}[op] else FALSE
        if op == '<':
            return self.lt(a, b)
        if op == '>':
            return self.lt(b, a)
        if op == '<=':
            return N(self.lt(b, a))
        if op == '>=':
            return N(self.lt(a, b))
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return N(self.eq(a, b))
        if op in ('is', 'is not'):
            if isconst(b) and b.info is None:
                r = self.isnone(a)
            elif isconst(a) and a.info is None:
                r = self.isnone(b)
            else:
                r = self.eq(a, b)
            return r if op == 'is' else N(r)
        if op in ('in', 'not in'):
            r = self.contains(a, b)
            return r if op == 'in' else N(r)
        return self.atom('cmp', (a, b), op)

    def contains(self, a, b):
        c = b
        while c.op == 'wrap' or (c.op == 'fn' and c.info == 'mkset'
                                 and len(c.args) == 1):
            c = c.args[0]
        if c.op == 'phi':
            return self.b.ite(c.info, self.contains(a, c.args[0]),
                              self.contains(a, c.args[1]))
        if c.op in ('list', 'tuple', 'set') and not c.kw:
            r = FALSE
            for x in c.args:
                r = self.b.OR(r, self.cmp('==', a, x))
            return r
        if c.op == 'dict':
            r = FALSE
            for x in c.info[0]:
                r = self.b.OR(r, self.cmp('==', a, x))
            return r
        if c.op == 'const' and isinstance(c.info, str) and isconst(a) \
                and isinstance(a.info, str):
            return TRUE if a.info in c.info else FALSE
        return self.atom('in', (a, c))

    def isinst(self, n, names):
        if n.op == 'phi':
            return self.b.ite(n.info, self.isinst(n.args[0], names),
                              self.isinst(n.args[1], names))
        s = n
        if s.op == 'const':
            t = type(s.info).__name__
            return TRUE if t in names or (t == 'bool' and 'int' in names) \
                else FALSE
        if s.op in ('list', 'listrep') or (s.op == 'wrap'
                                           and s.info == 'list') \
                or (s.op == 'collect' and s.extra == 'list'):
            return TRUE if 'list' in names else FALSE
        if s.op == 'wrap' and s.info in ('array', 'asarray'):
            return TRUE if 'ndarray' in names else FALSE
        if s.op == 'wrap' and s.info == 'float':
            return TRUE if 'float' in names else FALSE
        if s.op == 'wrap' and s.info in ('copy', 'deepcopy'):
            return self.isinst(s.args[0], names)
        if s.op in ('dict', 'tuple', 'set'):
            return TRUE if s.op in names else FALSE
        if s.op == 'obj':
            return TRUE if n.cls in names else FALSE
        if s.op in ('param', 'field') and s.cls in names:
            return self.b.NOT(self.isnone(n))
        if s.op == 'concat':
            return TRUE if ('list' in names or 'str' in names) else FALSE
        r = FALSE
        for t in names:
            r = self.b.OR(r, self.atom('isinst', (n,), t))
        return r

    # ---- theory --------------------------------------------------------
    def axioms(self, sup):
        sup = frozenset(sup)
        r = self.axmemo.get(sup)
        if r is not None:
            return r
        b = self.b
        f = TRUE
        L = sorted(sup)
        for i, x in enumerate(L):
            px, nx, ix, vx = self.atoms[x]
            for y in L[i + 1:]:
                py, ny, iy, vy = self.atoms[y]
                c = self._pair(px, nx, ix, vx, py, ny, iy, vy)
                if c is None:
                    c2 = self._pair(py, ny, iy, vy, px, nx, ix, vx)
                    if c2 is None:
                        continue
                    sx, sy = c2[1], c2[0]
                else:
                    sx, sy = c
                # forbid the combination (x is sx and y is sy)
                lx = b.var(x) if sx else b.NOT(b.var(x))
                ly = b.var(y) if sy else b.NOT(b.var(y))
                f = b.AND(f, b.NOT(b.AND(lx, ly)))
        self.axmemo[sup] = f
        return f

    def _pair(self, px, nx, ix, vx, py, ny, iy, vy):
        """A forbidden combination (polarity x, polarity y) or None."""
        if px == 'eq' and py == 'eq':
            for i in (0, 1):
                for j in (0, 1):
                    if vx[i] == vy[j]:
                        o1, o2 = nx[1 - i], ny[1 - j]
                        if isconst(strip(o1)) and isconst(strip(o2)) \
                                and o1.vn != o2.vn:
                            return (True, True)
        if px == 'isnone':
            if py == 'eq' and vx[0] in vy:
                o = ny[1] if ny[0].vn == vx[0] else ny[0]
                if isconst(o):
                    return (True, True)
            if py in ('truthy', 'isinst') and vx[0] == vy[0]:
                return (True, True)
        if px == 'isinst' and py == 'isinst' and vx == vy and ix != iy:
            D = ('str', 'list', 'ndarray', 'dict', 'float', 'int', 'tuple',
                 'HoughTransform')
            if ix in D and iy in D:
                return (True, True)
        if px == 'pos' and py == 'pos':
            p, q = self.poly_of(vx[0]), self.poly_of(vy[0])
            c, d = p.get((), 0), q.get((), 0)
            P = {m: k for m, k in p.items() if m != ()}
            Q = {m: k for m, k in q.items() if m != ()}
            if P == Q:
                # x + c > 0 and not (x + d > 0), c <= d : impossible
                if c <= d:
                    return (True, False)
                return (False, True)
            if P == {m: -k for m, k in Q.items()}:
                # x + c > 0 and -x + d > 0  => c + d > 0
                if c + d <= 0:
                    return (True, True)
                if c + d > 0:
                    return (False, False) if c + d > 0 else None
        if px == 'pos' and py == 'eq':
            d = self.padd(self.poly_of(vy[0]), self.poly_of(vy[1]), -1)
            p = self.poly_of(vx[0])
            if p and d:
                k = next(iter(p))
                if k in d:
                    r = p[k] / d[k]
                    if {m: c * r for m, c in d.items()} == p:
                        return (True, True)
        return None

    def sat(self, f):
        if f <= 1:
            return f == TRUE
        return self.b.AND(f, self.axioms(self.b.support(f))) != FALSE

    def implies(self, f, g):
        return not self.sat(self.b.AND(f, self.b.NOT(g)))

    def literal(self, i):
        return self.atoms[i]

    def bshow(self, f, limit=4):
        if f == 1:
            return 'True'
        if f == 0:
            return 'False'
        out = []
        for c in self.b.cubes(f, limit):
            out.append(' and '.join(self.ashow(v, p) for v, p in c))
        return ' or '.join(out) if len(out) < 2 else \
            ' or '.join('(%s)' % o for o in out)

    def ashow(self, v, pol=True):
        pred, nodes, info, vns = self.atoms[v]
        if pred == 'pos':
            s = self.pshow(vns[0]) + (' > 0' if pol else ' <= 0')
            return s
        a = [show(n, 3) for n in nodes]
        if pred == 'isnone':
            return a[0] + (' is None' if pol else ' is not None')
        if pred == 'eq':
            return (' == ' if pol else ' != ').join(a)
        if pred == 'truthy':
            return ('' if pol else 'not ') + a[0]
        s = '%s(%s%s)' % (pred, ', '.join(a),
                          '' if info is None else ', %s' % (info,))
        return s if pol else 'not ' + s

    def pshow(self, vn, d=3):
        p = self.poly_of(vn)
        out = []
        for m, c in sorted(p.items(), key=lambda t: str(t)):
            s = '*'.join(show(self.vn_node[a], d) +
                         ('' if e == 1 else '^%s' % e)
                         if a in self.vn_node else 'v%d' % a for a, e in m)
            if not m:
                s = str(float(c))
            elif c != 1:
                s = '%g*%s' % (float(c), s)
            out.append(s)
        return ' + '.join(out) or '0'

    # ---- restriction ---------------------------------------------------
    def simp(self, n, pc):
        """n with its phis resolved as far as the condition pc decides."""
        if pc == TRUE:
            return n
        k = (n.uid, pc)
        r = self.simp_memo.get(k)
        if r is not None:
            return r
        self.simp_memo[k] = n       # cycle guard
        r = n
        if n.op == 'phi':
            f = self.b.AND(pc, n.info)
            if not self.sat(f):
                r = self.simp(n.args[1], pc)
            elif not self.sat(self.b.AND(pc, self.b.NOT(n.info))):
                r = self.simp(n.args[0], pc)
            else:
                a = self.simp(n.args[0], f)
                c = self.simp(n.args[1], self.b.AND(pc, self.b.NOT(n.info)))
                if a is not n.args[0] or c is not n.args[1]:
                    r = self.phi(n.info, a, c)
        elif n.op == 'bool':
            ax = self.axioms(self.b.support(n.info) | self.b.support(pc))
            care = self.b.AND(pc, ax)
            f = self.b.restrict(n.info, care)
            if f != n.info:
                r = self.bool(f)
        elif n.op in ('mu', 'iota', 'const', 'param', 'obj', 'func', 'ext',
                      'class', 'lambda', 'collect', 'rnd'):
            pass
        elif n.args:
            a = [self.simp(x, pc) for x in n.args]
            kw = n.kw and tuple((k_, self.simp(v, pc)) for k_, v in n.kw)
            if any(x is not y for x, y in zip(a, n.args)) or (
                    kw and any(x[1] is not y[1]
                               for x, y in zip(kw, n.kw))):
                r = self.rebuild(n, a, kw)
        self.simp_memo[k] = r
        return r

    def rebuild(self, n, a, kw):
        s = self.site
        self.site = (n.line, n.fn)
        try:
            if n.op == 'bin':
                r = self.bin(n.info, *a)
            elif n.op == 'un':
                r = self.un(n.info, *a)
            elif n.op == 'wrap':
                r = self.wrap(n.info, a[0], n.extra)
            elif n.op == 'sub':
                r = self.raw('sub', a)
            elif n.op == 'field':
                r = self.raw('field', a, n.info, cls=n.cls)
            else:
                r = self.raw(n.op, a, n.info, kw, cls=n.cls)
                r.extra = n.extra
        finally:
            self.site = s
        return r

    def leaves(self, n, pc=TRUE, limit=64):
        """[(condition, value)] alternatives of a value under pc."""
        out = []

        def go(n, pc):
            if len(out) > limit or not self.sat(pc):
                return
            if n.op == 'phi':
                go(n.args[0], self.b.AND(pc, n.info))
                go(n.args[1], self.b.AND(pc, self.b.NOT(n.info)))
            elif n.op == 'wrap' and strip(n).op == 'phi':
                p = strip(n)
                go(p.args[0], self.b.AND(pc, p.info))
                go(p.args[1], self.b.AND(pc, self.b.NOT(p.info)))
            else:
                out.append((pc, n))
        go(n, pc)
        return out


def _hk(x):
    try:
        hash(x)
        return x
    except TypeError:
        return repr(x)


def isconst(n):
    return n.op == 'const'


def strip(n):
    """Remove value-preserving wrappers."""
    while n.op == 'wrap':
        n = n.args[0]
    return n


def islist(n):
    if n.op == 'wrap':
        return n.info == 'list' or (n.info in ('copy', 'deepcopy')
                                    and islist(n.args[0]))
    return n.op in ('list', 'listrep', 'concat') or (
        n.op in ('append', 'extend', 'mu') and n.extra == 'list') or (
        n.op == 'collect' and n.extra == 'list')


G = Graph()
