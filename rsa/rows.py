"""Row pushdown: the element of an array expression at one generic row.

at(n, j) rewrites a column or mask expression into an expression about row j
of its sources; selections (masks, index arrays, slices) become steps of the
row index, so two columns are aligned exactly when their row indices agree.
"""
from .core import G, TRUE, FALSE, strip, isconst, Node
from .interp import Interp, fullslice

ELEM = {'abs', 'sqrt', 'exp', 'log', 'log10', 'round', 'floor', 'ceil',
        'isfinite', 'isnan', 'minimum', 'maximum', 'where', 'nan_to_num',
        'clip', 'log1p', 'int', 'str', 'astype'}
ORDER = {'sort', 'unique', 'argsort', 'linspace', 'arange', 'zeros', 'ones',
         'concatenate', 'diff', 'insert', 'delete', 'flatnonzero', 'nonzero',
         'argwhere', 'digitize', 'reversed', 'zeros_like', 'ones_like',
         'column_stack', 'vstack', 'full', 'T', 'histogram', 'cumsum',
         'full_like', 'outer', 'range', 'repeat', 'tile', 'isin'}
REDUCE = {'sum', 'mean', 'max', 'min', 'std', 'ptp', 'len', 'argmin',
          'argmax', 'any', 'all', 'nansum', 'nanmax', 'nanmin', 'median'}


class Rows:
    def __init__(self, run=None, arrays=()):
        self.it = run.it if run is not None else Interp(None)
        self.arr = dict(getattr(self.it, 'arrays', {}))
        for a in arrays:
            self.arr[a] = True
        self.memo = {}
        self.amemo = {}

    # is the value indexed by rows?
    def isarr(self, n):
        k = n.uid
        r = self.amemo.get(k)
        if r is None:
            self.amemo[k] = False
            r = self.amemo[k] = self._isarr(n)
        return r

    def _isarr(self, n):
        op = n.op
        if op in ('const', 'iota', 'obj', 'func', 'ext', 'row', 'sel'):
            return False
        if op == 'param':
            return bool(self.arr.get(n.info))
        if op == 'wrap':
            if n.info == 'float':
                return self.isarr(n.args[0])
            return self.isarr(n.args[0]) or n.info in ('list', 'tuple',
                                                       'array')
        if op in ('tuple', 'list', 'collect', 'collectcat', 'concat',
                  'listrep', 'set', 'update'):
            return True
        if op == 'phi':
            return self.isarr(n.args[0]) or self.isarr(n.args[1])
        if op == 'bin' or op == 'un':
            return any(self.isarr(a) for a in n.args)
        if op == 'bool':
            return any(self.isarr(x) for v in G.b.support(n.info)
                       for x in self.anodes(v))
        if op == 'fn':
            if n.info in REDUCE:
                return False
            if n.info in ORDER:
                return True
            return any(self.isarr(a) for a in n.args)
        if op == 'call':
            return n.info in ('numpy.loadtxt', 'numpy.genfromtxt',
                              'numpy.load')
        if op == 'sub':
            i = n.args[1]
            x = strip(n.args[0])
            if i.op == 'const' and x.op == 'fn' and x.info in (
                    'unique', 'nonzero', 'histogram') and not isinstance(
                        i.info, slice):
                return True
            if i.op in ('const', 'iota', 'row', 'sel'):
                return False
            if i.op == 'fn' and i.info in REDUCE:
                return False
            if i.op in ('slice', 'bool', 'collect'):
                return True
            if i.op == 'tuple':
                return any(x.op == 'slice' for x in i.args)
            return self.isarr(i)
        if op == 'dyncall':
            return any(self.isarr(a) for a in n.args[1:])
        return False

    def anodes(self, v):
        pred, nodes, info, vns = G.atoms[v]
        if pred in ('all', 'any', 'isnone', 'isinst', 'truthy'):
            if pred != 'truthy':
                return ()
        return nodes

    # value of the selection step: the source row that ends up at j
    def sel(self, i, j):
        i = self.mask(i)
        return G.raw('sel', (i, j), None)

    def mask(self, i):
        """Canonical form of an index array."""
        return self.it.normidx(i)

    def at(self, n, j, d=0):
        k = (n.uid, j.vn)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._at(n, j, d)
        return r

    def _at(self, n, j, d):
        if d > 80:
            return G.raw('sub', (n, j))
        op = n.op
        if op == 'wrap':
            return self.at(n.args[0], j, d + 1)
        if op == 'phi':
            g = n.info
            return G.phi(g, self.at(n.args[0], j, d + 1),
                         self.at(n.args[1], j, d + 1))
        if op in ('tuple', 'list') and isconst(j) and isinstance(
                j.info, int) and -len(n.args) <= j.info < len(n.args) \
                and not n.kw:
            return self.flat(n.args[j.info], d + 1)
        if op == 'collect':
            L = n.info
            c = n.args[2]
            if not (isconst(c) and c.info):
                # the filter is a mask over the space
                m = G.raw('collect', (c, n.args[1], G.const(True)), L,
                          vn=G.intern(('collect', L.depth, c.vn,
                                       n.args[1].vn, TRUE)))
                j = self.sel(m, j)
            return self.flat(self.it.subst(n.args[0], {L.iota.vn: j}), d + 1)
        if op == 'listrep':
            x = n.args[0]
            if len(x.args) == 1:
                return self.flat(x.args[0], d + 1)
        if not self.isarr(n):
            return self.flat(n, d + 1) if op != 'param' else n
        if op == 'bin':
            return G.bin(n.info, *[self.at(a, j, d + 1) if self.isarr(a)
                                   else self.flat(a, d + 1)
                                   for a in n.args])
        if op == 'un':
            return G.un(n.info, self.at(n.args[0], j, d + 1))
        if op == 'bool':
            return G.bool(self.cond(n.info, j, d + 1))
        if op == 'sub':
            x, i = n.args
            if i.op == 'tuple' and len(i.args) == 2:
                a, b = i.args
                if fullslice(a):
                    return self.cell(x, j, b, d + 1)
                if a.op in ('bool', 'collect', 'sub', 'fn', 'slice', 'phi') \
                        and isconst(b):
                    return self.cell(x, self.sel(a, j), b, d + 1)
            if i.op == 'slice' and fullslice(i):
                return self.at(x, j, d + 1)
            return self.at(x, self.sel(i, j), d + 1)
        if op == 'fn':
            if n.info in ELEM:
                return self.it.fn(n.info, [
                    self.at(a, j, d + 1) if self.isarr(a)
                    else self.flat(a, d + 1) for a in n.args],
                    n.kw or (), None)
            if n.info == 'reversed':
                return self.at(n.args[0], G.raw('sel', (
                    G.const('reversed'), j)), d + 1)
            if n.info == 'T':
                return G.raw('sub', (n, j))
            if n.info in ('isin', 'in1d') and len(n.args) == 2 and not n.kw:
                return G.bool(G.contains(
                    self.at(n.args[0], j, d + 1), n.args[1]))
            if n.info == 'sort' and len(n.args) == 1 and not n.kw:
                # sort(x) == x[argsort(x)]
                x = strip(n.args[0])
                return self.at(x, self.sel(self.it.fn('argsort', [x], (),
                                                      None), j), d + 1)
            if n.info == 'ones_like' or n.info == 'ones':
                return G.const(1)
            if n.info == 'zeros_like' or n.info == 'zeros':
                return G.const(0)
        if op == 'update' and len(n.args) == 3 and self.isarr(n.args[1]) \
                and strip(n.args[1]).op == 'bool' and not self.isarr(
                    n.args[2]):
            return G.phi(self.cond(strip(n.args[1]).info, j, d + 1),
                         self.flat(n.args[2], d + 1),
                         self.at(n.args[0], j, d + 1))
        if op == 'dyncall':
            return G.raw('dyncall', [n.args[0]] + [
                self.at(a, j, d + 1) if self.isarr(a) else a
                for a in n.args[1:]], None, n.kw)
        return G.raw('sub', (n, j))

    def cell(self, x, j, k, d):
        """x[j, k] of a table."""
        s = strip(x)
        if s.op == 'phi':
            return G.phi(s.info, self.cell(s.args[0], j, k, d + 1),
                         self.cell(s.args[1], j, k, d + 1))
        if s.op == 'update' and len(s.args) == 3 and s.args[1].op == 'tuple' \
                and len(s.args[1].args) == 2 and fullslice(
                    s.args[1].args[0]) and isconst(s.args[1].args[1]) and \
                isconst(k):
            # x[:, c] = y
            if s.args[1].args[1].info == k.info:
                return self.at(s.args[2], j, d + 1)
            return self.cell(s.args[0], j, k, d + 1)
        if s.op == 'sub':
            a, i = s.args
            if i.op == 'slice' and fullslice(i):
                return self.cell(a, j, k, d + 1)
            if i.op in ('bool', 'collect', 'slice', 'sub', 'fn', 'phi',
                        'wrap') and not (i.op == 'fn' and i.info in REDUCE):
                return self.cell(a, self.sel(i, j), k, d + 1)
        if s.op == 'collect':
            row = self.at(s, j, d + 1)
            return self.flat(self.it.index(row, k), d + 1)
        if s.op == 'fn' and s.info == 'column_stack':
            c = self.it.index(strip(s.args[0]), k)
            return self.at(c, j, d + 1)
        return G.raw('sub', (G.raw('sub', (s, j)), k))

    def flat(self, n, d=0):
        """Push every subscript inside a scalar expression down."""
        if d > 80 or n.op in ('const', 'param', 'mu', 'iota', 'row', 'sel',
                              'obj', 'func', 'ext', 'collect', 'field'):
            return n
        if n.op == 'wrap':
            return self.flat(n.args[0], d + 1)
        if n.op == 'phi':
            return G.phi(self.cond0(n.info, d), self.flat(n.args[0], d + 1),
                         self.flat(n.args[1], d + 1))
        if n.op == 'bool':
            return G.bool(self.cond0(n.info, d))
        if n.op == 'sub':
            x, i = n.args
            if i.op in ('const', 'iota', 'row', 'sel', 'bin', 'param'):
                xs = strip(x)
                if xs.op == 'sub' and xs.args[1].op in (
                        'const', 'iota', 'row', 'sel') and isconst(i) and \
                        not isconst(xs.args[1]):
                    return self.cell(xs.args[0], xs.args[1], i, d + 1)
                if i.op == 'sub' or self.isarr(x):
                    return self.at(x, i, d + 1)
            if i.op == 'tuple' and len(i.args) == 2 and not any(
                    y.op == 'slice' for y in i.args):
                return self.cell(x, i.args[0], i.args[1], d + 1)
            if i.op == 'sub' and not self.isarr(x):
                return G.raw('sub', (x, self.flat(i, d + 1)))
            return n
        if n.op in ('bin', 'un'):
            a = [self.flat(x, d + 1) for x in n.args]
            if n.op == 'bin':
                return G.bin(n.info, *a)
            return G.un(n.info, *a)
        if n.op == 'fn' and n.info in ELEM:
            return self.it.fn(n.info, [self.flat(x, d + 1) for x in n.args],
                              n.kw or (), None)
        return n

    def cond0(self, f, d=0):
        return self.cond(f, None, d)

    def cond(self, f, j, d=0):
        """The elementwise condition f at row j."""
        if f <= 1:
            return f
        b = G.b
        out = {}
        for v in b.support(f):
            pred, nodes, info, vns = G.atoms[v]
            if not nodes or pred in ('all', 'any', 'isnone', 'isinst'):
                continue
            a = []
            for k, x in enumerate(nodes):
                if pred == 'in' and k == 1:
                    a.append(x)     # the container as a whole
                elif j is not None and self.isarr(x):
                    a.append(self.at(x, j, d + 1))
                else:
                    a.append(self.flat(x, d + 1))
            if all(x is y for x, y in zip(a, nodes)):
                continue
            if pred == 'pos' and len(a) == 2:
                base, orig = G.lt(a[0], a[1]), G.lt(nodes[0], nodes[1])
                if orig == b.var(v):
                    out[v] = base
                elif orig == b.NOT(b.var(v)):
                    out[v] = b.NOT(base)
            elif pred == 'eq':
                out[v] = G.eq(*a)
            elif pred == 'truthy':
                out[v] = G.truth(a[0])
            elif pred == 'in':
                out[v] = G.contains(*a)
            elif pred != 'pos':
                out[v] = G.atom(pred, a, info)
        if not out:
            return f

        def comp(f):
            if f <= 1:
                return f
            v, lo, hi = b.nodes[f]
            return b.ite(out.get(v, b.var(v)), comp(hi), comp(lo))
        return comp(f)

    # ------------------------------------------------------------------
    def steps(self, j):
        """Selection steps of a row index, outermost (last applied) first."""
        out = []
        while j.op == 'sel':
            out.append(j.args[0])
            j = j.args[1]
        return out[::-1], j


def row():
    return G.raw('row', (), None, vn=G.intern(('row',)))


def cells(n, pc=TRUE):
    """[(condition, base, row index, column)] read by a scalar expression."""
    out = []

    def go(n, pc, seen):
        if (n.uid, pc) in seen or not G.sat(pc):
            return
        seen.add((n.uid, pc))
        if n.op == 'phi':
            go(n.args[0], G.b.AND(pc, n.info), seen)
            go(n.args[1], G.b.AND(pc, G.b.NOT(n.info)), seen)
            return
        if n.op == 'sub':
            x, i = n.args
            if x.op == 'sub' and x.args[1].op in ('sel', 'row', 'iota'):
                out.append((pc, x.args[0], x.args[1], i))
                return
            if i.op in ('sel', 'row', 'iota') or (
                    strip(x).op == 'param' and i.op in ('bin', 'num',
                                                        'const')):
                out.append((pc, x, i, None))
                return
        for a in n.args:
            go(a, pc, seen)
        for _, v in n.kw or ():
            go(v, pc, seen)
        if n.op == 'bool':
            for v in G.b.support(n.info):
                for x in G.atoms[v][1]:
                    go(x, pc, seen)
    go(n, pc, set())
    return out
