"""Which rows does an array have, and which rows does an index refer to?

space(n) is a key for the rows of an array: two arrays with the same key have
the same number of rows and row i of one belongs to row i of the other.
target(i) is the key of the rows that an index (array) counts.
"""
from .core import G, TRUE, FALSE, strip, isconst
from .interp import fullslice

ELEM = {'abs', 'sqrt', 'exp', 'log', 'log10', 'round', 'floor', 'ceil',
        'isfinite', 'isnan', 'nan_to_num', 'clip', 'where', 'where3',
        'minimum', 'maximum', 'square', 'zeros_like', 'ones_like',
        'full_like', 'empty_like', 'cumsum', 'astype', 'digitize', 'isin'}
SCALAR = {'sum', 'mean', 'max', 'min', 'std', 'ptp', 'len', 'argmin',
          'argmax', 'any', 'all', 'nansum', 'nanmax', 'nanmin', 'median',
          'nanmean', 'int', 'float', 'str', 'nanargmin', 'nanargmax',
          'searchsorted'}
VALS = tuple(p + 'val' for p in (
    'numpy.polynomial.polynomial.poly', 'numpy.polynomial.legendre.leg',
    'numpy.polynomial.chebyshev.cheb'))


class Spaces:
    def __init__(self, run):
        self.it = run.it
        self.memo = {}

    def space(self, n, d=0):
        k = n.uid
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self.memo[k] = self._space(strip(n), d + 1) if d < 60 else None
        return r

    def _space(self, n, d):
        op = n.op
        sp = self.space
        if op == 'const':
            return None
        if op in ('list', 'tuple'):
            return None if n.kw else ('list', len(n.args))
        if op in ('field', 'param', 'call', 'attr', 'mcall') and not (
                op == 'call' and n.info in VALS):
            return ('base', n.vn)
        if op == 'call':
            return sp(n.args[0], d)
        if op == 'dyncall':
            if len(n.args) == 3:
                return sp(n.args[1], d)
            return None
        if op == 'collect':
            s = self.loop(n, d)
            c = n.args[2]
            if s is None:
                return None
            return s if isconst(c) and c.info else ('sel', s, c.vn)
        if op == 'collectcat':
            s, t = self.loop(n, d), sp(n.args[0], d)
            if s is None or t is None:
                return None
            return ('cat*', s, n.args[2].vn, t)
        if op == 'listrep':
            x = n.args[0]
            if len(x.args) == 1:
                return self.counted(n.args[1], d)
            return None
        if op == 'concat':
            a, b = [sp(x, d) for x in n.args[:2]]
            return cat(a, b)
        if op == 'append':
            return cat(sp(n.args[0], d), ('list', 1))
        if op == 'extend':
            return cat(sp(n.args[0], d), sp(n.args[1], d))
        if op == 'mut' and n.info in ('insert', 'pop'):
            s = sp(n.args[0], d)
            i = n.args[1].vn if len(n.args) > 1 else G.const(-1).vn
            return s and ('ins' if n.info == 'insert' else 'del', s, i)
        if op == 'update':
            return sp(n.args[0], d)
        if op == 'phi':
            a, b = [sp(x, d) for x in n.args]
            if a == b:
                return a
            return a and b and ('phi', n.info, a, b)
        if op in ('bin', 'un'):
            return self.common(n.args, d)
        if op == 'bool':
            return self.common([x for v in sorted(G.b.support(n.info))
                                if G.atoms[v][0] not in (
                                    'isnone', 'isinst', 'all', 'any')
                                for x in G.atoms[v][1]], d)
        if op == 'sub':
            return self.subspace(n, d)
        if op == 'mu':
            return self.carried(n, d)
        if op == 'fn':
            return self.fnspace(n, d)
        if op == 'iterel' or op == 'iota':
            return None
        return None

    def common(self, xs, d):
        ks = {self.space(x, d) for x in xs} - {None, ('list', 1)}
        return ks.pop() if len(ks) == 1 else None

    def counted(self, n, d):
        """The rows behind a length."""
        s = strip(n)
        if s.op == 'fn' and s.info == 'len' and len(s.args) == 1:
            return self.space(s.args[0], d)
        if s.op == 'fn' and s.info == 'sum' and strip(
                s.args[0]).op == 'bool':
            m = strip(s.args[0])
            x = self.space(m, d)
            return x and ('sel', x, m.vn)
        return ('n', s.vn)

    def loop(self, n, d):
        it = getattr(n.info, 'iter', None)
        if it is not None and strip(it).op == 'fn' and strip(
                it).info in ('zip', 'enumerate'):
            return self.iter(it, d)
        return self.iter(n.args[1], d)

    def iter(self, s, d):
        """Rows of what a loop runs over."""
        s = strip(s)
        if s.op == 'fn' and s.info == 'zip' and s.args:
            ks = [self.iter(a, d) for a in s.args]
            if None in ks:
                return ks[0] if s.args and ks[0] else None
            if len(set(ks)) == 1:
                return ks[0]
            return ('zip',) + tuple(ks)
        if s.op == 'fn' and s.info in ('enumerate', 'reversed'):
            return self.iter(s.args[0], d)
        if s.op == 'fn' and s.info == 'range' and len(s.args) == 1:
            return self.counted(s.args[0], d)
        return self.space(s, d)

    def fnspace(self, n, d):
        f, a = n.info, n.args
        if f in ('sum', 'any', 'all') and len(a) == 2 and isconst(
                a[1]) and a[1].info == 0 and a[1].info is not False:
            return self.lastaxis(a[0], d)
        if f in SCALAR or not a:
            return None
        if f in ELEM:
            return self.common(a[:3], d)
        if f == 'unique' and not n.kw:
            return ('uniq', strip(a[0]).vn)
        if f == 'sort':
            s = self.space(a[0], d)
            return s and ('sort', s, strip(a[0]).vn)
        if f in ('argsort',):
            s = self.space(a[0], d)
            return s and ('perm', s, strip(a[0]).vn)
        if f in ('flatnonzero', 'nonzero', 'argwhere'):
            s = self.space(a[0], d)
            return s and ('sel', s, strip(a[0]).vn)
        if f == 'reversed':
            s = self.space(a[0], d)
            return s and ('rev', s)
        if f == 'insert' and len(a) == 3:
            s = self.space(a[0], d)
            return s and ('ins', s, strip(a[1]).vn)
        if f == 'delete' and len(a) >= 2:
            s = self.space(a[0], d)
            return s and ('del', s, strip(a[1]).vn)
        if f in ('concatenate', 'hstack') and strip(a[0]).op in (
                'list', 'tuple'):
            k = ('list', 0)
            for x in strip(a[0]).args:
                k = cat(k, self.space(x, d))
            return k
        if f == 'append' and len(a) == 2:
            return cat(self.space(a[0], d), self.space(a[1], d) or (
                'list', 1))
        if f == 'range' and len(a) == 1:
            return self.counted(a[0], d)
        if f in ('zeros', 'ones', 'empty', 'full', 'arange'):
            if f != 'arange' or len(a) == 1:
                return self.counted(a[0], d)
        if f in ('zip', 'enumerate'):
            return self.iter(n, d)
        return None

    def lastaxis(self, x, d):
        """Rows of the last axis of a comparison with a column vector."""
        x = strip(x)
        if x.op != 'bool':
            return None
        vs = list(G.b.support(x.info))
        if len(vs) != 1 or len(G.atoms[vs[0]][1]) != 2:
            return None
        flat, cols = [], 0
        for y in G.atoms[vs[0]][1]:
            y = strip(y)
            i = strip(y.args[1]) if y.op == 'sub' else None
            if i is not None and i.op == 'fn' and i.info == 'argwhere':
                cols += 1
            else:
                flat.append(y)
        return self.space(flat[0], d) if cols == 1 and len(flat) == 1 \
            else None

    def subspace(self, n, d):
        x, i = n.args
        if i.op == 'slice':
            if fullslice(i):
                return self.space(x, d)
            s = self.space(x, d)
            if s is None:
                return None
            if [isconst(y) and y.info for y in i.args] == [
                    None, None, -1]:
                return ('rev', s)
            return ('slice', s, i.vn)
        xs = strip(x)
        if xs.op == 'fn' and xs.info == 'unique' and xs.kw and isconst(i):
            return None
        if xs.op == 'fn' and xs.info in ('nonzero',) and isconst(i):
            return self.space(xs, d)
        if isconst(i):
            if xs.op in ('list', 'tuple') and isinstance(i.info, int) and \
                    -len(xs.args) <= i.info < len(xs.args) and not xs.kw:
                return self.space(xs.args[i.info], d)
        i = self.it.normidx(i)
        if i.op == 'bool':
            s = self.space(x, d)
            return s and ('sel', s, i.vn)
        if i.op in ('iota', 'row', 'sel') or isconst(i) or i.op == 'iterel':
            return self.element(xs, d)
        t = self.space(i, d)
        if t is None:
            return self.element(xs, d)
        s = self.space(x, d)
        return s and ('idx', s, i.vn)

    # ---- elements of lists of lists -------------------------------------
    def element(self, x, d):
        """Rows of an element of x, the same for every element."""
        ks = set()
        for e in self.elements(x, d):
            if e is None:
                return None
            ks.add(self.space(e, d) if not isinstance(e, tuple) else e)
        return ks.pop() if len(ks) == 1 else None

    def elements(self, x, d):
        x = strip(x)
        if d > 60:
            return [None]
        if x.op in ('list', 'tuple') and not x.kw:
            return list(x.args)
        if x.op == 'collect':
            return [x.args[0]]
        if x.op == 'collectcat':
            return self.elements(x.args[0], d + 1)
        if x.op == 'concat':
            return [e for a in x.args for e in self.elements(a, d + 1)]
        if x.op == 'append':
            return self.elements(x.args[0], d + 1) + [x.args[1]]
        if x.op == 'phi':
            return [e for a in x.args for e in self.elements(a, d + 1)]
        if x.op == 'sub' and x.args[1].op in ('slice', 'bool'):
            return self.elements(x.args[0], d + 1)
        if x.op == 'fn' and x.info in ('sort', 'reversed', 'unique'):
            return self.elements(x.args[0], d + 1)
        if x.op == 'fn' and x.info == 'product' and not x.kw:
            if len(x.args) == 1 and x.args[0].op == 'star':
                return [self.space(x.args[0].args[0], d)]
        if x.op == 'mu':
            return [self.grown(x, d)]
        return [None]

    def grown(self, m, d):
        """One row per completed round of the loop."""
        if m.next is None:
            return None
        first = self.elements(m.args[0], d + 1)
        if not all(e is not None and not isinstance(e, tuple) and
                   self.space(e, d) == ('list', 0) for e in first):
            return None
        if not self.complete(m.info):
            return None
        if self.growth(m, d) == {1}:
            it = getattr(m.info, 'iter', None)
            return self.iter(it, d) if it is not None else None
        return None

    def complete(self, L):
        return not any(k == 'break' and G.sat(s.pc) for k, s in L.outs)

    def growth(self, m, d=0):
        """Rows every element gains in a round: a set of numbers."""
        out = set()
        for e in self.elements2(m.next, m, d):
            out.add(e)
        return out

    def elements2(self, x, m, d):
        x = strip(x)
        if d > 60:
            return {None}
        u = set()
        if x.op == 'mu' and x.vn == m.vn:
            return {0}
        if x.op in ('list', 'tuple') and not x.kw:
            return u.union(*[self.gain(e, m) for e in x.args])
        if x.op == 'collect':
            return self.gain(x.args[0], m)
        if x.op == 'collectcat':
            return self.elements2(x.args[0], m, d + 1)
        if x.op in ('concat', 'phi'):
            return u.union(*[self.elements2(a, m, d + 1) for a in x.args])
        if x.op == 'append':
            return self.elements2(x.args[0], m, d + 1) | self.gain(
                x.args[1], m)
        if x.op == 'sub' and x.args[1].op in ('slice', 'bool'):
            return self.elements2(x.args[0], m, d + 1)
        if x.op == 'fn' and x.info in ('sort', 'reversed'):
            return self.elements2(x.args[0], m, d + 1)
        return {None}

    def gain(self, e, m):
        """Rows added to an element of m."""
        e = strip(e)
        if e.op == 'sub' and strip(e.args[0]).vn == m.vn:
            return {0}
        if e.op == 'concat':
            b = self.space(e.args[1])
            if b is not None and b[0] == 'list':
                return {None if a is None else a + b[1]
                        for a in self.gain(e.args[0], m)}
            return {None}
        if e.op == 'append':
            return {None if a is None else a + 1
                    for a in self.gain(e.args[0], m)}
        if e.op == 'phi':
            return self.gain(e.args[0], m) | self.gain(e.args[1], m)
        return {None}

    def carried(self, m, d):
        """All values a loop-carried variable can take have these rows."""
        ks, todo, seen = set(), [m], {m.vn}
        while todo:
            x = todo.pop()
            for src in (x.args[0], x.next):
                if src is None:
                    return None
                for c, l in G.leaves(src, TRUE):
                    s = strip(l)
                    if isconst(s) and s.info is None:
                        continue
                    if s.op == 'mu':
                        if s.vn not in seen:
                            seen.add(s.vn)
                            todo.append(s)
                        continue
                    ks.add(self.space(l, d))
        return ks.pop() if len(ks) == 1 else None

    # ---- indices ---------------------------------------------------------
    def target(self, i, d=0):
        """Rows that the index counts."""
        i = strip(i)
        if i.op == 'bool':
            return self.space(i, d)
        if i.op == 'fn':
            f, a = i.info, i.args
            if f in ('argmin', 'argmax', 'nanargmin', 'nanargmax') and \
                    len(a) == 1:
                return self.space(a[0], d)
            if f in ('argsort', 'flatnonzero', 'nonzero', 'argwhere'):
                return self.space(a[0], d)
        if i.op == 'sub':
            x, j = i.args
            if isconst(j) or j.op in ('slice', 'iota', 'bool'):
                return self.target(x, d)
            t = self.target(x, d)
            return t
        if i.op == 'phi':
            a, b = [self.target(x, d) for x in i.args]
            return a if a == b else None
        return None


def cat(a, b):
    if a is None or b is None:
        return None
    if a[0] == 'list' and b[0] == 'list':
        return ('list', a[1] + b[1])
    if a == ('list', 0):
        return b
    if b == ('list', 0):
        return a
    return ('cat', a, b)


def root(k):
    """The original rows a space was derived from."""
    while k and k[0] in ('sel', 'idx', 'slice', 'rev', 'sort', 'perm', 'ins',
                         'del'):
        k = k[1]
    return k


def told(k, d=0):
    """Readable form."""
    if k is None:
        return '?'
    if k[0] in ('base', 'uniq'):
        from .core import show
        n = G.vn_node.get(k[1])
        t = show(n, 2)[:60] if n is not None else '?'
        return t if k[0] == 'base' else 'unique(%s)' % t
    if k[0] == 'zip':
        return 'shortest of (%s)' % ', '.join(told(x, d + 1) for x in k[1:])
    if k[0] in ('list', 'n'):
        return '%s %s' % (k[0], k[1])
    if k[0] == 'sel':
        return 'selection of ' + told(k[1], d + 1)
    return '%s of %s' % (k[0], told(k[1], d + 1) if isinstance(
        k[1], tuple) else k[1])
