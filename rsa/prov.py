"""Where the entries of a list come from, when they are only selected.

src(n, col) is a set of origins: ('leaf', node) - an input whose entries are
handed on unaltered; ('altered', node) - an entry is computed by node;
('unknown', node) - not followed.
"""
from .core import G, TRUE, FALSE, strip, isconst
from .interp import fullslice

PASS = {'unique', 'sort', 'reversed', 'copy', 'flatten', 'ravel', 'delete',
        'compress', 'tile', 'repeat', 'roll', 'atleast_1d', 'squeeze',
        'iter', 'flat', 'min', 'max', 'nanmin', 'nanmax', 'median_low'}
ALTER = {'round', 'abs', 'sqrt', 'exp', 'log', 'log10', 'floor', 'ceil',
         'clip', 'int', 'mean', 'median', 'sum', 'interp', 'linspace',
         'arange', 'cumsum', 'diff', 'nan_to_num', 'average', 'polyval',
         'polyfit', 'digitize', 'argsort', 'argmin', 'argmax', 'len',
         'searchsorted', 'str', 'rint', 'trunc', 'square', 'zeros',
         'ones', 'range', 'zeros_like', 'ones_like', 'astype', 'nanmean'}
COLS = {'column_stack', 'vstack', 'hstack', 'concatenate'}
INT = ('int', 'int32', 'int64', 'float32', 'float16', 'str', 'bool',
       'float16', 'int16', 'uint16', 'uint32')


class Prov:
    def __init__(self, run):
        self.it = run.it
        self.memo = {}
        self.busy = set()

    def src(self, n, col=None, d=0):
        k = (n.uid, col)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return frozenset()
        if d > 90:
            return frozenset([('unknown', n)])
        self.busy.add(k)
        try:
            r = frozenset(self._src(n, col, d + 1))
        finally:
            self.busy.discard(k)
        if not self.busy:
            self.memo[k] = r
        return r

    def many(self, xs, col, d):
        out = set()
        for x in xs:
            out |= self.src(x, col, d)
        return out

    def _src(self, n, col, d):
        op, a = n.op, n.args
        src = self.src
        if col == 'K':
            # the keys of a dictionary
            if op in ('wrap', 'mut'):
                return src(a[0], col, d)
            if op == 'phi':
                return self.many(a, col, d)
            if op == 'mu':
                return src(a[0], col, d) | (src(n.next, col, d) if n.next
                                            is not None else {('unknown', n)})
            if op == 'update' and len(a) == 3:
                return src(a[0], col, d) | src(a[1], None, d)
            if op == 'dictcollect':
                return src(a[0], None, d)
            if op == 'dict':
                return self.many(n.info[0], None, d)
            return [('unknown', n)]
        if col is None and op == 'fn' and n.info == 'dictkeys':
            return src(a[0], 'K', d)
        if op == 'wrap':
            kw = dict(n.kw or ())
            t = kw.get('dtype')
            if t is not None and any(str(getattr(t, 'info', '')).endswith(
                    i) for i in INT):
                return [('altered', n)]
            if n.info in ('int', 'str', 'boolcast'):
                return [('altered', n)]
            return src(a[0], col, d)
        if op == 'const':
            if n.info is None:
                return []
            return [('altered', n)]
        if op == 'phi':
            return self.many(a, col, d)
        if op == 'mu':
            xs = [a[0]] + ([n.next] if n.next is not None else [])
            r = self.many(xs, col, d)
            return r | ({('unknown', n)} if n.next is None else set())
        if op in ('list', 'tuple', 'set'):
            if n.kw:
                return [('unknown', n)]
            if col is not None and op == 'tuple' and len(a) > col and all(
                    self.scalar(x) for x in a):
                return src(a[col], None, d)
            return self.many(a, col, d)
        if op == 'collect' or op == 'collectcat':
            e = a[0]
            if col is not None:
                t = strip(e)
                if t.op in ('tuple', 'list') and not t.kw and op == \
                        'collect' and col < len(t.args):
                    return src(t.args[col], None, d)
                return src(e, col, d)
            return src(e, None, d)
        if op == 'dictcollect':
            return src(a[1], col, d)
        if op == 'dict':
            return self.many(a, col, d)
        if op == 'listrep':
            return src(a[0], col, d)
        if op in ('concat', 'append', 'extend'):
            if op == 'append' and col is not None:
                t = strip(a[1])
                if t.op in ('tuple', 'list') and not t.kw and col < len(
                        t.args):
                    return src(a[0], col, d) | src(t.args[col], None, d)
            return self.many(a[:2], col, d)
        if op == 'mut':
            if n.info == 'insert':
                return src(a[0], col, d) | src(a[2], None, d)
            return src(a[0], col, d)
        if op == 'update':
            if len(a) == 3:
                return src(a[0], col, d) | src(a[2], None, d)
            return [('unknown', n)]
        if op == 'rnd':
            if n.info in ('numpy.random.choice', 'random.choice',
                          'numpy.random.permutation', 'random.sample',
                          'numpy.random.shuffle'):
                return src(a[0], col, d)
            if n.info in ('numpy.random.uniform', 'numpy.random.normal',
                          'numpy.random.rand', 'numpy.random.randn',
                          'random.random', 'numpy.random.random'):
                return [('altered', n)]
            return [('unknown', n)]
        if op == 'sub':
            return self.item(n, col, d)
        if op in ('bin', 'un'):
            if op == 'bin' and n.info == '+' and any(
                    strip(x).op in ('list', 'collect', 'concat', 'listrep',
                                    'extend', 'append') for x in a):
                return self.many(a, col, d)
            for x in a:
                if x.vn == n.vn:
                    return src(x, col, d)
            return [('altered', n)]
        if op == 'bool':
            return [('altered', n)]
        if op == 'fn':
            f = n.info
            if f in PASS and a:
                if mapping(a[0]) and f != 'copy':
                    return src(a[0], 'K', d)
                return src(a[0], col, d)
            if f == 'T' and a:
                return src(a[0], None, d)
            if f in ('where', 'where3') and len(a) == 3:
                return src(a[1], col, d) | src(a[2], col, d)
            if f in ('minimum', 'maximum'):
                return self.many(a, None, d)
            if f in ('insert',) and len(a) == 3:
                return src(a[0], col, d) | src(a[2], None, d)
            if f in COLS and a:
                x = strip(a[0])
                if x.op in ('list', 'tuple') and not x.kw:
                    if f == 'column_stack' and col is not None and \
                            col < len(x.args):
                        return src(x.args[col], None, d)
                    return self.many(x.args, col, d)
                return src(a[0], col, d)
            if f == 'zip':
                if col is not None and col < len(a):
                    return src(a[col], None, d)
                return self.many(a, None, d)
            if f == 'product' and not n.kw:
                if col is not None and col < len(a):
                    return src(a[col], None, d)
                return self.many([x.args[0] if x.op == 'star' else x
                                  for x in a], None, d)
            if f in ALTER:
                return [('altered', n)]
            return [('unknown', n)]
        if op in ('call', 'dyncall'):
            s = str(n.info)
            if s.split('.')[-1] in ALTER or 'poly' in s or 'legendre' in s or 'chebyshev' in s or \
                    s.startswith('scipy') or op == 'dyncall' and \
                    'poly' in str(strip(a[0]).info):
                return [('altered', n)]
            return [('unknown', n)]
        if op in ('field', 'param'):
            return [('leaf', n if col is None else (n, col))]
        if op == 'attr':
            return [('leaf', n)]
        return [('unknown', n)]

    def scalar(self, x):
        x = strip(x)
        return x.op in ('const', 'bin', 'un', 'attr') or x.op == 'sub' and (
            isconst(x.args[1]) or x.args[1].op in ('iota', 'row', 'sel')
            or x.args[1].op == 'fn') or x.op == 'rnd'

    def item(self, n, col, d):
        x, i = n.args
        if i.op == 'tuple' and len(i.args) == 2 and not i.kw:
            k = strip(i.args[1])
            if isconst(k) and isinstance(k.info, int):
                s = strip(x)
                if s.op == 'fn' and s.info in ('T',):
                    k = strip(i.args[0])
                    if isconst(k):
                        return self.src(s.args[0], k.info, d)
                    return [('unknown', n)]
                return self.src(x, k.info, d)
            if i.args[1].op == 'slice':
                if isconst(strip(i.args[0])) and strip(x).op == 'fn' and \
                        strip(x).info in ('vstack', 'stack', 'T', 'array'):
                    return self.src(x, strip(i.args[0]).info, d)
                return self.src(x, col, d)
        s = strip(x)
        if i.op == 'iota' and mapping(x):
            return self.src(x, 'K', d)
        if s.op == 'fn' and s.info == 'T' and isconst(i) and col is None:
            return self.src(s.args[0], i.info, d)
        if s.op == 'fn' and s.info == 'zip' and isconst(i) and len(
                s.args) == 1 and s.args[0].op == 'star':
            return self.src(s.args[0].args[0], i.info, d)
        if s.op == 'sub' and isconst(i) and isinstance(i.info, int) and \
                col is None and self.rowof(s):
            return self.src(s, i.info, d)
        if s.op in ('list', 'tuple') and isconst(i) and isinstance(
                i.info, int) and not s.kw and -len(s.args) <= i.info < len(
                    s.args):
            return self.src(s.args[i.info], col, d)
        return self.src(x, col, d)

    def rowof(self, s):
        """One row of a table (so that a constant index is a column)."""
        i = s.args[1]
        t = strip(s.args[0])
        while t.op == 'sub' and t.args[1].op in ('slice', 'bool'):
            t = strip(t.args[0])
        if mapping(t):
            return True
        if i.op not in ('iota', 'row', 'sel') and not isconst(i):
            return False
        return t.op == 'field' and t.info == 'pairs' or t.op == 'collect' \
            and strip(t.args[0]).op in ('tuple', 'list') or t.op == 'fn' \
            and t.info in ('column_stack', 'zip', 'product')


def mapping(t, d=0):
    t = strip(t)
    if d > 30:
        return False
    if t.op in ('dict', 'dictcollect'):
        return True
    if t.op in ('update', 'mu'):
        return mapping(t.args[0], d + 1)
    if t.op == 'phi':
        return all(mapping(x, d + 1) for x in t.args)
    return False
