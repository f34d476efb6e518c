"""Rows of flattened two-dimensional expressions."""
from .core import G, isconst, strip, Node
from .rows import Rows
from .interp import fullslice

FLAT = ('ravel', 'flatten', 'concatenate', 'hstack', 'flat')


def none(n):
    return isconst(n) and n.info is None or (
        n.op == 'ext' and str(n.info).endswith('newaxis'))


class Grid(Rows):
    """at() that also reads flattened tables, repeated and tiled columns.

    A row of a flattened table is split into its major (first) and minor
    (last) coordinate.
    """

    def major(self, j):
        return G.raw('sel', (G.const('major'), j))

    def minor(self, j):
        return G.raw('sel', (G.const('minor'), j))

    def rank(self, n, d=0):
        """1, 2 or None: the number of axes; lists of arrays have two."""
        if d > 40:
            return None
        if n.op == 'wrap':
            if n.info == 'flat':
                return 1
            return self.rank(n.args[0], d + 1)
        if n.op in ('bin', 'un') or n.op == 'fn' and n.info in (
                'abs', 'sqrt', 'minimum', 'maximum', 'where', 'round'):
            r = [self.rank(a, d + 1) or 0 for a in n.args
                 if self.isarr(a)]
            return max(r) if r else 0
        if n.op == 'fn':
            if n.info in ('outer', 'column_stack', 'vstack', 'T', 'dstack',
                          'stack', 'meshgrid'):
                return 2
            if n.info in ('concatenate', 'hstack', 'repeat', 'tile',
                          'linspace', 'arange', 'sort', 'argsort'):
                return 1
        if n.op == 'sub':
            i = n.args[1]
            if i.op == 'tuple' and any(none(x) for x in i.args):
                return 2
            if i.op == 'tuple':
                return sum(x.op in ('slice', 'bool') for x in i.args)
            if isconst(i) or i.op in ('iota', 'sel', 'row'):
                return (self.rank(n.args[0], d + 1) or 1) - 1
            return self.rank(n.args[0], d + 1)
        if n.op == 'collect':
            x = n.args[0]
            return 1 + (self.rank(x, d + 1) or 0 if self.isarr(x) else 0)
        if n.op in ('list', 'tuple') and n.args and not n.kw:
            return 1 + (max(self.rank(a, d + 1) or 0 for a in n.args)
                        if any(self.isarr(a) for a in n.args) else 0)
        if n.op == 'listrep':
            return 2 if any(self.isarr(a) for a in n.args[0].args) else 1
        if n.op == 'call' and n.info.endswith('.outer'):
            return 2
        return 1 if self.isarr(n) or n.op in ('param', 'field') else 0

    def el(self, n, i, k, d=0):
        """Element (i, k) of a two-dimensional expression."""
        if d > 60:
            return G.raw('sub', (G.raw('sub', (n, i)), k))
        if n.op == 'wrap':
            return self.el(n.args[0], i, k, d + 1)
        if n.op == 'call' and n.info.endswith('.outer') and \
                len(n.args) == 2:
            op = n.info.split('.')[-2]
            a, b = self.at(n.args[0], i, d + 1), self.at(n.args[1], k, d + 1)
            sym = {'subtract': '-', 'add': '+', 'multiply': '*',
                   'divide': '/'}.get(op)
            if sym:
                return G.bin(sym, a, b)
        if n.op in ('bin', 'un') or n.op == 'fn' and n.info in (
                'abs', 'sqrt', 'minimum', 'maximum', 'where', 'round'):
            args = []
            for a in n.args:
                if not self.isarr(a):
                    args.append(self.flat(a, d + 1))
                elif self.rank(a) == 2:
                    args.append(self.el(a, i, k, d + 1))
                else:
                    args.append(self.at(a, k, d + 1))
            if n.op == 'bin':
                return G.bin(n.info, *args)
            if n.op == 'un':
                return G.un(n.info, *args)
            return self.it.fn(n.info, args, n.kw or (), None)
        if n.op == 'fn':
            if n.info == 'outer' and len(n.args) == 2:
                return G.bin('*', self.at(n.args[0], i, d + 1),
                             self.at(n.args[1], k, d + 1))
            if n.info == 'T':
                return self.el(n.args[0], k, i, d + 1)
            if n.info == 'column_stack':
                return self.at(self.pick(n.args[0], k), i, d + 1)
            if n.info in ('vstack', 'stack', 'row_stack'):
                return self.at(self.pick(n.args[0], i), k, d + 1)
        if n.op == 'sub':
            x, s = n.args
            if s.op == 'tuple' and len(s.args) == 2:
                a, b = s.args
                if none(b) and fullslice(a):
                    return self.at(x, i, d + 1)
                if none(a) and fullslice(b):
                    return self.at(x, k, d + 1)
        if n.op in ('collect', 'list', 'tuple', 'listrep'):
            return self.at(self.pick(n, i), k, d + 1)
        return G.raw('sub', (G.raw('sub', (n, i)), k))

    def pick(self, n, i):
        """Row i of a list of arrays."""
        s = n
        while s.op == 'wrap':
            s = s.args[0]
        if s.op == 'collect':
            L = s.info
            if isconst(s.args[2]) and s.args[2].info:
                return self.it.subst(s.args[0], {L.iota.vn: i})
        if s.op == 'listrep' and len(s.args[0].args) == 1:
            return s.args[0].args[0]
        if s.op in ('list', 'tuple') and not s.kw and s.args and all(
                a.vn == s.args[0].vn for a in s.args):
            return s.args[0]
        return G.raw('sub', (n, i))

    def _at(self, n, j, d):
        if d < 70:
            if n.op == 'wrap' and n.info == 'flat' and \
                    self.rank(n.args[0]) == 2:
                return self.el(n.args[0], self.major(j), self.minor(j),
                               d + 1)
            if n.op == 'fn' and n.info in ('concatenate', 'hstack') and \
                    n.args:
                x = strip(n.args[0])
                if self.rank(n.args[0]) == 2 and not n.kw and not (
                        x.op in ('list', 'tuple')):
                    return self.el(n.args[0], self.major(j), self.minor(j),
                                   d + 1)
            if n.op == 'fn' and n.info == 'repeat' and len(n.args) == 2 and \
                    not self.isarr(n.args[1]):
                return self.at(n.args[0], self.major(j), d + 1)
            if n.op == 'fn' and n.info == 'tile' and len(n.args) == 2 and \
                    not self.isarr(n.args[1]):
                return self.at(n.args[0], self.minor(j), d + 1)
        return super()._at(n, j, d)
