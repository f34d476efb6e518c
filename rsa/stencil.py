"""Neighbour stencils: an array expression at the first, an inner and the
last position of a generic array, from slice arithmetic."""
from .core import G, TRUE, FALSE, strip, isconst
from .interp import fullslice


class Unknown(Exception):
    pass


def num(n):
    s = strip(n)
    v = G.num(s.vn) if s is not None else None
    return v


def neg(p):
    return ('i', 0) if False else p


class Stencil:
    """Positions: ('f', k) = k, ('i', k) = i + k, ('l', k) = n - 1 + k."""

    def __init__(self, it, arr, positive=None):
        self.it, self.arr = it, arr

    def elem(self, a, p):
        n = G.raw('elem', (a,), p)
        return n

    def bound(self, s, p, lower, size):
        """Is position p at or after (lower) / before (upper) bound s of an
        array with `size` = n + size elements?"""
        if s is None or (isconst(s) and s.info is None):
            return True
        v = num(s)
        if v is None:
            raise Unknown('slice bound')
        v = int(v)
        kind, k = p
        # absolute position as (kind, k); bound as front or back offset
        if v >= 0:
            b = ('f', v)
        else:
            b = ('l', v + 1 + size)       # n+size+v = (n-1)+(v+1+size)
        if kind == b[0]:
            return k >= b[1] if lower else k < b[1]
        if kind == 'f':                   # b at the back
            if b[0] == 'l':
                return not lower
        if kind == 'l':
            return lower
        # inner position: 1 <= i <= n-2 in the reference array
        if kind == 'i':
            if b[0] == 'f':
                if lower:
                    if k + 1 >= b[1]:
                        return True
                    raise Unknown('inner bound')
                if k + 1 >= b[1]:
                    return False
                raise Unknown('inner bound')
            # b is n-1+c ; i+k <= n-2+k
            c = b[1]
            if lower:
                if k - 1 < c:
                    return False
                raise Unknown('inner bound')
            if k - 1 < c:
                return True
            raise Unknown('inner bound')
        raise Unknown('bound')

    def size(self, n):
        """Length of n relative to the reference array."""
        s = strip(n)
        if s.vn == self.arr.vn:
            return 0
        if s.op == 'update':
            return self.size(s.args[0])
        if s.op in ('bin', 'un', 'dyncall'):
            r = None
            for a in s.args:
                try:
                    q = self.size(a)
                except Unknown:
                    continue
                if r is not None and q != r:
                    raise Unknown('shape')
                r = q
            if r is None:
                raise Unknown('size')
            return r
        if s.op == 'bool':
            for v in G.b.support(s.info):
                for x in G.atoms[v][1]:
                    try:
                        return self.size(x)
                    except Unknown:
                        continue
            raise Unknown('size')
        if s.op == 'fn':
            if s.info == 'diff' and len(s.args) == 1 and not s.kw:
                return self.size(s.args[0]) - 1
            if s.info in ('zeros', 'ones', 'full', 'empty'):
                return self.count(s.args[0])
            if s.info in ('insert',):
                return self.size(s.args[0]) + 1
            if s.info in ('concatenate', 'hstack'):
                t = strip(s.args[0])
                if t.op in ('list', 'tuple') and not t.kw:
                    r = None
                    k = 0
                    for x in t.args:
                        y = strip(x)
                        if y.op in ('list', 'tuple'):
                            k += len(y.args)
                        else:
                            q = self.size(y)
                            if r is not None:
                                raise Unknown('shape')
                            r = q
                    if r is None:
                        raise Unknown('size')
                    return r + k
            for a in s.args:
                try:
                    return self.size(a)
                except Unknown:
                    continue
        if s.op == 'sub' and s.args[1].op == 'slice':
            n0 = self.size(s.args[0])
            lo, hi, st = s.args[1].args
            if st is not None and not (isconst(st) and st.info in (None, 1)):
                if num(st) == -1:
                    return n0
                raise Unknown('step')
            k = n0
            for q, front in ((lo, True), (hi, False)):
                if q is None or (isconst(q) and q.info is None):
                    continue
                v = num(q)
                if v is None:
                    raise Unknown('slice')
                if front and v >= 0:
                    k -= int(v)
                elif not front and v < 0:
                    k += int(v)
                else:
                    raise Unknown('slice')
            return k
        raise Unknown('size of ' + s.op)

    def count(self, n):
        s = strip(n)
        p = G.poly_of(s.vn)
        ref = self.it.length(self.arr, None)
        q = G.padd(p, G.poly_of(ref.vn), -1)
        if all(m == () for m in q):
            return int(q.get((), 0))
        raise Unknown('count')

    def at(self, n, p, d=0):
        if d > 60:
            raise Unknown('depth')
        s = strip(n)
        if s.vn == self.arr.vn:
            return self.elem(self.arr, p)
        op = s.op
        if op in ('const',):
            return s
        if op == 'phi':
            return G.phi(s.info, self.at(s.args[0], p, d + 1),
                         self.at(s.args[1], p, d + 1))
        if op == 'update':
            x, i, v = s.args
            i = strip(i)
            size = self.size(x)
            if i.op == 'slice':
                lo, hi, stp = i.args
                if stp is not None and not (isconst(stp) and
                                            stp.info in (None, 1)):
                    raise Unknown('step')
                if self.bound(lo, p, True, size) and \
                        self.bound(hi, p, False, size):
                    return self.at(v, self.shift(p, lo, size), d + 1)
                return self.at(x, p, d + 1)
            k = num(i)
            if k is None:
                raise Unknown('index')
            k = int(k)
            q = ('f', k) if k >= 0 else ('l', k + 1 + size)
            if p == q:
                return self.at(v, ('f', 0), d + 1)
            if p[0] == q[0] or {p[0], q[0]} == {'f', 'l'}:
                return self.at(x, p, d + 1)
            if q in (('f', 0), ('l', 0)) and p == ('i', 0):
                return self.at(x, p, d + 1)
            raise Unknown('update position')
        if op == 'sub':
            x, i = s.args
            if i.op == 'slice':
                lo, hi, stp = i.args
                size = self.size(x)
                if stp is not None and not (isconst(stp) and
                                            stp.info in (None, 1)):
                    raise Unknown('step')
                # element p of the slice is element p + lo of x
                if lo is None or (isconst(lo) and lo.info is None):
                    k = 0
                else:
                    k = num(lo)
                    if k is None or k < 0:
                        raise Unknown('slice start')
                    k = int(k)
                kind, o = p
                if kind == 'l':
                    return self.at(x, p if False else ('l', o + k), d + 1)
                return self.at(x, (kind, o + k), d + 1)
            k = num(i)
            if k is not None:
                k = int(k)
                if k >= 0:
                    return self.at(x, ('f', k), d + 1)
                return self.at(x, ('l', k + 1 + self.size(x)), d + 1)
            raise Unknown('subscript')
        if op == 'bin':
            return G.bin(s.info, self.at(s.args[0], p, d + 1),
                         self.at(s.args[1], p, d + 1))
        if op == 'un':
            return G.un(s.info, self.at(s.args[0], p, d + 1))
        if op == 'bool':
            return G.bool(self.cond(s.info, p, d + 1))
        if op == 'fn':
            c = s.info
            if c in ('zeros', 'zeros_like'):
                return G.const(0)
            if c in ('ones', 'ones_like'):
                return G.const(1)
            if c in ('full', 'full_like'):
                return self.at(s.args[1], ('f', 0), d + 1)
            if c == 'abs':
                x = self.at(s.args[0], p, d + 1)
                return G.phi(G.cmp('<', x, G.const(0)), G.un('-', x), x)
            if c in ('minimum', 'min', 'maximum', 'max') and \
                    len(s.args) == 2:
                a = self.at(s.args[0], p, d + 1)
                b = self.at(s.args[1], p, d + 1)
                f = G.cmp('<', a, b)
                return G.phi(f, a, b) if c[:3] == 'min' else G.phi(f, b, a)
            if c == 'where' and len(s.args) == 3:
                return G.phi(G.truth(self.at(s.args[0], p, d + 1)),
                             self.at(s.args[1], p, d + 1),
                             self.at(s.args[2], p, d + 1))
            if c in ('len', 'size'):
                return s
            if c == 'isclose' and len(s.args) >= 2:
                return G.raw('fn', (self.at(s.args[0], p, d + 1), self.at(
                    s.args[1], p, d + 1)) + s.args[2:], c, s.kw)
            if c == 'diff' and len(s.args) == 1 and not s.kw:
                kind, k = p
                a = self.at(s.args[0], (kind, k + 1), d + 1)
                b = self.at(s.args[0], p, d + 1)
                return G.bin('-', a, b)
            if c in ('concatenate', 'hstack'):
                t = strip(s.args[0])
                parts = t.args
                front = 0
                for j, x in enumerate(parts):
                    y = strip(x)
                    if y.op in ('list', 'tuple'):
                        if j == 0:
                            if p[0] == 'f' and p[1] < len(y.args):
                                return self.at(y.args[p[1]], ('f', 0), d + 1)
                            front = len(y.args)
                        else:
                            # trailing piece
                            tot = self.size(s)
                            m = len(y.args)
                            if p[0] == 'l':
                                # index from the end of the whole
                                e = p[1] - tot      # 0 = last
                                if e > -m:
                                    return self.at(y.args[m - 1 + e],
                                                   ('f', 0), d + 1)
                    else:
                        core = y
                return self.at(core, (p[0], p[1] - front), d + 1)
            if c == 'insert' and num(s.args[1]) == 0:
                if p == ('f', 0):
                    return self.at(s.args[2], ('f', 0), d + 1)
                return self.at(s.args[0], (p[0], p[1] - 1), d + 1)
            raise Unknown('function ' + str(c))
        if op in ('param', 'field') or op in ('iota',):
            return s
        raise Unknown('operation ' + op)

    def shift(self, p, lo, size):
        kind, k = p
        if lo is None or (isconst(lo) and lo.info is None):
            return p
        v = int(num(lo))
        if v < 0:
            raise Unknown('negative start')
        return (kind, k - v)

    def cond(self, f, p, d=0):
        if f <= 1:
            return f
        b = G.b
        out = {}
        for v in b.support(f):
            pred, nodes, info, vns = G.atoms[v]
            if not nodes or pred in ('isnone', 'isinst'):
                continue
            if pred == 'pos' and len(nodes) == 2:
                orig = G.lt(nodes[0], nodes[1])
                a = [self.at(x, p, d + 1) for x in nodes]
                new = G.cmp('<', a[0], a[1])
                if orig == b.var(v):
                    out[v] = new
                elif orig == b.NOT(b.var(v)):
                    out[v] = b.NOT(new)
                else:
                    raise Unknown('atom')
            elif pred == 'truthy':
                out[v] = G.truth(self.at(nodes[0], p, d + 1))
            elif pred == 'isclose':
                out[v] = G.atom(pred, [self.at(x, p, d + 1)
                                       for x in nodes], info)
            elif pred == 'eq':
                out[v] = G.cmp('==', *[self.at(x, p, d + 1) for x in nodes])
            else:
                raise Unknown('condition ' + pred)

        def comp(f):
            if f <= 1:
                return f
            v, lo, hi = b.nodes[f]
            return b.ite(out.get(v, b.var(v)), comp(hi), comp(lo))
        return comp(f)
