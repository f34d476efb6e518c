"""Rational normal form of extracted formulas.

Coefficients are exact rationals, represented modulo a 61-bit prime.
"""
import random
from fractions import Fraction

from .core import G, strip, isconst


PRIME = (1 << 61) - 1


def mod(v):
    v = Fraction(v)
    return v.numerator % PRIME * pow(v.denominator, -1, PRIME) % PRIME


class TooBig(Exception):
    pass


class Rat:
    """Values P/Q over named atoms; square roots are atoms with a known
    square."""

    def __init__(self, atom, limit=60000):
        self.atom = atom            # node -> key or None
        self.roots = []             # [(key, (P, Q))]
        self.limit = limit
        self.memo = {}

    # polynomials: {((key, exp), ...): Fraction}
    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = (r.get(m, 0) + s * c) % PRIME
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        if len(p) * len(q) > self.limit * 20:
            raise TooBig
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = dict(m1)
                for k, e in m2:
                    d[k] = d.get(k, 0) + e
                m = tuple(sorted(d.items()))
                r[m] = r.get(m, 0) + c1 * c2
        r = {m: c % PRIME for m, c in r.items() if c % PRIME}
        if len(r) > self.limit:
            raise TooBig
        return r

    ONE = {(): 1}

    def radd(self, a, b, s=1):
        if a[1] == b[1]:
            return self.add(a[0], b[0], s), a[1]
        return self.add(self.mul(a[0], b[1]), self.mul(b[0], a[1]), s), \
            self.mul(a[1], b[1])

    def rmul(self, a, b):
        return self.mul(a[0], b[0]), self.mul(a[1], b[1])

    def rdiv(self, a, b):
        return self.mul(a[0], b[1]), self.mul(a[1], b[0])

    def rpow(self, a, n):
        if n < 0:
            a, n = (a[1], a[0]), -n
        r = (self.ONE, self.ONE)
        for _ in range(n):
            r = self.rmul(r, a)
        return r

    def key(self, k):
        return {((k, 1),): 1}, self.ONE

    def sqrt(self, a):
        for k, b in self.roots:
            if self.equal(a, b):
                return self.key(k)
        k = 'root%d' % len(self.roots)
        self.roots.append((k, a))
        return self.key(k)

    def rat(self, n):
        n = strip(n)
        if n.uid in self.memo:
            return self.memo[n.uid]
        r = self._rat(n)
        self.memo[n.uid] = r
        return r

    def _rat(self, n):
        v = G.num(n.vn)
        if v is not None:
            return ({(): mod(v)} if v else {}), self.ONE
        k = self.atom(n)
        if k is not None:
            return self.key(k)
        if n.op == 'bin' and n.info in '+-*/':
            a, b = self.rat(n.args[0]), self.rat(n.args[1])
            return {'+': lambda: self.radd(a, b),
                    '-': lambda: self.radd(a, b, -1),
                    '*': lambda: self.rmul(a, b),
                    '/': lambda: self.rdiv(a, b)}[n.info]()
        if n.op == 'bin' and n.info == '**':
            e = G.num(strip(n.args[1]).vn)
            if e is not None and e.denominator == 1 and abs(e) <= 12:
                return self.rpow(self.rat(n.args[0]), int(e))
            if e is not None and e.denominator == 2 and abs(e) <= 6:
                return self.rpow(self.sqrt(self.rat(n.args[0])),
                                 int(e.numerator))
        if n.op == 'un' and n.info == '-':
            a = self.rat(n.args[0])
            return {m: PRIME - c for m, c in a[0].items()}, a[1]
        if n.op == 'fn' and n.info == 'sqrt':
            return self.sqrt(self.rat(n.args[0]))
        if n.op == 'fn' and n.info in ('power', 'reciprocal', 'square'):
            if n.info == 'square':
                return self.rpow(self.rat(n.args[0]), 2)
            if n.info == 'reciprocal':
                return self.rpow(self.rat(n.args[0]), -1)
        raise ValueError('no rational form: %s %s' % (n.op, n.info))

    def reduce(self, p):
        """Replace squares of roots by their arguments: (P, Q)."""
        q = self.ONE
        for k, (a, b) in reversed(self.roots):
            top = max([dict(m).get(k, 0) for m in p] or [0]) // 2
            if top <= 0:
                continue
            r = {}
            pa = [self.ONE]
            pb = [self.ONE]
            for _ in range(top):
                pa.append(self.mul(pa[-1], a))
                pb.append(self.mul(pb[-1], b))
            for m, c in p.items():
                d = dict(m)
                h = d.get(k, 0) // 2
                if h:
                    d[k] -= 2 * h
                    if not d[k]:
                        del d[k]
                t = {tuple(sorted(d.items())): c}
                r = self.add(r, self.mul(self.mul(t, pa[h]), pb[top - h]))
            p = r
        return p

    def equal(self, a, b):
        if a == b:
            return True
        try:
            x, y = self.mul(a[0], b[1]), self.mul(b[0], a[1])
        except TooBig:
            return self.points(a, b)
        return x == y or self.reduce(x) == self.reduce(y)

    def points(self, a, b, n=3):
        """Identity of two normal forms, decided in the field of integers
        modulo PRIME at random places (a difference is exact, agreement
        holds but for a chance of degree/2**61 per place)."""
        rnd = random.Random(7)
        names = set()
        todo = [a, b] + [r for _, r in self.roots]
        for x in todo:
            for p in x:
                names.update(k for m in p for k, _ in m)
        keys = {k for k, _ in self.roots}
        done = tries = 0
        while done < n:
            tries += 1
            if tries > 200:
                raise TooBig
            at = {k: rnd.randrange(2, PRIME) for k in sorted(names - keys)}
            for k, r in self.roots:
                v = self.value(r, at)
                if v is None or pow(v, (PRIME - 1) // 2, PRIME) > 1:
                    break
                at[k] = pow(v, (PRIME + 1) // 4, PRIME)
            else:
                u, v = self.value(a, at), self.value(b, at)
                if u is None or v is None:
                    continue
                if u != v:
                    return False
                done += 1
        return True

    def value(self, r, at):
        def one(p):
            t = 0
            for m, c in p.items():
                for k, e in m:
                    c = c * pow(at[k], e, PRIME) % PRIME
                t += c
            return t % PRIME
        q = one(r[1])
        return one(r[0]) * pow(q, -1, PRIME) % PRIME if q else None
