"""C07: the refraction formula is the published one (normal form)."""
from fractions import Fraction as F

from ..core import G, strip, isconst, show
from ..q import mentions, closure, roots
from ..ratform import Rat, TooBig, mod

K = [F(x) for x in ('1.16705214528e3', '-7.24213167032e5', '-1.70738469401e1',
                    '1.20208247025e4', '-3.23255503223e6', '1.49151086135e1',
                    '-4.82326573616e3', '4.05113405421e5',
                    '-2.38555575678e-1', '6.50175348448e2')]


class V:
    """Operator sugar over Rat values, for the published equations."""

    def __init__(self, R, v):
        self.R, self.v = R, v

    def o(self, x):
        if isinstance(x, V):
            return x.v
        return {(): mod(x)} if x else {}, self.R.ONE

    def __add__(self, x):
        return V(self.R, self.R.radd(self.v, self.o(x)))
    __radd__ = __add__

    def __sub__(self, x):
        return V(self.R, self.R.radd(self.v, self.o(x), -1))

    def __rsub__(self, x):
        return V(self.R, self.R.radd(self.o(x), self.v, -1))

    def __mul__(self, x):
        return V(self.R, self.R.rmul(self.v, self.o(x)))
    __rmul__ = __mul__

    def __truediv__(self, x):
        return V(self.R, self.R.rdiv(self.v, self.o(x)))

    def __rtruediv__(self, x):
        return V(self.R, self.R.rdiv(self.o(x), self.v))

    def __pow__(self, n):
        return V(self.R, self.R.rpow(self.v, n))


def edlen(w, t, p, pv):
    """https://emtoolbox.nist.gov/Wavelength/Documentation.asp, A.IV;
    wavelength in Angstrom, t in Celsius, pressures in Pascal."""
    S = F(10) ** 8 / (w * w)
    ns = 1 + F('1e-8') * (F('8342.54') + F('2406147') / (130 - S)
                          + F('15998') / (F('38.9') - S))
    X = (1 + F('1e-8') * (F('0.601') - F('0.00972') * t) * p) / (
        1 + F('0.003661') * t)
    ntp = 1 + p * (ns - 1) * X / F('96095.43')
    return ntp - F('1e-10') * (F('292.75') / (t + F('273.15'))) * (
        F('3.7345') - F('0.0401') * S) * pv


def saturation(T):
    """A.I: saturation vapour pressure over water, T in Kelvin."""
    om = T + K[8] / (T - K[9])
    A = om * om + K[0] * om + K[1]
    B = K[2] * om * om + K[3] * om + K[4]
    C = K[5] * om * om + K[6] * om + K[7]
    root = V(T.R, T.R.sqrt((B * B - 4 * A * C).v))
    return 10 ** 6 * (2 * C / (root - B)) ** 4


def compare(an, R, name, roles, ref):
    r = an.func('util', name)
    ps = {}
    for role, pname in roles.items():
        ps[role] = r.p(pname)

    def atom(n):
        for role, p in ps.items():
            if strip(n).vn == p.vn:
                return role
        return None
    A = Rat(atom)
    if r.ret is None:
        R.bad('formula', name, 'returns nothing', at=r.name)
        return
    for c, leaf in G.leaves(G.simp(r.ret, r.end.pc), r.end.pc):
        try:
            got = A.rat(leaf)
            want = ref(A, {k: V(A, A.key(k)) for k in roles})
            same = A.equal(got, want.v)
        except ValueError as e:
            cut = [x for x in closure(leaf) if x.op == 'fn' and
                   x.info in ('int', 'floor', 'ceil', 'rint', 'round',
                              'trunc', 'around', 'floor_divide') and any(
                       mentions(x, lambda y, p=p: y.vn == p.vn)
                       for p in ps.values())]
            if cut:
                R.bad('formula', name, 'the value computed is made a whole '
                      'number first: %s' % show(cut[0], 2), at=r.name)
            else:
                R.unk('formula', name, str(e))
            continue
        except (TooBig, ZeroDivisionError) as e:
            R.unk('formula', name, '%s: %s' % (type(e).__name__, e))
            continue
        R.put(same, 'formula', name, 'equals the published equation '
              '(%d/%d terms)' % (len(got[0]), len(got[1])),
              'the value computed is not the modified Edlen equation of the '
              'cited documentation')


def formulas(an, R):
    compare(an, R, 'edlen_refraction',
            {'w': 'wavelengths', 't': 'temperature', 'p': 'pressure',
             'v': 'vapour_partial_pressure'},
            lambda A, d: edlen(d['w'], d['t'], d['p'], d['v']))
    roles = {'w': 'wavelengths', 'T': 'temperature', 'p': 'pressure',
             'h': 'relative_humidity'}
    index = lambda d: edlen(d['w'], d['T'] - F('273.15'), d['p'],
                            d['h'] / 100 * saturation(d['T']))
    compare(an, R, 'vacuum_to_air_wavelength', roles,
            lambda A, d: d['w'] / index(d))
    compare(an, R, 'air_to_vacuum_wavelength', roles,
            lambda A, d: d['w'] * index(d))


def elementwise(an, R):
    """Lists are converted to arrays before arithmetic."""
    for name in ('vacuum_to_air_wavelength', 'air_to_vacuum_wavelength',
                 'edlen_refraction'):
        r = an.func('util', name)
        w = r.p('wavelengths')
        for e in r.events:
            if e.kind == 'mutate' and G.sat(e.pc) and any(
                    x is w for x in roots(e.a)):
                R.bad('elementwise', name, 'changes its input', e)
                break
        else:
            R.ok('elementwise', name, 'input only read')


RULES = [formulas, elementwise]
