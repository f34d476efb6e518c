"""Shared view of the solutions a fit accepts (C08-C11, C17, C25, C29)."""
from .core import G, TRUE, FALSE, strip, isconst, show
from .loops import outs
from .q import closure

VALS = ('fit_coeff', 'rms', 'residual', 'matched_peaks', 'matched_atlas')
FIT = {'poly': 'numpy.polynomial.polynomial.poly',
       'legendre': 'numpy.polynomial.legendre.leg',
       'chebyshev': 'numpy.polynomial.chebyshev.cheb'}
CACHE = {}


def configs(an):
    """[(label, run, ways to accept)] of Calibrator.fit, by options."""
    got = CACHE.get(id(an))
    if got is not None:
        return got[1]
    out = []
    for ft in FIT:
        for bf in (False, True):
            for given in (False, True):
                if given and (ft != 'poly' or bf):
                    continue
                bind = {'fit_type': G.const(ft), 'brute_force': G.const(bf)}
                if not given:
                    bind['fit_coeff'] = G.const(None)
                r = an.method('Calibrator', 'fit', bind=bind)
                lab = '%s,%s%s' % (ft, 'exhaustive' if bf else 'random',
                                   ',given' if given else '')
                V = {a: r.final(a) for a in VALS}
                ways = outs(r, V) if r.end is not None else None
                out.append((lab, ft, bf, r, ways))
    CACHE[id(an)] = (an, out)
    return out


def field(o, r, attr):
    """Value of a calibrator attribute in one way through the loop."""
    return r.it.get(o.state, ('o', r.self.vn, attr))


def bddclosure(f):
    seen = {}
    for v in G.b.support(f):
        for n in G.atoms[v][1]:
            for x in closure(n):
                seen[x.uid] = x
    return list(seen.values())


def trials(o, ft):
    """Polynomials fitted to a sample, tested on the way to acceptance."""
    t = {}
    for x in bddclosure(o.pc):
        if x.op == 'call' and x.info == FIT[ft] + 'fit':
            t[x.vn] = x
    return list(t.values())


CMP = {'greater', 'less', 'greater_equal', 'less_equal', 'logical_and',
       'logical_or', 'logical_not', 'any', 'all', 'where', 'clip', 'minimum',
       'maximum', 'isin', 'abs', 'min', 'max', 'bool', 'sum'}


def arith(n):
    """Operands of the arithmetic and comparisons of an expression."""
    return closure(n, stop=lambda y: not (
        y.op in ('bin', 'un', 'wrap', 'phi', 'bool', 'list', 'tuple')
        or y.op == 'fn' and y.info in CMP))


def mentions(f, vn):
    """Atoms of f that compare the value."""
    out = []
    for v in G.b.support(f):
        if any(x.vn == vn for n in G.atoms[v][1] for x in arith(n)):
            out.append(v)
    return out


def understood(f, vs):
    return all(G.atoms[v][0] in ('pos', 'eq', 'isnone', 'isfinite')
               for v in vs)


def limits(n, d=0):
    """Choices for minimum, maximum and clip."""
    if d > 6:
        return n
    if n.op == 'phi':
        return G.phi(n.info, limits(n.args[0], d + 1),
                     limits(n.args[1], d + 1))
    if n.op == 'wrap':
        return limits(n.args[0], d + 1)
    if n.op == 'fn' and n.info in ('minimum', 'maximum') and \
            len(n.args) == 2:
        a, b = [limits(x, d + 1) for x in n.args]
        c = G.cmp('<', a, b)
        return G.phi(c, a, b) if n.info == 'minimum' else G.phi(c, b, a)
    if n.op == 'fn' and n.info == 'clip' and len(n.args) == 3:
        x, lo, hi = n.args
        x = limits(x, d + 1)
        if not (isconst(hi) and hi.info is None):
            x = G.phi(G.cmp('<', x, hi), x, hi)
        if not (isconst(lo) and lo.info is None):
            x = G.phi(G.cmp('<', x, lo), lo, x)
        return x
    return n


def spread(f):
    """Compare the alternatives of a choice one by one."""
    b = G.b
    out = {}
    for v in b.support(f):
        if G.atoms[v][0] != 'pos':
            continue
        x, y = G.atoms[v][1][:2]
        p, q = limits(x), limits(y)
        if p.op != 'phi' and q.op != 'phi':
            continue
        base, new = G.lt(x, y), G.cmp('<', p, q)
        if base == b.var(v):
            out[v] = new
        elif base == b.NOT(b.var(v)):
            out[v] = b.NOT(new)
    if not out:
        return f

    def comp(f):
        if f <= 1:
            return f
        v, lo, hi = b.nodes[f]
        return b.ite(out.get(v, b.var(v)), comp(hi), comp(lo))
    return comp(f)
