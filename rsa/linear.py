"""Entailment between linear inequalities (Fourier-Motzkin on one cube)."""
from fractions import Fraction

from .core import G, TRUE, FALSE


def infeasible(cons, limit=400):
    """cons: [(poly, strict)] meaning poly > 0 (strict) or poly >= 0."""
    cons = [(dict(p), s) for p, s in cons]
    vs = set()
    for p, s in cons:
        vs |= {m for m in p if m != ()}
    while True:
        for p, s in cons:
            if all(m == () for m in p):
                c = p.get((), 0)
                if c < 0 or (s and c == 0):
                    return True
        live = {m for p, _ in cons for m in p if m != ()}
        if not live:
            return False
        # the variable producing the fewest pairs
        best = None
        for v in live:
            up = sum(1 for p, _ in cons if p.get(v, 0) > 0)
            dn = sum(1 for p, _ in cons if p.get(v, 0) < 0)
            if best is None or up * dn < best[0]:
                best = (up * dn, v)
        v = best[1]
        up = [(p, s) for p, s in cons if p.get(v, 0) > 0]
        dn = [(p, s) for p, s in cons if p.get(v, 0) < 0]
        new = [(p, s) for p, s in cons if not p.get(v, 0)]
        for p, s in up:
            for q, t in dn:
                a, b = Fraction(p[v]), Fraction(-q[v])
                r = {}
                for m, c in p.items():
                    r[m] = r.get(m, 0) + c * b
                for m, c in q.items():
                    r[m] = r.get(m, 0) + c * a
                r = {m: c for m, c in r.items() if c}
                new.append((r, s or t))
        cons = new
        if len(cons) > limit:
            return False


SUB = {}


def polyof(vn):
    """Polynomial of a value, choices decided in this case resolved."""
    p = G.poly_of(vn)
    k = 0
    while SUB and k < 4 and any(m in SUB for m in p):
        k += 1
        r = {}
        for m, c in p.items():
            for q, d in (SUB[m].items() if m in SUB else ((m, 1),)):
                r[q] = r.get(q, 0) + c * d
        p = {m: c for m, c in r.items() if c}
    return p


def absolutes(cube):
    """{vn: polynomial of the argument} of the absolute values compared."""
    out = {}
    for v, pol in cube:
        if G.atoms[v][0] not in ('pos', 'eq'):
            continue
        todo, seen = list(G.atoms[v][1]), set()
        while todo:
            x = todo.pop()
            if x.uid in seen or len(seen) > 60:
                continue
            seen.add(x.uid)
            if x.op == 'fn' and x.info in ('abs', 'absolute', 'fabs') and \
                    x.args:
                out[x.vn] = polyof(x.args[0].vn)
            if x.op in ('bin', 'un', 'fn', 'wrap'):
                todo.extend(x.args)
    return out


def feasible_cube(cube):
    ab = absolutes(cube)
    if not ab:
        return feasible_case(cube, {}, [])
    names = sorted(ab)[:4]
    for bits in range(1 << len(names)):
        sub, extra = {}, []
        for i, vn in enumerate(names):
            p = ab[vn] if bits >> i & 1 else {
                m: -c for m, c in ab[vn].items()}
            sub[((vn, 1),)] = p
            extra.append((p, False))
        if feasible_case(cube, sub, extra):
            return True
    return False


def feasible_case(cube, sub, extra):
    def poly(vn):
        p = polyof(vn)
        if sub and any(m in sub for m in p):
            r = {}
            for m, c in p.items():
                for k, d in (sub[m].items() if m in sub else ((m, 1),)):
                    r[k] = r.get(k, 0) + c * d
            p = {m: c for m, c in r.items() if c}
        return p
    cons = list(extra)
    neq = []
    for v, pol in cube:
        pred, nodes, info, vns = G.atoms[v]
        if pred == 'pos':
            p = poly(vns[0])
            if pol:
                cons.append((p, True))
            else:
                cons.append(({m: -c for m, c in p.items()}, False))
        elif pred == 'eq':
            d = G.padd(poly(vns[0]), poly(vns[1]), -1)
            if pol:
                cons.append((d, False))
                cons.append(({m: -c for m, c in d.items()}, False))
            else:
                neq.append(d)
    if infeasible(cons):
        return False
    for d in neq:
        n = {m: -c for m, c in d.items()}
        if infeasible(cons + [(d, True)]) and infeasible(cons + [(n, True)]):
            return False
    return True


def sat(f, limit=512):
    """Satisfiable in linear arithmetic?  (True when unsure)"""
    if f <= 1:
        return f == TRUE
    if not G.sat(f):
        return False
    f = G.b.AND(f, G.axioms(G.b.support(f)))
    n = 0
    for c in G.b.cubes(f, limit + 1):
        n += 1
        if n > limit or feasible_cube(list(c)):
            return True
    return False


def implies(f, g):
    return not sat(G.b.AND(f, G.b.NOT(g)))


def monomials(f):
    out = set()
    for v in G.b.support(f):
        pred, nodes, info, vns = G.atoms[v]
        for n in vns if pred in ('pos', 'eq') else ():
            out |= {m for m in polyof(n) if m != ()}
    return out


def about(f, g):
    """Weaken f to what it says about the quantities compared in g."""
    keep = monomials(g)
    own = set(G.b.support(g))
    for v in sorted(G.b.support(f), reverse=True):
        if v in own:
            continue
        pred, nodes, info, vns = G.atoms[v]
        ms = set()
        for n in vns if pred in ('pos', 'eq') else ():
            ms |= {m for m in polyof(n) if m != ()}
        if ms and ms & keep:
            continue
        x = G.b.var(v)
        f = G.b.OR(G.b.restrict(f, x), G.b.restrict(f, G.b.NOT(x)))
    return f


def entails(f, g):
    """implies(f, g) looking only at the quantities of g."""
    if not G.sat(G.b.AND(f, G.b.NOT(g))):
        return True
    return implies(about(f, g), g)


def innerphi(n):
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'phi':
            return x
        if x.op in ('bin', 'un', 'wrap'):
            todo.extend(x.args)
    return None


def shallow(n, p):
    """Resolve the choices of an arithmetic expression under p."""
    if n.op == 'phi':
        if not G.sat(G.b.AND(p, n.info)):
            return shallow(n.args[1], p)
        if not G.sat(G.b.AND(p, G.b.NOT(n.info))):
            return shallow(n.args[0], p)
        return n
    if n.op == 'bin':
        a, b = shallow(n.args[0], p), shallow(n.args[1], p)
        return n if a is n.args[0] and b is n.args[1] else \
            G.bin(n.info, a, b)
    if n.op == 'un':
        a = shallow(n.args[0], p)
        return n if a is n.args[0] else G.un(n.info, a)
    return n


def cases(ns, pc, limit=64):
    """Split on the choices inside arithmetic: [(pc, nodes)]."""
    todo, out = [(pc, list(ns))], []
    while todo:
        p, xs = todo.pop()
        if not G.sat(p):
            continue
        xs = [shallow(x, p) for x in xs]
        ph = None
        for x in xs:
            ph = ph or innerphi(x)
        if ph is None or len(out) + len(todo) > limit:
            out.append((p, xs))
            continue
        for c in (ph.info, G.b.NOT(ph.info)):
            todo.append((G.b.AND(p, c), xs))
    return out


def choices(f):
    """Choices compared in f: {monomial: phi}."""
    out = {}
    for v in G.b.support(f):
        pred, nodes, info, vns = G.atoms[v]
        if pred not in ('pos', 'eq'):
            continue
        todo = list(nodes)
        while todo:
            x = todo.pop()
            if x.op == 'phi':
                out[((x.vn, 1),)] = x
            elif x.op in ('bin', 'un', 'wrap'):
                todo.extend(x.args)
    return out


def less(a, b, pc):
    """Does pc entail a < b?"""
    ch = choices(pc)
    for p, (x, y) in cases((a, b), pc):
        if not G.sat(p):
            continue
        SUB.clear()
        for m, ph in ch.items():
            s = shallow(ph, p)
            if s.vn != ph.vn and s.op != 'phi':
                SUB[m] = G.poly_of(s.vn)
        try:
            if not entails(p, G.cmp('<', x, y)):
                return False
        finally:
            SUB.clear()
    return True


def split(f, rounds=3):
    """Compare the alternatives of choices inside arithmetic one by one."""
    b = G.b
    for _ in range(rounds):
        out = {}
        for v in b.support(f):
            pred, nodes = G.atoms[v][:2]
            if pred != 'pos' or len(nodes) != 2 or not any(
                    innerphi(x) is not None for x in nodes):
                continue
            base = G.lt(*nodes)
            new = FALSE
            for p, (x, y) in cases(nodes, TRUE):
                new = b.OR(new, b.AND(p, G.lt(x, y)))
            if base == b.var(v):
                out[v] = new
            elif base == b.NOT(b.var(v)):
                out[v] = b.NOT(new)
        if not out:
            break

        def comp(f):
            if f <= 1:
                return f
            v, lo, hi = b.nodes[f]
            return b.ite(out.get(v, b.var(v)), comp(hi), comp(lo))
        f = comp(f)
    return f
