"""C24: each fit attempt does a bounded amount of sampling."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..linear import sat, implies
from ..q import closure
from ..solve import configs
from .c25 import rnd
from .c29 import pools

ENDLESS = {'itertools.count', 'itertools.cycle', 'count', 'cycle'}


def runs(an):
    for lab, ft, bf, r, ways in configs(an):
        yield 'Calibrator.fit (%s)' % lab, r
    for e in an.entries():
        if e.name.startswith('_') and e.name != '__init__':
            continue
        if e.cls is not None and e.cls.name == 'Calibrator' and \
                e.name == 'fit':
            continue
        yield e.full, an.run(e)


def loops(an, R):
    seen = set()
    for what, r in runs(an):
        for L in r.it.allloops:
            if not L.line:
                continue
            w = '%s loop of %s in %s' % (L.kind, L.fn, what)
            if L.kind == 'while':
                repeat(R, r, w, L)
            else:
                over(R, r, w, L)


# ---- loops over something ------------------------------------------------
def over(R, r, w, L):
    rule = 'finite-iteration'
    it = getattr(L, 'iter', None)
    if it is None:
        R.ok(rule, w, 'comprehension')
        return
    n = endless(it)
    if n is not None:
        if leaves(L):
            R.unk(rule, w, 'without end: %s, but the body may leave' % show(
                n, 2)[:120])
        else:
            R.bad(rule, w, 'runs over %s, which has no end' % show(n, 2)[
                :120], at=L.fn)
        return
    g = grows(L, it)
    if g is not None:
        R.bad(rule, w, 'the list that is run over grows in the body: %s' %
              show(g, 2)[:120], at=L.fn)
        return
    R.ok(rule, w, show(it, 2)[:80])


def endless(it, d=0):
    """The endless iterator that is run over."""
    it = strip(it)
    if d > 12:
        return None
    if it.op == 'phi':
        for x in it.args:
            n = endless(x, d + 1)
            if n is not None:
                return n
        return None
    nm = str(it.info)
    if it.op in ('call', 'fn', 'rnd', 'dyncall') and nm in ENDLESS:
        return it
    if it.op in ('call', 'fn') and nm in ('itertools.repeat', 'repeat') and \
            nm.startswith('itertools') and len(it.args) == 1 and not it.kw:
        return it
    if it.op in ('call', 'fn') and nm == 'iter' and len(it.args) == 2:
        return it
    if it.op in ('fn', 'call', 'wrap') and it.args and (
            nm.split('.')[-1] in ('tqdm', 'enumerate', 'iter', 'map', 'filter',
                                  'chain', 'trange', 'starmap', 'cycle')):
        for x in it.args:
            n = endless(x, d + 1)
            if n is not None:
                return n
    if it.op == 'fn' and nm == 'zip' and it.args:
        ns = [endless(x, d + 1) for x in it.args]
        return ns[0] if None not in ns else None
    return None


def leaves(L):
    """May the body leave the loop?"""
    return bool(L.breaks) or any(k == 'break' for k, st in L.outs)


def grows(L, it):
    """The list run over is a variable of the loop that is appended to."""
    it = strip(it)
    vs = {it.vn}
    for k, m in L.mus.items():
        if strip(m.args[0]).vn not in vs or strip(m.args[0]).op not in (
                'list', 'collect', 'append', 'concat', 'extend'):
            continue
        for kind, st in L.outs:
            v = strip(st.s.get(k, m))
            if v.op in ('append', 'extend') and strip(
                    v.args[0]).vn == m.vn and m.extra == 'list' and \
                    strip(it).uid == strip(m.args[0]).uid and inplace(L, k):
                return v
    return None


def inplace(L, k):
    return k[0] == 'o'


# ---- loops until ---------------------------------------------------------
def repeat(R, r, w, L):
    rule = 'loop-progress'
    if redraw(R, r, w, L):
        return
    inner = {m.vn for m in L.mus.values()}
    todo = []
    for kind, st in L.outs:
        if kind != 'end' or not G.sat(st.pc):
            continue
        nxt = again(r.it, L, st)
        if nxt != FALSE and sat(nxt):
            todo.append((st, nxt))
    if not todo:
        R.ok(rule, w, 'never repeats')
        return
    tests = L.test
    for kind, st in L.outs:
        if kind == 'break':
            tests = G.b.AND(tests, G.b.NOT(st.pc)) if False else tests
    for k, m in L.mus.items():
        ds = []
        for st, pc in todo:
            ds.append(delta(st.s.get(k, m), m, pc))
        if any(d is None for d in ds):
            continue
        lo, hi = min(d[0] for d in ds), max(d[1] for d in ds)
        for sign, ok in ((-1, hi <= -1), (1, lo >= 1)):
            if ok and all(bounded(pc, m, sign, inner) for st, pc in todo):
                inf = sign < 0 and infinite(m.args[0])
                if inf:
                    R.bad(rule, w, '%s starts at infinity' % k[-1], at=L.fn)
                else:
                    R.ok(rule, w, '%s %s by at least 1 up to a limit' % (
                        k[-1], 'falls' if sign < 0 else 'rises'))
                return
        if shrinks(L, k, m, todo):
            R.ok(rule, w, '%s gets shorter' % k[-1])
            return
    for k, m in L.mus.items():
        if shrinks(L, k, m, todo):
            R.ok(rule, w, '%s gets shorter' % k[-1])
            return
    # which way of repeating does not count?
    for st, pc in todo:
        live = []
        opaque = []
        for k, m in L.mus.items():
            v = st.s.get(k, m)
            if v.vn == m.vn:
                continue
            d = delta(v, m, pc)
            if d is not None and d[0] == d[1] == 0:
                continue
            if d is not None and (d[0] > 0 or d[1] < 0):
                live.append((k, m, d))
            elif steers(L, m):
                if not settled(v):
                    opaque.append((k, m, v))
        if not live and not opaque:
            R.bad(rule, w, 'may repeat without counting: nothing that ends '
                  'the loop changes when %s' % G.bshow(pc, 3)[:150],
                  at=L.fn)
            return
        if live and not opaque:
            ok = [k for k, m, d in live if steers(L, m)]
            if not ok:
                R.bad(rule, w, 'what is counted (%s) does not end the loop' %
                      ', '.join(str(k[-1]) for k, m, d in live), at=L.fn)
                return
            # a limit that the loop does not keep to
            if all(ignored(L, m, d, pc, inner) for k, m, d in live
                   if steers(L, m)):
                R.bad(rule, w, 'repeats although the limit on %s is reached, '
                      'when %s' % (', '.join(str(k) for k in [
                          x[-1] for x in ok]), G.bshow(pc, 3)[:120]),
                      at=L.fn)
                return
    R.unk(rule, w, 'no count found: %s' % G.bshow(L.test, 4)[:120])


def infinite(n):
    """May the number be infinite?"""
    for c, l in G.leaves(strip(n), TRUE):
        l = strip(l)
        if isconst(l) and isinstance(l.info, float) and l.info == float(
                'inf') or l.op == 'ext' and str(l.info).lower().endswith(
                    ('.inf', '.infty', 'math.inf')):
            return True
    return False


def again(it, L, st):
    """When is the body run again after this way through it?"""
    m = {}
    for k, x in L.mus.items():
        v = st.s.get(k, x)
        if v.vn != x.vn:
            m[x.vn] = v
    t = G.truth(it.subst(G.bool(L.test), m)) if L.test > 1 and m else L.test
    return G.b.AND(st.pc, t)


def delta(v, m, pc):
    """(least, greatest) constant change of a number, or None."""
    lo = hi = None
    for c, l in G.leaves(v, pc):
        if not G.sat(c):
            continue
        q = dict(G.poly_of(l.vn))
        for mon, co in G.poly_of(m.vn).items():
            q[mon] = q.get(mon, 0) - co
        q = {k: x for k, x in q.items() if x}
        if any(k != () for k in q):
            return None
        x = q.get((), 0)
        lo = x if lo is None else min(lo, x)
        hi = x if hi is None else max(hi, x)
    return None if lo is None else (lo, hi)


def limits(f, m):
    """Comparisons with the number: [(atom, coefficient, other terms)]."""
    out = []
    for v in G.b.support(f):
        pred, ns, info, vns = G.atoms[v]
        if pred != 'pos':
            continue
        for x in vns:
            q = G.poly_of(x)
            co = [c for mon, c in q.items() if mon == ((m.vn, 1),)]
            if len(co) == 1:
                out.append((v, co[0], x))
    return out


def bounded(pc, m, sign, inner):
    """pc keeps m above (sign < 0) or below something that stays."""
    for v, co, x in limits(pc, m):
        rest = {a for mon in G.poly_of(x) for a, e in mon} - {m.vn}
        if rest & inner or any(y.vn in inner for a in rest
                               for y in closure(G.vn_node[a], stop=lambda z:
                                                z.op == 'mu')
                               if a in G.vn_node):
            continue
        for pos, f in ((1, G.b.var(v)), (-1, G.b.NOT(G.b.var(v)))):
            if G.implies(pc, f) and co * pos * sign < 0:
                return True
    return False


def ignored(L, m, d, pc, inner):
    """The body is run again with the limit passed."""
    ls = limits(L.test, m) + [x for kind, st in L.outs if kind == 'break'
                              for x in limits(st.pc, m)]
    if not ls:
        return False
    for v, co, x in ls:
        ok = G.b.var(v) if co * (-1 if d[0] > 0 else 1) > 0 else G.b.NOT(
            G.b.var(v))
        if not sat(G.b.AND(pc, G.b.NOT(ok))):
            return False
        # only when the limit itself is passed, whatever else holds
        if not any(G.atoms[u][0] in ('truthy', 'in', 'brk') for u in
                   G.b.support(L.test) if u != v):
            return False
    return True


def steers(L, m):
    """Does the number decide whether the loop goes on?"""
    fs = [L.test] + [st.pc for kind, st in L.outs]
    return any(y.vn == m.vn for f in fs for v in G.b.support(f)
               for n in G.atoms[v][1]
               for y in closure(n, stop=lambda z: z.op in (
                   'mu', 'call', 'collect', 'collectcat', 'rnd')))


def settled(v):
    """A value drawn or computed anew does not count anything."""
    v = strip(v)
    if v.op == 'phi':
        return all(settled(x) for x in v.args)
    return isconst(v) or v.op == 'rnd' or v.op == 'bool'


def shrinks(L, k, m, todo):
    n = 0
    for st, pc in todo:
        for c, l in G.leaves(st.s.get(k, m), pc):
            if not G.sat(c):
                continue
            l = strip(l)
            if l.op == 'mut' and l.info in ('pop', 'popleft', 'popitem') and \
                    strip(l.args[0]).vn == m.vn:
                n += 1
            elif l.op == 'sub' and l.args[1].op == 'slice' and strip(
                    l.args[0]).vn == m.vn and isconst(
                        l.args[1].args[0]) and l.args[1].args[0].info and \
                    l.args[1].args[0].info > 0:
                n += 1
            else:
                return False
    return n > 0 and all(nonempty(pc, m) for st, pc in todo)


def nonempty(pc, m):
    for v in G.b.support(pc):
        pred, ns = G.atoms[v][:2]
        if pred == 'truthy' and ns[0].vn == m.vn and G.implies(
                pc, G.b.var(v)):
            return True
    for v in G.b.support(pc):
        if G.atoms[v][0] in ('pos', 'eq') and any(
                y.op == 'fn' and y.info == 'len' and strip(
                    y.args[0]).vn == m.vn for n in G.atoms[v][1]
                for y in closure(n, stop=lambda z: z.op == 'mu')):
            return True
    return False


def redraw(R, r, w, L):
    """while x in used: x = draw(pool).  There must be an unused one."""
    rule = 'redraw'
    t = L.test
    vs = list(G.b.support(t)) if t > 1 else []
    if len(vs) != 1 or G.atoms[vs[0]][0] != 'in' or t != G.b.var(vs[0]):
        return False
    x, used = G.atoms[vs[0]][1][:2]
    if x.op != 'mu' or x.info is not L or strip(used).op == 'mu' and strip(
            used).info is L:
        return False
    ps = pools(x)
    if not ps:
        return False
    for p in {p.vn: p for p in ps}.values():
        ok = None
        rel = [v for v in G.b.support(L.entry_pc) if related(v, p, used)]
        if rel and all(member(v, p, used) for v in rel):
            # being told about single candidates only
            f = L.entry_pc
            for v in rel:
                f = G.b.AND(f, G.b.var(v))
            if G.sat(f):
                R.bad(rule, w, 'draws until it finds one not in use, but '
                      'only %s was tested' % G.bshow(G.b.var(rel[0]), 3)[:90],
                      at=L.fn)
                continue
        for v in G.b.support(L.entry_pc):
            pred, ns = G.atoms[v][:2]
            cl = {y.vn for n in ns for y in closure(n, stop=lambda z:
                                                    z.op == 'mu')}
            if not {strip(p).vn, strip(used).vn} <= cl and not (
                    strip(used).vn in cl and pred in ('pos', 'any', 'all')):
                continue
            if subset(pred, ns, p, used):
                ok = G.implies(L.entry_pc, G.b.NOT(G.b.var(v))) or ok
                if G.implies(L.entry_pc, G.b.var(v)):
                    ok = False
            elif ok is None:
                ok = 0
        if ok is True:
            R.ok(rule, w, 'one that is not in use is left')
        elif ok is None:
            R.bad(rule, w, 'draws until it finds one not in use, but nothing '
                  'ensures that there is one: %s' % show(p, 2)[:120],
                  at=L.fn)
        elif ok is False:
            R.bad(rule, w, 'draws when all are in use', at=L.fn)
        else:
            R.unk(rule, w, G.bshow(L.entry_pc, 4)[:150])
    return True


def related(v, p, used):
    """Does an atom relate the candidates to the ones in use?"""
    cl = {y.vn for n in G.atoms[v][1]
          for y in closure(n, stop=lambda z: z.op == 'mu')}
    return {strip(p).vn, strip(used).vn} <= cl


def member(v, p, used):
    """Is it "this candidate is in use"?"""
    pred, ns = G.atoms[v][:2]
    if pred != 'in':
        return False
    x, u = strip(ns[0]), strip(ns[1])
    if u.op == 'fn' and u.info == 'mkset':
        u = strip(u.args[0])
    return u.vn == strip(used).vn and x.op == 'sub' and strip(
        x.args[0]).vn == strip(p).vn and isconst(x.args[1])


def subset(pred, ns, p, used):
    n = ns[0] if ns else None
    if pred != 'truthy' or n is None or n.op != 'mcall':
        return False
    a = [strip(x) for x in n.args]
    a = [strip(x.args[0]) if x.op == 'fn' and x.info == 'mkset' else x
         for x in a]
    return n.info == 'issubset' and len(a) == 2 and a[0].vn == strip(
        p).vn and a[1].vn == strip(used).vn or n.info == 'issuperset' and \
        len(a) == 2 and a[1].vn == strip(p).vn and a[0].vn == strip(used).vn


RULES = [loops]
