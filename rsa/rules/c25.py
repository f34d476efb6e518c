"""C25: a fit matches peaks and lines one to one."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..lines import stepkind
from ..q import closure
from ..rows import Rows, row
from ..solve import configs, trials, bddclosure
from ..spaces import Spaces, told, root
from .c08 import differs
from .c11 import ispolyval


def outer(X):
    """The list below the selections applied last."""
    while True:
        X = strip(X)
        if X.op == 'sub' and not isconst(X.args[1]) and X.args[1].op in (
                'bool', 'slice', 'phi', 'fn', 'collect') and not (
                    X.args[1].op == 'fn' and X.args[1].info in (
                        'argmin', 'argmax', 'nanargmin', 'nanargmax')):
            if X.args[1].op == 'fn' and X.args[1].info not in (
                    'argsort', 'flatnonzero', 'nonzero', 'argwhere'):
                return X
            X = X.args[0]
            continue
        if X.op == 'fn' and X.info in ('sort', 'reversed', 'compress', 'flat',
                                       'ravel', 'flatten', 'copy'):
            X = X.args[0]
            continue
        return X


def split(*ns):
    """The cases of the options (not of the rows) a list depends on."""
    cs = [TRUE]
    for n in ns:
        for x in closure(n, stop=lambda z: z.op in (
                'mu', 'call', 'collect', 'collectcat', 'rnd')):
            if x.op == 'bool' or x.op == 'phi':
                for v in G.b.support(x.info):
                    if G.atoms[v][0] in ('eq', 'isclose', 'pos', 'brk',
                                         'ret', 'in'):
                        continue
                    nd = G.atoms[v][1]
                    if len(cs) > 8 or not nd or any(
                            strip(z).op != 'field' for z in nd):
                        continue
                    cs = [c for b in cs for c in (
                        G.b.AND(b, G.b.var(v)),
                        G.b.AND(b, G.b.NOT(G.b.var(v)))) if G.sat(c)]
        if len(cs) > 8:
            break
    return cs


def distinct(n, d=0):
    """True: all entries differ; False: equal entries are possible."""
    n = outer(n)
    if n.op == 'collect' and d == 0:
        rs = [entries(G.simp(n.args[0], c), n.info, d, c)
              for c in split(n.args[0])]
        return True if all(rs) else False if False in rs else None
    return distinct1(n, d)


def distinct1(n, d):
    n = outer(n)
    if d > 20:
        return None
    if n.op == 'fn' and n.info in ('unique', 'intersect1d', 'setdiff1d',
                                   'mkset'):
        return True
    if n.op == 'set':
        return True
    if n.op == 'collect':
        return entries(n.args[0], n.info, d)
    if n.op == 'collectcat':
        base, st = chain(n.args[0])
        if len(st) and any(part(i, n.info, base) for i in st):
            return False
        return None
    if n.op == 'phi':
        a, b = [distinct(x, d + 1) for x in n.args]
        return a if a == b else (False if False in (a, b) else None)
    return None


def entries(e, L, d, pc=TRUE):
    if e.op == 'sub' and e.args[1].vn == L.iota.vn:
        return distinct(e.args[0], d + 1)
    if e.op == 'sub' and pick(e.args[1]):
        if not grouped(e):
            return False
        base, st = chain(e)
        ms = [i for i in st if strip(i).op == 'bool']
        if len(ms) == 1 and partition(ms[0], L, pc)[1]:
            # one row of each group
            return distinct(base, d + 1)
    return None


def part(i, L, base):
    """Does mask i select rows by the values of another column?"""
    if strip(i).op != 'bool':
        return False
    X, ok = partition(i, L)
    return bool(ok) and strip(X).vn != strip(base).vn


def pick(i):
    i = strip(i)
    return i.op == 'fn' and i.info in ('argmin', 'argmax', 'nanargmin',
                                       'nanargmax')


def chain(e):
    """(array, [index, ...]) of nested selections, first applied first."""
    st = []
    e = strip(e)
    while e.op == 'sub':
        i = e.args[1]
        j = strip(i)
        if j.op == 'sub' and strip(j.args[0]).op == 'fn' and strip(
                j.args[0]).info in ('flatnonzero', 'nonzero', 'argwhere'):
            # X[nonzero(M)[k]] is X[M][k]
            st += [j.args[1], strip(j.args[0]).args[0]]
        elif j.op == 'sub' and strip(j.args[0]).op == 'sub' and isconst(
                strip(j.args[0]).args[1]) and strip(strip(
                    j.args[0]).args[0]).op == 'fn' and strip(strip(
                        j.args[0]).args[0]).info == 'nonzero':
            st += [j.args[1], strip(strip(j.args[0]).args[0]).args[0]]
        else:
            st.append(i)
        e = strip(e.args[0])
    return e, st[::-1]


def grouped(e):
    base, st = chain(e)
    return any(strip(i).op == 'bool' for i in st)


def partition(m, L, pc=TRUE):
    """(values, ok) when mask m selects the rows that have the group's value.

    ok is False when rows may be in several groups."""
    m = strip(m)
    if m.op != 'bool':
        return None, None
    vs = list(G.b.support(m.info))
    if len(vs) != 1:
        return None, None
    pred, ns, info, vns = G.atoms[vs[0]]
    if pred == 'eq' and m.info == G.b.var(vs[0]):
        for a, b in (ns, ns[::-1]):
            u = strip(b)
            if u.op == 'sub' and u.args[1].vn == L.iota.vn:
                s = strip(u.args[0])
                if s.op == 'fn' and s.info == 'unique':
                    if strip(G.simp(s.args[0], pc)).vn == strip(
                            G.simp(a, pc)).vn:
                        return a, True
                    return a, None
        return None, None
    if pred in ('pos', 'isclose'):
        return None, False
    return None, None


def solution(an, R):
    for lab, ft, bf, r, ways in configs(an):
        w = 'Calibrator.fit (%s)' % lab
        seen = 0
        for o in ways or ():
            MP, MA = o.vals.get('matched_peaks'), o.vals.get(
                'matched_atlas')
            if MP is None or MA is None:
                continue
            seen += 1
            one(R, r, o, '%s, %s of the loop body' % (w, o.kind), MP, MA)
        if not seen:
            R.unk('lines-distinct', w, 'no accepted solution followed')


def one(R, r, o, what, MP, MA):
    fn = o.loop.fn
    d = distinct(MA)
    if d:
        R.ok('lines-distinct', what, show(outer(MA), 2)[:100])
    elif d is False:
        R.bad('lines-distinct', what, 'two peaks may keep the same line: %s'
              % show(outer(MA), 4)[:200], at=fn)
    else:
        R.unk('lines-distinct', what, show(outer(MA), 3)[:150])
    S, W = Spaces(r), Rows(r)
    C = outer(MP)
    if C.op != 'collect':
        d = distinct(MP)
        if d:
            R.ok('peaks-distinct', what)
        else:
            R.unk('peaks-distinct', what, show(C, 3)[:150])
        R.unk('smallest-error', what, show(C, 3)[:150])
        return
    base, st = chain(C.args[0])
    pk = distinct(base)
    masks = [i for i in st if strip(i).op == 'bool']
    if st and not masks and pick(st[-1]) and C.info.iota.vn not in {
            y.vn for i in st for y in closure(i)}:
        R.bad('peaks-distinct', what, 'the same peak is kept for every line: '
              '%s' % show(C.args[0], 3)[:150], at=fn)
        return
    last = strip(st[-1]) if st else None
    if len(masks) != 1 or len(st) != 2 or not pick(last):
        if last is not None and len(masks) == 1 and isconst(last) and \
                len(st) == 2:
            R.bad('smallest-error', what, 'always entry %s of the competing '
                  'peaks is kept' % last.info, at=fn)
        elif pick(last) and len(st) == 1:
            t, s = S.target(last), S.space(base)
            if t and s and t != s and differs(r, t, s):
                R.bad('smallest-error', what, 'a position in %s is used in '
                      '%s' % (told(t), told(s)), at=fn)
            else:
                R.unk('smallest-error', what, show(C.args[0], 3)[:150])
        else:
            R.unk('smallest-error', what, show(C.args[0], 3)[:150])
        R.unk('peaks-distinct', what, show(C.args[0], 3)[:150])
        return
    M = strip(masks[0])
    Y, part = partition(M, C.info)
    if part and pk:
        k, l = S.space(base), S.space(Y)
        if k is not None and k == l:
            R.ok('peaks-distinct', what, '%s == %s' % (show(Y, 2)[:60],
                                                       'each line'))
        elif k and l and differs(r, k, l):
            R.bad('peaks-distinct', what, 'the competing rows of %s are used '
                  'in %s' % (told(l), told(k)), at=fn)
        else:
            R.unk('peaks-distinct', what, '')
    elif part is False and pk is not False:
        R.bad('peaks-distinct', what, 'one peak may compete for several '
              'lines: %s' % show(M, 4)[:150], at=fn)
    elif part and pk is False:
        R.bad('peaks-distinct', what, 'peaks are not distinct: %s' % show(
            base, 3)[:150], at=fn)
    else:
        R.unk('peaks-distinct', what, show(M, 4)[:150])
    smallest(R, r, S, W, what, fn, base, M, last, Y)


def smallest(R, r, S, W, what, fn, base, M, last, Y):
    rule = 'smallest-error'
    if last.info in ('argmax', 'nanargmax'):
        a = strip(last.args[0])
        if a.op == 'un' or a.op == 'bin':
            R.unk(rule, what, show(last, 3)[:150])
        else:
            R.bad(rule, what, 'the largest is kept: %s' % show(last, 3)[
                :150], at=fn)
        return
    T = strip(last.args[0])
    t = S.target(last)
    s = S.space(base)
    s = s and ('sel', s, M.vn)
    if t is not None and s is not None and t != s:
        if differs(r, t, s):
            R.bad(rule, what, 'a position in %s is used in %s' % (
                told(t), told(s)), at=fn)
        else:
            R.unk(rule, what, '%s / %s' % (told(t), told(s)))
        return
    if not (T.op == 'sub' and strip(T.args[1]).vn == M.vn):
        R.unk(rule, what, show(T, 3)[:150])
        return
    Err = T.args[0]
    if Y is None:
        R.unk(rule, what, 'no groups')
        return
    j = row()
    e, p, y = [push(S, W.at(x, j)) for x in (Err, base, Y)]
    cs = split(e, p, y)
    if G.poly_of(e.vn) is not None and not exact(e, p, y):
        for c in cs:
            e1, p1, y1 = [G.simp(x, c) for x in (e, p, y)]
            judge(R, what, fn, e1, p1, y1)
        return
    judge(R, what, fn, e, p, y)


def exact(e, p, y):
    a = strip(e)
    if a.op != 'fn' or a.info != 'abs':
        return False
    q = G.poly_of(a.args[0].vn)
    return any(len(m) == 1 and G.vn_node[m[0][0]].vn == strip(y).vn
               for m in q)


def judge(R, what, fn, e, p, y):
    rule = 'smallest-error'
    a = strip(e)
    while a.op == 'fn' and a.info in ('mean', 'max', 'median', 'sum',
                                      'nanmean') and a.args:
        b = strip(a.args[0])
        if b.op == 'fn' and b.info == 'abs' and any(
                ispolyval(strip(x)) for x in closure(
                    b, stop=lambda z: ispolyval(strip(z)))):
            R.bad(rule, what, 'the %s of the errors of all candidates: %s' % (
                a.info, show(e, 3)[:150]), at=fn)
            return
        break
    if a.op == 'fn' and a.info == 'abs':
        q = G.poly_of(a.args[0].vn)
        P, V, other = [], [], []
        for m, c in q.items():
            n = G.vn_node[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if n is not None and ispolyval(strip(n)):
                P.append((strip(n), c))
            elif n is not None and strip(n).vn == strip(y).vn:
                V.append((n, c))
            else:
                other.append((n, c))
        if len(P) == len(V) == 1 and not other and P[0][1] == -V[0][1]:
            x = P[0][0].args[-2]
            if strip(x).vn == strip(p).vn:
                R.ok(rule, what, show(e, 3)[:150])
            else:
                R.bad(rule, what, 'the error is that of %s, not of the peak'
                      % show(x, 3)[:150], at=fn)
            return
        if not V and len(P) == 1 and len(other) == 1 and other[0][0] is not \
                None and fixed(other[0][0]) and chain(y)[1] and pick(
                    chain(y)[1][-1]) and chain(other[0][0])[0].vn == chain(
                        y)[0].vn:
            R.bad(rule, what, 'the error is that of %s, not of the line %s' %
                  (show(other[0][0], 3)[:120], show(y, 3)[:120]), at=fn)
            return
    elif a.op == 'bin' and a.info == '-' and any(
            ispolyval(strip(x)) for x in a.args):
        R.bad(rule, what, 'the error is signed: %s' % show(a, 3)[:150],
              at=fn)
        return
    R.unk(rule, what, show(e, 4)[:150])


def fixed(n):
    """An entry at a position that does not depend on the errors."""
    n = strip(n)
    if n.op != 'sub':
        return False
    i = strip(n.args[1])
    return isconst(i) or i.op == 'sel' and isconst(strip(i.args[1]))


def push(S, n, d=0):
    """(a - b)[i] as a[i] - b[i]."""
    s = strip(n)
    if d > 8 or s.op != 'sub':
        return n
    x, i = strip(s.args[0]), s.args[1]
    if S.space(i) is not None:
        return n

    def at(a):
        if not rows(S, a):
            return a
        return push(S, G.raw('sub', (a, i)), d + 1)
    if x.op == 'fn' and x.info == 'abs':
        return S.it.fn('abs', [at(x.args[0])], (), None)
    if x.op == 'bin':
        return G.bin(x.info, at(x.args[0]), at(x.args[1]))
    if x.op == 'un':
        return G.un(x.info, at(x.args[0]))
    return n


def rows(S, a):
    """Is a a list?"""
    if S.space(a) is not None:
        return True
    b = strip(a)
    if b.op == 'sub' and strip(b.args[1]).op == 'bool':
        return True
    if b.op in ('bin', 'un') or b.op == 'fn' and b.info == 'abs':
        return any(rows(S, x) for x in b.args)
    return False


# ---- random draws --------------------------------------------------------
def drawn(t):
    """Drawn wavelengths of a trial fit (without the known pairs)."""
    out = {}
    for c, l in G.leaves(t.args[1], TRUE):
        l = strip(l)
        todo = [l]
        if l.op == 'fn' and l.info in ('concatenate', 'append', 'hstack'):
            xs = l.args
            if strip(xs[0]).op in ('list', 'tuple'):
                xs = strip(xs[0]).args
            todo = list(xs)
        elif l.op in ('concat', 'extend', 'append'):
            todo = list(l.args)
        for x in todo:
            x = strip(x)
            if x.op == 'field' and x.info == 'wave_known':
                continue
            out[x.vn] = x
    return list(out.values())


def draws(an, R):
    rule = 'draw-distinct'
    for lab, ft, bf, r, ways in configs(an):
        if bf:
            continue
        w = 'random sample of Calibrator.fit (%s)' % lab
        T = {}
        for o in ways or ():
            for t in trials(o, ft):
                T[t.vn] = t
        if not T:
            R.unk(rule, w, 'no sampled polynomial')
        for t in T.values():
            ds = drawn(t)
            if not ds:
                R.unk(rule, w, 'no drawn wavelengths')
            for x in ds:
                sample(R, r, w, x)


def sample(R, r, w, x):
    rule = 'draw-distinct'
    if x.op == 'collect':
        e = x.args[0]
        if rnd(e) is not None and not any(y.op == 'mu' and y.info is x.info
                                          for y in closure(e)):
            R.bad(rule, w, 'each wavelength is drawn without regard to the '
                  'others: %s' % show(e, 3)[:150], at=r.name)
        else:
            R.unk(rule, w, show(x, 3)[:150])
        return
    if x.op == 'rnd':
        if replaced(x):
            R.bad(rule, w, 'drawn with repetition: %s' % show(x, 3)[:150],
                  at=r.name)
        else:
            R.unk(rule, w, show(x, 3)[:150])
        return
    if x.op != 'mu' or x.next is None:
        R.unk(rule, w, show(x, 3)[:150])
        return
    L = x.info
    key = [k for k, m in L.mus.items() if m.vn == x.vn]
    n = 0
    for kind, st in L.outs:
        v = st.s.get(key[0], x) if key else x
        for c, l in G.leaves(v, st.pc):
            if l.vn == x.vn or not G.sat(c):
                continue
            n += 1
            if l.op == 'append' and l.args[0].vn == x.vn:
                el = l.args[1]
            elif l.op == 'concat' and l.args[0].vn == x.vn and strip(
                    l.args[1]).op == 'list' and len(strip(
                        l.args[1]).args) == 1:
                el = strip(l.args[1]).args[0]
            else:
                R.unk(rule, w, show(l, 3)[:150])
                continue
            for c1, l1 in G.leaves(el, c):
                if G.sat(c1):
                    fresh(R, r, w, x, l1, c1)
    if not n:
        R.unk(rule, w, 'nothing is added')


def rnd(e):
    """What is drawn from."""
    e = strip(e)
    if e.op == 'rnd' and e.args:
        return e.args[0]
    if e.op == 'sub' and strip(e.args[0]).op == 'rnd':
        return strip(e.args[0]).args[0]
    if e.op == 'sub' and strip(e.args[1]).op == 'rnd':
        return e.args[0]
    return None


def replaced(x):
    kw = dict(x.kw or ())
    v = kw.get('replace')
    if v is None and len(x.args) > 2:
        v = x.args[2]
    return v is None or not (isconst(v) and v.info is False)


def fresh(R, r, w, m, el, pc):
    """The new wavelength is none of those in m."""
    rule = 'draw-distinct'
    for v in G.b.support(pc):
        pred, ns = G.atoms[v][:2]
        if pred in ('in', 'any') and any(y.vn == m.vn for n in ns
                                         for y in closure(n)):
            if pred == 'in' and ns[0].vn == el.vn and G.implies(
                    pc, G.b.NOT(G.b.var(v))):
                R.ok(rule, w, 'not in the sample')
                return
    A = rnd(el)
    if A is None and el.op == 'mu':
        srcs = [rnd(y) for y in (el.args[0], el.next) if y is not None]
        A = srcs[0] if len(srcs) and None not in srcs and len(
            {s.vn for s in srcs}) == 1 else None
    if A is not None:
        a = strip(A)
        if a.op == 'collect':
            cond = G.truth(a.args[2])
            for v in G.b.support(cond):
                pred, ns = G.atoms[v][:2]
                if pred == 'in' and ns[0].vn == a.args[0].vn and any(
                        y.vn == m.vn for y in closure(ns[1])) and \
                        G.implies(cond, G.b.NOT(G.b.var(v))):
                    R.ok(rule, w, 'drawn from those not in the sample')
                    return
        for y in closure(a, stop=lambda z: z.op == 'mu'):
            if y.vn == m.vn:
                if 'setdiff1d' in show(a, 6) or a.op in ('bin', 'sub', 'fn',
                                                         'call'):
                    R.unk(rule, w, 'drawn from %s' % show(a, 3)[:150])
                    return
        used = any({m.vn, el.vn} <= {y.vn for n in G.atoms[v][1]
                                     for y in closure(n, stop=lambda z:
                                                      z.op == 'mu')}
                   for v in G.b.support(pc) if G.atoms[v][0] in (
                       'in', 'any', 'all', 'isin', 'eq', 'pos'))
        if not used:
            R.bad(rule, w, 'a wavelength that is already in the sample may '
                  'be drawn again: %s' % show(el, 2)[:150], at=r.name)
            return
    R.unk(rule, w, show(el, 3)[:150])


RULES = [solution, draws]
