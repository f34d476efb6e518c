"""C29: known pairs take part in every trial fit, with the drawn pairs."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..linear import sat
from ..q import closure
from ..solve import configs, trials
from ..spaces import Spaces, told
from .c08 import differs
from .c25 import chain, split, rnd

P, W = 'pix_known', 'wave_known'
JOIN = {'concatenate', 'append', 'hstack', 'r_'}
MOVE = {'sort', 'reversed', 'flip', 'roll', 'argsort', 'unique'}


def known(x):
    """'pix_known' or 'wave_known' when x is one of them, as it is."""
    x = strip(x)
    while x.op == 'fn' and x.info in ('ravel', 'flatten', 'copy', 'atleast_1d',
                                      'array', 'flat', 'squeeze') or \
            x.op == 'sub' and x.args[1].op == 'slice' and all(
                isconst(y) and y.info is None for y in x.args[1].args):
        x = strip(x.args[0])
    if x.op == 'field' and x.info in (P, W):
        return x.info
    return None


def about(x):
    """The known lists x is made from."""
    return {y.info for y in closure(x, stop=lambda z: z.op in ('mu', 'call'),
                                    gates=False)
            if y.op == 'field' and y.info in (P, W)}


def parts(x):
    x = strip(x)
    if x.op == 'fn' and x.info in JOIN and x.args:
        xs = x.args
        if strip(xs[0]).op in ('list', 'tuple') and not strip(xs[0]).kw and \
                len(xs) == 1:
            xs = strip(xs[0]).args
        elif len(xs) == 1:
            return [x]
        return [p for a in xs for p in parts(a)]
    if x.op in ('concat', 'extend') and len(x.args) == 2:
        return parts(x.args[0]) + parts(x.args[1])
    if x.op in ('list', 'tuple') and not x.kw and x.args and all(
            a.op == 'star' for a in x.args):
        return [p for a in x.args for p in parts(a.args[0])]
    if x.op == 'fn' and x.info in ('insert',) and len(x.args) == 3 and \
            isconst(x.args[1]) and x.args[1].info == 0:
        return parts(x.args[2]) + parts(x.args[0])
    return [x]


def trialfits(an, R):
    for lab, ft, bf, r, ways in configs(an):
        what = 'Calibrator.fit (%s)' % lab
        T = {}
        for o in ways or ():
            for t in trials(o, ft):
                T[t.vn] = (o, t)
        if not T:
            R.unk('known-in-trial', what, 'no sampled polynomial')
        for o, t in T.values():
            one(R, r, o, what, bf, t)


def flat(x, pc):
    """The phi-free lists a value may be, through conversions."""
    return [(c, l) for c, l in G.leaves(strip(x), pc) if G.sat(c)]


def one(R, r, o, what, bf, t):
    S = Spaces(r)
    fn = o.loop.fn
    X, Y = t.args[:2]
    for cx, lx in flat(X, TRUE):
        for cy, ly in flat(Y, cx):
            if not G.sat(cy):
                continue
            px, py = parts(lx), parts(ly)
            given(R, r, what, fn, cy, px, py)
            dx = [p for p in px if not about(p)]
            dy = [p for p in py if not about(p)]
            if len(dx) != 1 or len(dy) != 1:
                R.unk('drawn-pairs', what, '%d and %d drawn lists' % (
                    len(dx), len(dy)))
                continue
            pairs(R, r, S, what, fn, bf, dx[0], dy[0])


def nones(pc):
    """Conditions of pc that say whether pairs are known."""
    out = []
    for v in G.b.support(pc):
        if any(y.op == 'field' and y.info in (P, W)
               for n in G.atoms[v][1] for y in closure(
                   n, stop=lambda z: z.op in ('mu', 'call'))):
            out.append(v)
    return out


def set_(pc, vs):
    """Can pc hold when there are known pairs?  None: not decided."""
    f = pc
    for v in vs:
        pred, ns = G.atoms[v][:2]
        if pred == 'isnone' and known(ns[0]):
            f = G.b.AND(f, G.b.NOT(G.b.var(v)))
        elif pred == 'truthy' and known(ns[0]):
            f = G.b.AND(f, G.b.var(v))
        elif pred in ('pos', 'eq', 'truthy'):
            for y in [y for x in ns for y in closure(x)]:
                if y.op == 'fn' and y.info in ('len', 'size') and known(
                        y.args[0]):
                    f = G.b.AND(f, G.cmp('<', G.const(0), y))
                elif y.op == 'field' and y.info in (P, W):
                    continue
                elif y.op not in ('const', 'bin', 'un', 'wrap', 'field',
                                  'param'):
                    return None
        else:
            return None
    return sat(f)


def given(R, r, what, fn, pc, px, py):
    rule = 'known-in-trial'
    kx = [(i, p) for i, p in enumerate(px) if about(p)]
    ky = [(i, p) for i, p in enumerate(py) if about(p)]
    what = '%s, when %s' % (what, 'pairs are known' if kx or ky
                            else 'no pairs are known')
    for k, ps, want, word in ((kx, px, P, 'pixels'), (ky, py, W,
                                                      'wavelengths')):
        for i, p in k:
            a = known(p)
            if a == want:
                continue
            if a is not None:
                R.bad(rule, what, 'the %s fitted contain %s' % (word, a),
                      at=fn)
                return
            s = strip(p)
            if s.op == 'sub' and known(s.args[0]) and (
                    s.args[1].op == 'slice' or isconst(s.args[1])) or \
                    s.op == 'rnd' and s.args and known(s.args[0]):
                R.bad(rule, what, 'only some of the known %s are fitted: %s'
                      % (word, show(p, 3)[:120]), at=fn)
                return
            if s.op in ('bin', 'un') and about(s) == {want}:
                R.bad(rule, what, 'the known %s are altered: %s' % (
                    word, show(p, 3)[:120]), at=fn)
                return
            if s.op == 'fn' and s.info in MOVE and known(s.args[0]):
                R.bad(rule, what, 'the known %s are put in another order: %s'
                      % (word, show(p, 3)[:120]), at=fn)
                return
            R.unk(rule, what, show(p, 3)[:150])
            return
    if not kx and not ky:
        vs = nones(pc)
        ok = set_(pc, vs)
        if ok is None:
            R.unk(rule, what, G.bshow(pc, 4)[:150])
        elif ok:
            R.bad(rule, what, 'known pairs are not fitted when %s' %
                  G.bshow(pc, 4)[:120], at=fn)
        else:
            R.ok(rule, what, 'drawn pairs only')
        return
    if bool(kx) != bool(ky):
        vs = nones(pc)
        if set_(pc, vs):
            R.bad(rule, what, 'only the known %s take part' % (
                'pixels' if kx else 'wavelengths'), at=fn)
        else:
            R.unk(rule, what, 'one list only')
        return
    if len(kx) > 1 or len(ky) > 1:
        if len(kx) != len(ky):
            R.bad(rule, what, '%d lists of known pixels, %d of wavelengths' %
                  (len(kx), len(ky)), at=fn)
        else:
            R.unk(rule, what, 'known pairs are added more than once')
        return
    if len(px) != len(py):
        R.unk(rule, what, '%d and %d lists' % (len(px), len(py)))
    elif kx[0][0] != ky[0][0]:
        R.bad(rule, what, 'the known pixels are list %d of those joined, the '
              'known wavelengths list %d' % (kx[0][0] + 1, ky[0][0] + 1),
              at=fn)
    else:
        R.ok(rule, what, 'all known pairs follow the drawn pairs')


def paired(S, a, b, d=0):
    """Row i of a belongs to row i of b.  None: not decided."""
    a, b = strip(a), strip(b)
    if d > 20:
        return None
    if a.op == b.op == 'fn' and a.info == b.info and a.info in (
            'flat', 'ravel', 'flatten', 'copy', 'array'):
        return paired(S, a.args[0], b.args[0], d + 1)
    if a.op == b.op == 'phi' and a.info == b.info:
        rs = [paired(S, x, y, d + 1) for x, y in zip(a.args, b.args)]
        return False if False in rs else True if all(rs) else None
    k, l = S.space(a), S.space(b)
    if k is not None and k == l:
        return True
    for p, q in ((a, b), (b, a)):
        if p.op == 'fn' and p.info in ('sort', 'reversed', 'unique') and \
                paired(S, p.args[0], q, d + 1):
            return False
    if a.op == b.op == 'sub' and not isconst(strip(a.args[1])):
        i, j = strip(a.args[1]), strip(b.args[1])
        r = paired(S, a.args[0], b.args[0], d + 1)
        if i.vn == j.vn:
            return r
        return False if r else None
    if a.op == b.op == 'collectcat' and a.args[1].vn == b.args[1].vn \
            and a.args[2].vn == b.args[2].vn:
        x, y = strip(a.args[0]), strip(b.args[0])
        if S.space(x) is not None and S.space(x) == S.space(y):
            return True
        for p, q in ((x, y), (y, x)):
            if p.op == 'listrep' and q.op == 'sub':
                # n copies and the first n
                sl = q.args[1]
                if sl.op == 'sub':
                    sl = sl.args[1]
                if sl.op == 'slice' and strip(sl.args[1]).vn == strip(
                        p.args[1]).vn and all(isconst(z) and z.info is None
                                              for z in (sl.args[0],
                                                        sl.args[2])):
                    return True
    return None


# ---- the drawn pairs -----------------------------------------------------
def pairs(R, r, S, what, fn, bf, X, Y):
    rule = 'drawn-pairs'
    X, Y = strip(X), strip(Y)
    if X.op == 'sub' and Y.op == 'sub':
        i, j = X.args[1], Y.args[1]
        k, l = S.space(X.args[0]), S.space(Y.args[0])
        if strip(i).vn != strip(j).vn:
            if {pure(i), pure(j)} <= {True}:
                R.bad(rule, what, 'pixels are drawn with %s, wavelengths with'
                      ' %s' % (show(i, 3)[:100], show(j, 3)[:100]), at=fn)
            else:
                R.unk(rule, what, '%s / %s' % (show(i, 3)[:80],
                                               show(j, 3)[:80]))
        elif paired(S, X.args[0], Y.args[0]):
            R.ok(rule, what, show(i, 2)[:100])
        elif paired(S, X.args[0], Y.args[0]) is False or k is not None and \
                l is not None and differs(r, k, l):
            R.bad(rule, what, 'one index for pixels of %s and wavelengths of '
                  '%s' % (told(k), told(l)), at=fn)
        else:
            R.unk(rule, what, '%s / %s' % (told(k), told(l)))
        return
    if X.op == 'rnd' and Y.op == 'rnd':
        R.bad(rule, what, 'pixels and wavelengths are drawn independently: '
              '%s' % show(Y, 2)[:120], at=fn)
        return
    els = elements(Y)
    if els is None or X.op != 'rnd':
        R.unk(rule, what, '%s / %s' % (show(X, 2)[:80], show(Y, 2)[:80]))
        return
    for L, el, pc in els:
        for c, l in G.leaves(el, pc):
            if G.sat(c):
                pool(R, r, S, what, fn, X, L, l)


def pure(i):
    i = strip(i)
    return i.op in ('sub', 'iota', 'slice', 'rnd', 'fn', 'bin', 'sub')


def elements(Y):
    """[(loop, entry, condition)] of the list built in a loop."""
    if Y.op == 'collect':
        return [(Y.info, Y.args[0], TRUE)]
    if Y.op != 'mu' or Y.next is None:
        return None
    L = Y.info
    if getattr(L, 'kind', '') == 'while':
        return None
    i0 = strip(Y.args[0])
    if i0.op != 'list' or i0.args:
        return None
    key = [k for k, m in L.mus.items() if m.vn == Y.vn]
    out = []
    for kind, st in L.outs:
        v = st.s.get(key[0], Y) if key else Y
        for c, l in G.leaves(v, st.pc):
            if l.vn == Y.vn or not G.sat(c):
                continue
            if l.op == 'append' and l.args[0].vn == Y.vn:
                out.append((L, l.args[1], c))
            elif l.op == 'concat' and l.args[0].vn == Y.vn and strip(
                    l.args[1]).op == 'list' and len(strip(
                        l.args[1]).args) == 1:
                out.append((L, strip(l.args[1]).args[0], c))
            else:
                return None
    return out or None


def pools(el, d=0):
    """What one wavelength is drawn from."""
    el = strip(el)
    if d > 6:
        return None
    if el.op == 'phi':
        a, b = [pools(x, d + 1) for x in el.args]
        return None if a is None or b is None else a + b
    if el.op == 'mu':
        out = []
        for x in (el.args[0], el.next):
            if x is None:
                return None
            if x.vn == el.vn:
                continue
            p = pools(x, d + 1)
            if p is None:
                return None
            out += p
        return out
    a = rnd(el)
    return None if a is None else [a]


def pool(R, r, S, what, fn, X, L, el):
    rule = 'drawn-pairs'
    ps = pools(el)
    if not ps:
        R.unk(rule, what, show(el, 3)[:150])
        return
    for a in {p.vn: p for p in ps}.values():
        a = strip(a)
        while a.op == 'collect' and a.args[0].op == 'sub' and \
                a.args[0].args[1].vn == a.info.iota.vn:
            a = strip(a.args[0].args[0])
        for c in split(a):
            own(R, r, S, what, fn, X, L, G.simp(a, c), c)


def own(R, r, S, what, fn, X, L, a, pc):
    """Pool a holds the candidates of the pixel drawn in this round."""
    rule = 'drawn-pairs'
    base, m, e = strip(a), None, strip(a)
    while e.op == 'sub':
        i = strip(e.args[1])
        if i.op == 'fn' and i.info in ('flatnonzero', 'nonzero',
                                       'argwhere') and i.args:
            i = strip(i.args[0])
        if L.iota.vn in {y.vn for y in closure(i, stop=lambda z:
                                               z.op == 'mu')}:
            m, base = i, strip(e.args[0])
        e = strip(e.args[0])
    here = {y.vn for y in closure(base, stop=lambda z: z.op == 'mu')}
    if m is None and L.iota.vn not in here and base.op in (
            'phi', 'sub', 'fn', 'collectcat', 'collect', 'field'):
        R.bad(rule, what, 'a wavelength is drawn from all of %s, whatever '
              'the pixel' % show(base, 2)[:120], at=fn)
        return
    if m is None or m.op != 'bool' or L.iota.vn in here:
        R.unk(rule, what, 'drawn from %s' % show(a, 3)[:150])
        return
    vs = list(G.b.support(m.info))
    if len(vs) == 1 and G.atoms[vs[0]][0] == 'eq' and m.info == G.b.var(
            vs[0]):
        ns = G.atoms[vs[0]][1]
        for x, u in (ns, ns[::-1]):
            u = strip(u)
            if u.op != 'sub' or u.args[1].op not in (
                    'iota', 'const', 'rnd') or S.space(x) is None:
                continue
            arr = strip(G.simp(u.args[0], pc))
            mine = strip(G.simp(X, pc))
            if u.args[1].vn != L.iota.vn:
                R.bad(rule, what, 'the wavelength is drawn for pixel %s, not '
                      'for the pixel of this round' % show(u, 2)[:120],
                      at=fn)
            elif arr.vn != mine.vn:
                if arr.op in ('fn', 'rnd', 'field'):
                    R.bad(rule, what, 'the wavelength is drawn for a pixel of'
                          ' %s, not of the sample' % show(arr, 2)[:120],
                          at=fn)
                else:
                    R.unk(rule, what, show(arr, 2)[:120])
            else:
                k, l = S.space(G.simp(x, pc)), S.space(base)
                if paired(S, G.simp(x, pc), base):
                    R.ok(rule, what, 'candidates of the drawn pixel')
                elif paired(S, G.simp(x, pc), base) is False or k is not \
                        None and l is not None and differs(r, k, l):
                    R.bad(rule, what, 'rows of %s select in %s' % (
                        told(k), told(l)), at=fn)
                else:
                    R.unk(rule, what, '%s / %s' % (told(k), told(l)))
            return
    if len(vs) == 1 and G.atoms[vs[0]][0] in ('pos', 'isclose'):
        R.bad(rule, what, 'wavelengths of other pixels may be drawn: %s' %
              show(m, 4)[:150], at=fn)
        return
    R.unk(rule, what, show(m, 4)[:150])


# ---- what is known -------------------------------------------------------
def storing(an, R):
    rule = 'known-stored'
    r = an.method('Calibrator', 'set_known_pairs')
    p, w = [r.p(x) for x in list(r.params)[:2]]
    S = Spaces(r)
    ks = {}
    for a, mine, other in ((P, p, w), (W, w, p)):
        v = r.final(a)
        what = 'Calibrator.set_known_pairs, %s' % a
        from ..prov import Prov
        src = set()
        for c, l in G.leaves(v, r.end.pc):
            src |= Prov(r).src(l)
        leafs = {n.vn for k, n in src if k == 'leaf' and not isinstance(
            n, tuple)}
        if any(k == 'altered' for k, n in src):
            R.bad(rule, what, 'not the given values: %s' % show(
                [n for k, n in src if k == 'altered'][0], 3)[:150],
                at=r.name)
        elif other.vn in leafs:
            R.bad(rule, what, 'takes %s' % show(other, 2), at=r.name)
        elif leafs == {mine.vn} and not any(k == 'unknown' for k, n in src):
            R.ok(rule, what, show(v, 2)[:100])
        else:
            R.unk(rule, what, show(v, 3)[:150])
        ks[a] = (v, order(v))
    what = 'Calibrator.set_known_pairs, order'
    a, b = ks[P][1], ks[W][1]
    if a == b == []:
        R.ok(rule, what, 'as given')
    elif a is not None and b is not None and a != b and (
            set(a) | set(b)) & MOVE:
        R.bad(rule, what, 'pixels: %s, wavelengths: %s' % (
            ' '.join(a) or 'as given', ' '.join(b) or 'as given'),
            at=r.name)
    else:
        R.unk(rule, what, '%s / %s' % (a, b))


def order(v):
    """Reorderings on the way to the value, None when not followed."""
    out = []
    v = strip(v)
    while True:
        if v.op == 'param':
            return out
        if v.op == 'fn' and v.info in MOVE:
            out.append(v.info)
            v = strip(v.args[0])
        elif v.op == 'fn' and v.info in (
                'ravel', 'flatten', 'reshape', 'copy', 'atleast_1d', 'flat',
                'squeeze', 'list', 'array'):
            v = strip(v.args[0])
        elif v.op == 'sub' and v.args[1].op == 'slice':
            st = v.args[1].args[-1] if v.args[1].args else None
            if st is not None and isconst(st) and st.info == -1:
                out.append('reversed')
            v = strip(v.args[0])
        elif v.op == 'sub':
            out.append(show(v.args[1], 2))
            v = strip(v.args[0])
        elif v.op == 'collect' and v.args[0].op in ('sub', 'wrap') and strip(
                v.args[0]).op == 'sub' and strip(
                    v.args[0]).args[1].vn == v.info.iota.vn:
            v = strip(strip(v.args[0]).args[0])
        else:
            return None


def together(an, R):
    """No other method changes one of the lists alone."""
    rule = 'known-together'
    for e in an.entries():
        if e.cls is None or e.cls.name != 'Calibrator' or \
                e.name.startswith('_'):
            continue
        r = an.method('Calibrator', e.name)
        st = {a: FALSE for a in (P, W)}
        at = None
        for ev in r.evs('store'):
            if ev.name in st and ev.a is not None and ev.a.vn == r.self.vn \
                    and G.sat(ev.pc):
                st[ev.name] = G.b.OR(st[ev.name], ev.pc)
                at = ev
        if st[P] == st[W] == FALSE:
            continue
        what = 'Calibrator.%s' % e.name
        if st[P] == st[W]:
            R.ok(rule, what, 'both')
        elif FALSE in st.values():
            R.bad(rule, what, 'only %s is replaced' % (
                P if st[P] != FALSE else W), ev=at)
        else:
            R.unk(rule, what, 'replaced under different conditions')


RULES = [trialfits, storing, together]
