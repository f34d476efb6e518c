"""C22: a rejected value is never stored."""
from ..core import G, TRUE, FALSE, strip, show
from ..q import mentions, closure
from ..linear import sat, cases

NEEDS_INV = True


def public(an):
    for f in an.entries():
        if f.cls is not None and not f.name.startswith('_'):
            yield f, an.run(f)


def blamed(pc, end):
    """Value tests that make the difference between raising and returning."""
    b = G.b
    if end is None or end == FALSE:
        return [v for v in b.support(pc) if G.atoms[v][0] != 'isnone']
    out = []
    s = set(b.support(end))
    for v in b.support(pc):
        if G.atoms[v][0] == 'isnone':
            continue
        if v not in s:
            out.append(v)
            continue
        x = b.var(v)
        for y, z in ((x, b.NOT(x)), (b.NOT(x), x)):
            f = b.restrict(b.AND(pc, y), y)
            g = b.restrict(b.AND(end, z), z)
            if b.AND(f, g) != FALSE:
                out.append(v)
                break
    return out


def simple(v):
    for n in G.atoms[v][1]:
        for y in closure(n, gates=False):
            if y.op in ('mu', 'rnd', 'call', 'mcall', 'dyncall',
                        'collectcat'):
                return False
    return True


def rejecting(pc, end):
    """The tests that reject, if all of them look at the input alone."""
    own = set(G.b.support(end))
    for v in G.b.support(pc):
        if v not in own and not simple(v):
            return None
    vs = blamed(pc, end)
    if not all(simple(v) for v in vs):
        return None
    return vs


def params_of(r, vs, f):
    out = set()
    for v in vs:
        for n in G.atoms[v][1]:
            for p, x in r.params.items():
                if x.cls:
                    continue
                if any(y.vn == x.vn for y in deps(n)):
                    out.add(p)
    return out


def deps(n):
    """What a tested value is computed from."""
    seen, todo = {}, [n]
    while todo:
        y = todo.pop()
        if y.uid in seen:
            continue
        seen[y.uid] = y
        todo += list(y.args) + [z for _, z in y.kw or ()]
        if y.op == 'bool':
            for v in G.b.support(y.info):
                todo += G.atoms[v][1]
    return seen.values()


def stored(an, R):
    """At every rejection the fields hold nothing built from the value."""
    n = 0
    for f, r in public(an):
        end = r.end.pc if r.end is not None else FALSE
        bad = 0
        for e in r.evs('raise'):
            if e.caught is not None or not G.sat(e.pc):
                continue
            vs = rejecting(e.pc, end)
            if not vs:
                continue        # a failure later on, not of the input
            rej = params_of(r, vs, e.pc)
            n += 1
            for k, v in e.slots.items():
                if k[0] != 'o':
                    continue
                o = G.vn_node[k[1]]
                if o.op == 'obj' and o.vn != r.self.vn:
                    continue
                if v.op == 'unbound' or v.vn == r.it.initial(k).vn:
                    continue
                for c, l in G.leaves(v, e.pc):
                    for p in rej:
                        x = r.params[p]
                        if taken(l, x) and G.sat(
                                G.b.AND(c, G.b.NOT(G.isnone(x)))):
                            bad += 1
                            R.bad('rejected-not-stored', '%s of %s' % (
                                p, f.full), '%s.%s already holds %s when '
                                'the call is rejected' % (
                                    o.cls or show(o), k[2], show(l, 3)), e)
        if not bad and r.evs('raise'):
            R.ok('rejected-not-stored', f.full, '%d rejections leave the '
                 'rejected value unstored' % len(r.evs('raise')))


def taken(l, x):
    """Is the stored value built from x?"""
    seen, todo = set(), [l]
    while todo:
        y = todo.pop()
        if y.vn == x.vn:
            return True
        if y.uid in seen or y.op == 'fn' and y.info in ('len', 'size'):
            continue
        seen.add(y.uid)
        todo += list(y.args) + [n for _, n in y.kw or ()]
    return False


KNOWN = {'isfinite', 'isnan', 'isnone', 'isinst', 'pos', 'eq', 'truthy'}


def require(R, r, what, cond, given=TRUE, about=(), msg=''):
    """Every normal return implies cond (when given)."""
    if r.end is None:
        R.unk('required-check', what, 'never returns')
        return
    b = G.b
    f = b.AND(b.AND(r.end.pc, given), b.NOT(cond))
    # the same test of the same value, spelled with the default in place
    for v in b.support(cond):
        pred, nodes = G.atoms[v][:2]
        for w in b.support(r.end.pc):
            if w != v and G.atoms[w][0] == pred and len(
                    nodes) == 1 and pred in ('isfinite', 'isnan', 'isinst'):
                if G.simp(G.atoms[w][1][0], given).vn == nodes[0].vn and \
                        G.atoms[w][2] == G.atoms[v][2]:
                    x, y = b.var(v), b.var(w)
                    f = b.AND(f, b.ite(x, y, b.NOT(y)))
    if f == FALSE or not sat(f):
        R.ok('required-check', what, 'every return implies ' +
             G.bshow(cond, 3)[:200])
        return
    # which tests decide about these parameters?
    rel = [v for v in b.support(r.end.pc)
           if any(mentions(n, lambda y: y.vn in about)
                  for n in G.atoms[v][1])]
    odd = [v for v in rel if G.atoms[v][0] not in KNOWN or any(
        x.op in ('call', 'mcall', 'collect', 'dyncall', 'mu')
        for n in G.atoms[v][1] for x in closure(n, gates=False))]
    odd = [v for v in odd if v not in set(b.support(cond))]
    if odd:
        R.unk('required-check', what, 'not implied; tests ' +
              G.bshow(b.var(odd[0]), 2)[:150])
    else:
        R.bad('required-check', what, msg + ' is accepted when %s'
              % G.bshow(f, 2)[:200], at=r.name)


def nan_pairs(R, r, p):
    what = '%s without NaN' % p
    x = r.p(p)
    b = G.b
    if r.end is None:
        return
    end = r.end.pc
    hit = odd = None
    wrong = []
    for v in b.support(end):
        pred, nodes = G.atoms[v][:2]
        if not any(mentions(n, lambda y: y.vn == x.vn) for n in nodes):
            continue
        pos = b.AND(end, b.NOT(b.var(v))) == FALSE
        neg = b.AND(end, b.var(v)) == FALSE
        nanny = [y for n in nodes for y in closure(n)
                 if isnanlike(y)] or pred in ('isnan', 'isfinite')
        if not nanny:
            continue
        odd = v
        if pred in ('any', 'all', 'truthy', 'isnan', 'isfinite') and (
                pos or neg):
            ok = direction(pred, nodes[0], pos)
            if ok:
                hit = v
            elif clear(nodes[0]):
                wrong.append(v)
    if hit is None and odd is None:
        # a test of every element in a loop
        for e in r.evs('raise'):
            if e.loops and any(
                    isnanlike(z) or G.atoms[v][0] in ('isnan', 'isfinite')
                    for v in b.support(e.pc) for n in G.atoms[v][1]
                    for z in deps(n) if any(
                        q.vn == x.vn for q in deps(n))):
                odd = [v for v in b.support(e.pc)][0]
                if loopcheck(r, e, x):
                    R.ok('required-check', what, 'every element of the loop '
                         'at line %s' % e.loops[-1].line)
                    return
    if hit is not None:
        R.ok('required-check', what, G.bshow(b.var(hit), 3))
    elif wrong and len(wrong) == 1:
        R.bad('required-check', what, '%s may contain NaN although %s' % (
            p, G.bshow(b.var(wrong[0]), 3)), at=r.name)
    elif odd is None:
        R.bad('required-check', what, 'no return depends on whether %s '
              'contains NaN' % p, at=r.name)
    else:
        R.unk('required-check', what, G.bshow(b.var(odd), 3))


def loopcheck(r, e, x):
    b = G.b
    L = e.loops[-1]
    if L.space is None or L.breaks or not any(
            y.vn == x.vn for y in deps(L.space)) or any(
                y.op == 'slice' for y in deps(L.space)):
        return False
    ok = FALSE
    for q in r.evs('raise'):
        if q.loops and q.loops[-1] is L and q.caught is None:
            ok = b.OR(ok, q.pc)
    for v in b.support(ok):
        if G.atoms[v][0] == 'isnan' and b.AND(b.AND(
                e.pc, b.var(v)), b.NOT(ok)) == FALSE and b.AND(
                    r.end.pc, b.AND(b.var(v), b.NOT(ok))) == FALSE:
            return True
    return False


def clear(n):
    """Only tests of the elements that are understood."""
    n = strip(n)
    el = n.info if n.op == 'bool' else G.truth(
        n.args[0]) if n.op == 'collect' else None
    if el is None:
        return False
    return all(G.atoms[v][0] in ('isnan', 'isfinite', 'isinst', 'isnone')
               for v in G.b.support(el))


def isnanlike(y):
    if y.op == 'fn' and y.info in ('isnan', 'isfinite'):
        return True
    if y.op in ('phi', 'bool'):
        return any(G.atoms[v][0] in ('isnan', 'isfinite')
                   for v in G.b.support(y.info))
    return False


def direction(pred, n, pos):
    """Does the (negated) test exclude every NaN element?"""
    b = G.b
    n = strip(n)
    if pred in ('isnan', 'isfinite'):
        return (pred == 'isfinite') == pos
    el = None
    if n.op == 'collect':
        el = G.truth(n.args[0])
    elif n.op == 'fn' and n.info in ('isnan', 'isfinite'):
        return (pred == 'any' and not pos and n.info == 'isnan') or (
            pred == 'all' and pos and n.info == 'isfinite')
    elif n.op == 'bool':
        el = n.info
    if el is None:
        return False
    for v in b.support(el):
        a = G.atoms[v][0]
        if a not in ('isnan', 'isfinite'):
            continue
        x = b.var(v)
        if any(y.op == 'slice' for m in G.atoms[v][1]
               for y in closure(m, gates=False)):
            continue
        good = b.NOT(x) if a == 'isnan' else x
        if pred == 'all' and pos and b.AND(el, b.NOT(good)) == FALSE:
            return True
        if pred == 'any' and not pos and b.AND(b.NOT(el),
                                               b.NOT(good)) == FALSE:
            return True
    return False


def finite(n):
    return G.atom('isfinite', (n,))


def required(an, R):
    b = G.b
    zero, one = G.const(0), G.const(1)
    N = b.NOT
    r = an.method('HoughTransform', 'set_constraints')
    for p in ('min_slope', 'max_slope', 'min_intercept', 'max_intercept'):
        x = r.p(p)
        require(R, r, '%s finite' % p, finite(x), about={x.vn},
                msg='a non-finite %s' % p)
    r = an.method('SyntheticSpectrum', 'set_wavelength_limit')
    lim = {}
    for p in ('min_wavelength', 'max_wavelength'):
        x = r.p(p)
        require(R, r, '%s is a float' % p, G.isinst(x, ('float',)),
                N(G.isnone(x)), {x.vn}, 'a non-float %s' % p)
        lim[p] = r.final(p)
    order = FALSE
    for c, (lo, hi) in cases(list(lim.values()),
                             r.end.pc if r.end is not None else TRUE):
        order = b.OR(order, b.AND(c, G.lt(lo, hi)))
    require(R, r, 'limits in order', order,
            about={r.p('min_wavelength').vn, r.p('max_wavelength').vn},
            msg='a minimum wavelength not below the maximum')
    r = an.method('Calibrator', 'set_ransac_properties')
    x = r.p('minimum_matches')
    given = N(G.isnone(x))
    require(R, r, 'minimum_matches positive', G.lt(zero, x), given, {x.vn},
            'a minimum_matches of zero or less')
    x = r.p('minimum_peak_utilisation')
    given = N(G.isnone(x))
    require(R, r, 'minimum_peak_utilisation at least 0',
            N(G.lt(x, zero)), given, {x.vn}, 'a negative utilisation')
    require(R, r, 'minimum_peak_utilisation at most 1',
            N(G.lt(one, x)), given, {x.vn}, 'a utilisation above 1')
    x = r.p('minimum_fit_error')
    require(R, r, 'minimum_fit_error not negative', N(G.lt(x, zero)),
            N(G.isnone(x)), {x.vn}, 'a negative minimum_fit_error')
    r = an.method('Atlas', 'add')
    for p in ('min_atlas_wavelength', 'max_atlas_wavelength'):
        x = r.p(p)
        given = N(G.isnone(x))
        require(R, r, 'Atlas.add %s finite' % p, finite(x), given, {x.vn},
                'a non-finite %s' % p)
    lengths(an, R)
    r = an.method('Calibrator', 'set_known_pairs')
    for p in ('pix', 'wave'):
        nan_pairs(R, r, p)


def islen(n):
    return n.op == 'fn' and n.info in ('len', 'size')


def lencond(R, r, what, a, c):
    """Equal numbers of a and c on every return."""
    b = G.b
    A, C = r.p(a), r.p(c)
    end = r.end.pc if r.end is not None else FALSE
    hit = odd = wrong = None
    for v in b.support(end):
        pred, nodes = G.atoms[v][:2]
        l = [any(mentions(n, lambda y: y.vn == A.vn, gates=False)
                 for n in nodes), any(mentions(
                     n, lambda y: y.vn == C.vn, gates=False)
                     for n in nodes)]
        if not all(l) or not any(y.op == 'fn' and y.info in (
                'len', 'size') or y.op == 'attr' and y.info in (
                    'size', 'shape') for n in nodes for y in closure(
                        n, gates=False)):
            continue
        odd = v
        x = b.var(v)
        if pred == 'eq' and len(nodes) == 2 and b.AND(
                end, b.NOT(x)) == FALSE:
            hit = v
        elif pred in ('pos', 'eq') and len(nodes) == 2 and all(
                islen(n) for n in nodes):
            if not sat(b.AND(end, b.NOT(G.eq(*nodes)))):
                hit = v
            else:
                wrong = v
    if hit is None and wrong is not None:
        R.bad('required-check', what, 'lists of different length are '
              'accepted when %s' % G.bshow(end, 2)[:200], at=r.name)
        return
    if hit is not None:
        R.ok('required-check', what, G.bshow(b.var(hit), 3)[:200])
    elif odd is None:
        R.bad('required-check', what, 'lists of different length are '
              'accepted', at=r.name)
    else:
        R.unk('required-check', what, G.bshow(b.var(odd), 3)[:200])


def lengths(an, R):
    r = an.method('Calibrator', 'set_known_pairs')
    lencond(R, r, 'pix and wave of one length', 'pix', 'wave')
    r = an.method('Atlas', 'add_user_atlas')
    lencond(R, r, 'elements and wavelengths of one length', 'elements',
            'wavelengths')
    b = G.b
    # intensities, when given
    x = r.p('intensities')
    r2 = an.run(r.fn, pre=lambda q: b.NOT(G.isnone(q.p('intensities'))))
    lencond(R, r2, 'elements and intensities of one length', 'elements',
            'intensities')
    r = an.method('Calibrator', 'manual_refit')
    lencond(R, r, 'matched_peaks and matched_atlas of one length',
            'matched_peaks', 'matched_atlas')


RULES = [stored, required]
