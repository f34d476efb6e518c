"""C05: every loaded line passes the requested filters."""
import csv
import os

from ..core import G, TRUE, FALSE, strip, isconst, show
from ..front import Missing
from ..lines import (loader, outputs, only, walk, stepkind, facts, SCEN,
                     label, rowcell, COLS)
from ..linear import implies, sat as lsat
from ..q import closure, mentions, runs
from ..rows import Rows, cells, row
from .c19 import judge
from ..stencil import Stencil, Unknown


def scenarios(an):
    for s in SCEN:
        r = loader(an, **s)
        if r.ret is None:
            yield s, r, None, None
            continue
        R, out = outputs(r)
        yield s, r, R, out


def limits(an, R):
    n = 0
    for s, r, W, out in scenarios(an):
        what = label(s)
        if out is None:
            R.bad('loads', what, 'no line list is returned at all',
                  at=r.name)
            continue
        pc = r.end.pc
        c = only(out[1], pc)
        if c is None:
            R.unk('row-facts', what, 'wavelength is not one table cell')
            continue
        chain, j0 = walk(W, c[2])
        f = facts(W, chain, pc)
        w, el, it = rowcell(c, 1), rowcell(c, 0), rowcell(c, 2)
        # requested elements
        req = r.p('elements')
        if s['elements'] == 'str':
            g = G.cmp('==', el, req)
        else:
            g = G.contains(el, req)
        check(R, 'element', what, f, g, chain, req, r)
        # wavelength limits, in the medium of the list or of the caller
        lo, hi = r.p('min_atlas_wavelength'), r.p('max_atlas_wavelength')
        forms = [(w, lo, hi)]
        if not s['vacuum']:
            forms = [(w, conv(an, r, W, 'air_to_vacuum_wavelength', lo),
                      conv(an, r, W, 'air_to_vacuum_wavelength', hi)),
                     (conv(an, r, W, 'vacuum_to_air_wavelength', w), lo, hi)]
        ok = any(implies(f, G.b.AND(G.cmp('>=', x, a), G.cmp('<=', x, b)))
                 for x, a, b in forms)
        x, a, b = forms[0]
        if ok:
            R.ok('wavelength-limits', what, G.bshow(
                G.b.AND(G.cmp('>=', x, a), G.cmp('<=', x, b)), 1)[:200])
        else:
            verdict(R, 'wavelength-limits', what, f, chain, [
                r.p('min_atlas_wavelength'), r.p('max_atlas_wavelength')], r,
                'a line outside the requested limits can be returned')
        # minimum intensity
        mi = r.p('min_intensity')
        if s['intensity'] in ('float', 'int'):
            check(R, 'min-intensity', what, f, G.cmp('>=', it, mi), chain,
                  mi, r)
        elif s['intensity'] in ('list', 'ndarray'):
            perelement(R, what, f, chain, mi, it, el, r)
        n += 1
        order(R, what, s, chain, W, c, pc, r)
    if not n:
        R.unk('row-facts', 'load_calibration_lines', 'no scenario decided')


def conv(an, r, W, name, x):
    t = an.func('util', name, bind={
        'wavelengths': x, 'temperature': r.p('temperature'),
        'pressure': r.p('pressure'),
        'relative_humidity': r.p('relative_humidity')})
    return W.flat(t.ret)


def check(R, rule, what, f, g, chain, req, r):
    if implies(f, g):
        R.ok(rule, what, G.bshow(g, 1)[:200])
    else:
        verdict(R, rule, what, f, chain, [req], r,
                'a line that fails this can be returned: %s is not implied'
                % G.bshow(g, 1)[:200])


def verdict(R, rule, what, f, chain, params, r, text):
    """Violated only when every step that could enforce it is understood."""
    opaque = [s for s, j in chain if stepkind(s) == 'index' and
              not ranking(s) and any(mentions(s, lambda x, p=p: x.vn == p.vn) for p in params)]
    conds = [v for v in G.b.support(f) if G.atoms[v][0] in ('truthy', 'cmp')
             and any(mentions(x, lambda y, p=p: y.vn == p.vn)
                     for x in G.atoms[v][1] for p in params)]
    if opaque or conds:
        R.unk(rule, what, 'selection %s not understood' % show(
            (opaque or [G.atoms[conds[0]][1][0]])[0], 3))
    else:
        R.bad(rule, 'load_calibration_lines', '%s (%s)' % (text, what),
              at=r.name)


def ranking(s):
    """Does the step only put rows in the order of a column (or keep the
    first ones in that order)?"""
    t = strip(s)
    if t.op == 'fn' and t.info == 'sort' and len(t.args) == 1:
        t = strip(t.args[0])
    while t.op == 'sub' and t.args[1].op == 'slice':
        t = strip(t.args[0])
    return sortkey(t) is not None


def forwarded(an, R):
    """The atlas loads its lines with the filters it was asked for."""
    for f, r in runs(an, lambda f: f.cls is not None and f.cls.name in (
            'Atlas', 'Calibrator')):
        n = 0
        for e in r.events:
            if e.kind != 'icall' or e.name.full != \
                    'util.load_calibration_lines' or not G.sat(e.pc):
                continue
            for p in FILTERS:
                if p not in r.params or p not in e.b:
                    continue
                n += 1
                how, text = judge(r, e, p, e.b[p])
                if how == 'bad':
                    R.bad('forwarded', '%s of %s' % (p, f.full),
                          'is not the filter of the load, which ' + text, e)
                elif how == 'unk':
                    R.unk('forwarded', '%s of %s' % (p, f.full), text)
        if n:
            R.ok('forwarded', f.full, '%d filters' % n)


FILTERS = ('min_atlas_wavelength', 'max_atlas_wavelength', 'min_intensity',
           'min_distance', 'linelist', 'brightest_n_lines')


def perelement(R, what, f, chain, mi, it, el, r):
    """The limit of a line is the entry of its own element."""
    hit = None
    for v in G.b.support(f):
        pred, nodes, info, vns = G.atoms[v]
        if pred != 'pos' or not any(mentions(
                x, lambda y: y.vn == mi.vn) for x in nodes):
            continue
        if any(x.vn == it.vn for x in nodes):
            hit = v, nodes
            break
    if hit is None:
        verdict(R, 'min-intensity', what, f, chain, [mi], r,
                'the per-element minimum is not applied')
        return
    v, nodes = hit
    lim = [x for x in nodes if x.vn != it.vn][0]
    if not implies(f, G.cmp('>=', it, lim)):
        verdict(R, 'min-intensity', what, f, chain, [mi], r,
                'the per-element minimum is not enforced')
        return
    # a mapping from the element at i to the limit at i
    s = strip(lim)
    if s.op == 'sub' and strip(s.args[0]).op == 'dictcollect':
        d = strip(s.args[0])
        k, val = d.args[0], d.args[1]
        i = d.info.iota
        good = s.args[1].vn == el.vn and at_iota(k, i, r.p('elements')) \
            and at_iota(val, i, mi)
        if good:
            R.ok('min-intensity', what, 'limit %s' % show(s, 4))
            return
        if s.args[1].vn == el.vn and mentions(
                k, lambda y: y.vn == r.p('elements').vn) and \
                mentions(val, lambda y: y.vn == mi.vn) and \
                plain(k, i) and plain(val, i):
            R.bad('min-intensity', 'load_calibration_lines', 'the minimum of '
                  'an element is %s for element %s' % (show(val, 4),
                                                       show(k, 4)),
                  at=r.name)
            return
    const = s
    if s.op == 'sub' and strip(s.args[0]).op == 'dictcollect':
        const = strip(s.args[0]).args[1]
    if mentions(const, lambda y: y.vn == mi.vn) and reduced(const, mi):
        R.bad('min-intensity', 'load_calibration_lines', 'every element is '
              'compared with the same limit %s' % show(const, 3), at=r.name)
        return
    if s.op == 'sub' and s.args[0].vn == mi.vn:
        i = strip(s.args[1])
        if i.op in ('mcall', 'fn') and 'index' in str(i.info) and \
                len(i.args) == 2 and i.args[1].vn == el.vn:
            R.ok('min-intensity', what, 'limit %s' % show(s, 4))
            return
        if isconst(i):
            R.bad('min-intensity', 'load_calibration_lines', 'every element '
                  'is compared with entry %s of the minima' % show(i, 2),
                  at=r.name)
            return
    R.unk('min-intensity', what, 'limit %s' % show(s, 4))


def reduced(x, mi):
    """One number made of the whole list of minima."""
    x = strip(x)
    if x.op == 'fn' and x.info in ('min', 'max', 'mean', 'median', 'sum'):
        return len(x.args) == 1 and strip(x.args[0]).vn == mi.vn
    if x.op in ('bin', 'un', 'wrap'):
        return any(reduced(a, mi) for a in x.args)
    return False


def at_iota(x, i, base):
    s = strip(x)
    return s.op == 'sub' and s.args[1].vn == i.vn and \
        strip(s.args[0]).vn == base.vn


def plain(x, i):
    s = strip(x)
    return s.op == 'sub' and s.args[1].op in ('iota', 'const', 'bin')


def order(R, what, s, chain, W, c, pc, r):
    """Brightest n, then separation, on lines sorted by wavelength."""
    n = r.p('brightest_n_lines')
    d = r.p('min_distance')
    mi = r.p('min_intensity')
    w = None
    srt = False
    sorter = None
    killed = None
    bright = sepi = None
    for k, (st, j) in enumerate(chain):
        kind = stepkind(st)
        t = strip(G.simp(st, pc))
        usesn = mentions(t, lambda y: y.vn == n.vn)
        if kind == 'mask':
            if mentions(t, lambda y: y.vn == d.vn) and sepi is None and \
                    directly(t, d):
                sepi = k
                issorted, why = srt, killed
            continue
        if kind == 'slice':
            if usesn and bright is None:
                bright = k
                R.bad('brightest', 'load_calibration_lines', 'the first n '
                      'lines are kept, not the most intense ones (%s)'
                      % what, at=r.name) if not sorted_by(
                          W, chain[:k], c, pc, 2) else \
                    R.ok('brightest', what, 'slice of a sorted list')
            continue
        if kind == 'reverse':
            srt, killed = False, 'reversed'
            continue
        key = sortkey(t)
        if key is not None and key[0] in ('unique', 'argsort'):
            col = keycol(W, key[1], j, c, pc)
            if col == 1 and not key[2]:
                srt, killed = True, None
            else:
                srt, killed = False, 'ordered by %s' % (
                    COLS[col] if col is not None else show(key[1], 3))
            if not usesn:
                continue
        if usesn and bright is None:
            bright = k
            brightest(R, what, W, t, j, c, pc, n, r)
            if strip(t).op == 'fn' and strip(t).info == 'sort':
                continue            # positions stay in order
            if key is None or key[0] == 'sorted':
                if keysorted(t):
                    continue
            srt, killed = False, 'ordered by intensity (%s)' % show(t, 3)
            continue
        if strip(t).op == 'fn' and strip(t).info == 'sort':
            continue
        srt, killed = False, None
    if s['brightest']:
        if bright is None:
            R.bad('brightest', 'load_calibration_lines', 'the number of '
                  'lines is not limited although a limit was given (%s)'
                  % what, at=r.name)
    elif bright is not None:
        R.unk('brightest', what, 'limit used although none given')
    if s.get('sep', True):
        if sepi is None:
            if any(mentions(st, lambda y: y.vn == d.vn) for st, j in chain):
                R.unk('separation', what, 'not a mask')
            else:
                R.bad('separation', 'load_calibration_lines', 'the minimum '
                      'separation is not enforced (%s)' % what, at=r.name)
            return
        later = [st for st, j in chain[sepi + 1:]]
        late = [st for st in later if stepkind(st) != 'index' or
                mentions(st, lambda y: y.vn in (n.vn, mi.vn))]
        R.put(not late, 'separation-last', what if not late else
              'load_calibration_lines', 'last selection', 'lines are removed '
              'after the separation was enforced: %s (%s)' % (
                  show(late[0], 3) if late else '', what))
        if issorted:
            R.ok('separation-order', what, 'sorted by wavelength')
        elif why is not None:
            R.bad('separation-order', 'load_calibration_lines', 'neighbours '
                  'are compared in the wrong order: the lines are %s (%s)'
                  % (why, what), at=r.name)
        else:
            t = chain[sepi][0]
            if mentions(t, lambda y: y.op == 'fn' and y.info in (
                    'sort', 'argsort', 'unique')):
                R.unk('separation-order', what, 'sorted inside the filter')
            elif all(stepkind(st) in ('mask', 'slice')
                     for st, j in chain[:sepi]):
                R.bad('separation-order', 'load_calibration_lines', 'the '
                      'lines are never sorted by wavelength (%s)' % what,
                      at=r.name)
            else:
                R.unk('separation-order', what, 'order of the lines unknown')


def directly(t, d):
    """Is d compared in this mask itself (not in an inner selection)?"""
    def stop(x):
        return x.op == 'sub' and not isconst(x.args[1]) and \
            x.args[1].op != 'slice'
    return any(x.vn == d.vn for x in closure(t, stop=None)) and \
        any(x.vn == d.vn for x in closure2(t))


def closure2(t):
    """Nodes of the mask without those inside the arrays it selects from."""
    from ..q import children
    seen, todo = {}, [t]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen[x.uid] = x
        if x.op == 'sub':
            todo.append(x.args[0])
            continue
        todo.extend(children(x))
    return list(seen.values())


def sortkey(t):
    """(kind, key expression, descending) of an ordering index array."""
    s = strip(t)
    if s.op == 'sub' and isconst(s.args[1]) and strip(s.args[0]).op == 'fn' \
            and strip(s.args[0]).info == 'unique':
        return ('unique', strip(s.args[0]).args[0], False)
    desc = False
    while True:
        if s.op == 'sub' and s.args[1].op == 'slice':
            st = s.args[1].args[2] if len(s.args[1].args) > 2 else None
            if st is not None and isconst(st) and st.info == -1:
                desc = not desc
            elif st is not None and isconst(st) and st.info in (None, 1):
                pass
            s = strip(s.args[0])
        elif s.op == 'fn' and s.info in ('reversed', 'flip'):
            desc = not desc
            s = strip(s.args[0])
        elif s.op == 'fn' and s.info == 'sort' and len(s.args) == 1 and \
                not s.kw:
            return ('sorted', s.args[0], False)
        else:
            break
    if s.op == 'fn' and s.info == 'argsort' and not [
            k for k, v in (s.kw or ()) if k not in ('kind', 'axis',
                                                    'stable')]:
        k = s.args[0]
        ks = strip(k)
        if ks.op == 'un' and ks.info == '-':
            return ('argsort', ks.args[0], not desc)
        return ('argsort', k, desc)
    return None


def keysorted(t):
    s = strip(t)
    return s.op == 'fn' and s.info == 'sort'


def keycol(W, key, j, c, pc):
    """Which column of the same rows is the key?"""
    e = G.simp(W.at(key, j), pc)
    cs = only(e, pc)
    if cs is None or cs[1].vn != c[1].vn or cs[2].vn != c[2].vn:
        return None
    col = cs[3]
    return int(col.info) if col is not None and isconst(col) else None


def sorted_by(W, chain, c, pc, want):
    for st, j in reversed(chain):
        if stepkind(st) in ('mask', 'slice'):
            continue
        key = sortkey(strip(G.simp(st, pc)))
        return key is not None and key[0] == 'argsort' and key[2] and \
            keycol(W, key[1], j, c, pc) == want
    return False


def brightest(R, what, W, t, j, c, pc, n, r):
    s = strip(t)
    if s.op == 'fn' and s.info == 'sort':
        s = strip(s.args[0])
    # innermost slice that uses n
    if s.op == 'sub' and s.args[1].op == 'slice':
        a = s.args[1].args
        lo, hi = a[0], a[1]
        step = a[2] if len(a) > 2 else None
        inner = s.args[0]
        key = sortkey(inner)
        if key is not None and key[0] == 'argsort' and (
                step is None or isconst(step) and step.info in (None, 1)):
            e = G.simp(W.at(key[1], j), pc)
            cs = only(e, pc)
            col = keycol(W, key[1], j, c, pc)
            if col is None and cs is not None and cs[1].vn == c[1].vn:
                R.bad('brightest', 'load_calibration_lines', 'the ranking '
                      'uses other rows than it selects (%s)' % what,
                      at=r.name)
                return
            if col is None:
                R.unk('brightest', what, 'key %s' % show(key[1], 3))
                return
            none = lambda x: x is None or isconst(x) and x.info is None
            zero = lambda x: none(x) or isconst(x) and x.info == 0
            head = zero(lo) and hi is not None and hi.vn == n.vn
            tail = none(hi) and lo is not None and \
                lo.vn == G.un('-', n).vn
            if not head and not tail:
                R.bad('brightest', 'load_calibration_lines', 'keeps %s '
                      'instead of the %s most intense (%s)' % (
                          show(s.args[1], 3), show(n, 1), what), at=r.name)
                return
            most = head and key[2] or tail and not key[2]
            R.put(most and col == 2, 'brightest', what
                  if most and col == 2 else 'load_calibration_lines',
                  'n most intense', 'keeps the n %s by %s (%s)' % (
                      'largest' if most else 'smallest', COLS[col], what))
            return
    R.unk('brightest', what, 'form %s' % show(t, 4))


def separation(an, R):
    """filter_separation keeps exactly the lines with both gaps wide."""
    r = an.func('util', 'filter_separation')
    w = r.p('wavelengths')
    sep = r.params.get('min_separation') or list(r.params.values())[1]
    n = r.it.length(w, None)
    big = G.cmp('>', n, G.const(2))
    S = Stencil(r.it, w)

    def e(p):
        return S.elem(w, p)
    cases = {'first': (('f', 0), [], [(('f', 1), ('f', 0))]),
             'inner': (('i', 0), [(('i', 0), ('i', -1))],
                       [(('i', 1), ('i', 0))]),
             'last': (('l', 0), [(('l', 0), ('l', -1))], [])}
    for name, (p, left, right) in cases.items():
        pc = G.b.AND(r.end.pc, big)
        gaps = []
        for a, b in left + right:
            g = G.bin('-', e(a), e(b))
            pc = G.b.AND(pc, G.cmp('>=', g, G.const(0)))
            gaps.append(g)
        try:
            k = G.truth(S.at(G.simp(r.ret, pc), p))
        except Unknown as x:
            R.unk('separation-stencil', name, 'cannot evaluate: %s' % x)
            continue
        want = TRUE
        for g in gaps:
            want = G.b.AND(want, G.cmp('>=', g, sep))
        kept = G.b.AND(pc, k)
        if not implies(kept, want):
            R.bad('separation-stencil', 'filter_separation: %s line' % name,
                  'kept although a neighbour is closer than the minimum '
                  'separation', at=r.name)
        elif not implies(G.b.AND(pc, want), k):
            R.bad('separation-stencil', 'filter_separation: %s line' % name,
                  'dropped although no neighbour is closer', at=r.name)
        else:
            R.ok('separation-stencil', name, G.bshow(want, 1))
    # two lines are neighbours
    few = None
    for c, l in G.leaves(r.ret, r.end.pc):
        l = strip(l)
        if l.op == 'fn' and l.info in ('ones', 'ones_like'):
            far = G.b.AND(c, G.b.AND(G.cmp('>=', n, G.const(2)),
                                     G.lt(G.const(0), sep)))
            if lsat(far):
                few = c
    if few is not None:
        R.bad('separation-stencil', 'filter_separation: two lines', 'are '
              'kept without being compared when %s' % G.bshow(few, 3)[:120],
              at=r.name)
    else:
        R.ok('separation-stencil', 'two lines', 'compared')
    # a line without neighbours
    one = G.b.AND(r.end.pc, G.cmp('==', n, G.const(1)))
    one = G.b.AND(one, G.cmp('<', n, G.const(2)))
    v = strip(G.simp(r.ret, one))
    if v.op == 'fn' and v.info in ('ones', 'ones_like') or (
            v.op == 'list' and len(v.args) == 1 and
            G.truth(v.args[0]) == TRUE):
        R.ok('separation-stencil', 'single line', 'kept')
    else:
        try:
            S1 = Stencil(r.it, w)
            k = single(S1, v)
            if k is True:
                R.ok('separation-stencil', 'single line', 'kept')
            elif k is False:
                R.bad('separation-stencil', 'filter_separation: single line',
                      'a line without neighbours is compared with a '
                      'distance of zero', at=r.name)
            else:
                R.unk('separation-stencil', 'single line', show(v, 4))
        except Unknown as x:
            R.unk('separation-stencil', 'single line', str(x))


def single(S, v):
    """Element 0 of an array of length one whose gaps were never written."""
    if v.op == 'bool':
        zero = None
        for a in G.b.support(v.info):
            for x in G.atoms[a][1]:
                for y in closure(x):
                    if y.op == 'fn' and y.info in ('zeros', 'zeros_like'):
                        zero = y
        return False if zero is not None else None
    if v.op == 'fn' and v.info in ('zeros', 'zeros_like'):
        return False
    return None


def untruncated(an, R):
    """The text fields of the shipped list fit the declared type."""
    r = loader(an, vacuum=True)
    path = None
    for root, d, fs in os.walk(os.path.join(an.prog.repo, 'src', 'rascal')):
        for x in fs:
            if x.endswith('nist_clean.csv'):
                path = os.path.join(root, x)
    longest = 0
    if path:
        with open(path) as f:
            for line in csv.reader(f):
                longest = max([longest] + [len(x) for x in line])
    seen = set()
    for nist in (True, False):
        r = loader(an, vacuum=True, nist=nist)
        for e in r.evs('call'):
            if not str(e.name).startswith('numpy.') or 'txt' not in e.name:
                continue
            dt = dict(e.c or {}).get('dtype')
            if dt is None and len(e.b) > 1:
                dt = e.b[1]
            w = width(dt)
            what = 'shipped list' if nist else 'user list'
            if w is None:
                R.unk('untruncated', what, show(dt, 2) if dt else 'none')
            elif w == 0:
                R.ok('untruncated', what, 'unbounded text')
            elif not nist:
                R.bad('untruncated', what, 'fields of a user line list are '
                      'cut after %d characters' % w, e)
            else:
                R.put(w >= longest, 'untruncated', what, 'width %d >= '
                      'longest field %d' % (w, longest), 'fields are cut '
                      'after %d characters, the longest has %d' % (
                          w, longest), e)
            seen.add(what)
    if not seen:
        R.unk('untruncated', 'line list', 'not read with loadtxt')


def width(dt):
    """Characters kept by a text dtype (0: all)."""
    import re
    if dt is None:
        return None
    s = strip(dt)
    if isconst(s) and isinstance(s.info, str):
        m = re.fullmatch(r'[<>=|]?[USa](\d*)', s.info)
        if m:
            return int(m.group(1) or 0)
        if s.info in ('str', 'object', 'O'):
            return 0
        return None
    t = show(s, 2)
    if t in ('str', 'object') or t.endswith('str_') or t.endswith('object_'):
        return 0
    return None


RULES = [limits, forwarded, separation, untruncated]
