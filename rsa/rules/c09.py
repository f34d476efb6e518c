"""C09: matches are only ever supplied peaks and atlas lines."""
from ..core import G, TRUE, strip, isconst, show
from ..prov import Prov
from ..q import closure
from ..solve import configs

LISTS = (('matched_peaks', 0), ('matched_atlas', 1))


def kind(r, x):
    """0: supplied peaks, 1: wavelengths of the atlas, otherwise a text."""
    if isinstance(x, tuple):
        n, col = x
        if n.op == 'field' and n.info == 'pairs' and n.args and \
                n.args[0].vn == r.self.vn:
            return col if col in (0, 1) else 'column %s of pairs' % col
        return show(n, 2)
    s = strip(x)
    if s.op == 'field' and s.info == 'peaks' and s.args and \
            s.args[0].vn == r.self.vn:
        return 0
    if s.op in ('attr', 'field') and s.info == 'wavelength' and any(
            y.op in ('field', 'attr') and y.info in ('atlas_lines', 'atlas')
            for y in closure(s)):
        return 1
    return show(s, 3)


def judge(R, r, rule, what, n, want, fn, keep=(), pre='entries'):
    """All entries of n are of the wanted kind."""
    names = ('peaks', 'atlas wavelengths')
    bad, unk, some = [], [], []
    for t, x in Prov(r).src(n, keep[0] if keep else None):
        if t == 'unknown':
            unk.append('not followed: ' + show(x, 2)[:120])
        elif t == 'altered':
            bad.append('computed: ' + show(x, 4)[:200])
        else:
            k = kind(r, x)
            if k == want:
                some.append(k)
            else:
                bad.append('of another origin: ' + (
                    names[k] if k in (0, 1) else k))
    if bad:
        R.bad(rule, what, '%s that are not supplied %s, but %s' % (
            pre, names[want], '; '.join(sorted(set(bad))[:3])), at=fn)
    elif unk or not some:
        R.unk(rule, what, '; '.join(unk[:3]) or 'no origin found')
    else:
        R.ok(rule, what, names[want])


def reported(an, R):
    for lab, ft, bf, r, ways in configs(an):
        w = 'Calibrator.fit (%s)' % lab
        n = 0
        for o in ways or ():
            for a, want in LISTS:
                v = o.vals.get(a)
                if v is not None:
                    n += 1
                    judge(R, r, 'selected', '%s of %s, %s of the loop body' %
                          (a, w, o.kind), v, want, o.loop.fn)
        if not n:
            R.unk('selected', w, 'no accepted solution followed')
    r = an.method('Calibrator', 'match_peaks')
    for a, want in LISTS:
        first = r.it.initial(('o', r.self.vn, a))
        n = 0
        for c, v in G.leaves(r.final(a), r.end.pc):
            if v.vn != first.vn and G.sat(c):
                n += 1
                judge(R, r, 'selected', a + ' of Calibrator.match_peaks', v,
                      want, r.name)
        if not n:
            R.unk('selected', a + ' of Calibrator.match_peaks', 'not stored')


def stored(an, R):
    """The tables behind the matches hold peaks and lines."""
    for f in an.entries():
        if f.cls is None or f.cls.name != 'Calibrator' or \
                f.name == '__init__':
            continue
        r = an.run(f)
        if r.end is None or getattr(r, 'self', None) is None:
            continue
        for e in r.events:
            if e.kind != 'store' or e.a is None or e.a.vn != r.self.vn or \
                    e.b is None or not G.sat(e.pc) or e.fn != f.full:
                continue
            if e.name == 'pairs':
                if isconst(strip(e.b)) and strip(e.b).info is None:
                    continue
                for col in (0, 1):
                    judge(R, r, 'pairs', 'pairs stored by %s, column %d' % (
                        f.full, col), e.b, col, f.full, (col,))
            elif e.name == 'peaks':
                mine(R, r, e, f)
    r = an.inits['Calibrator']
    for e in r.events:
        if e.kind == 'store' and e.name == 'peaks' and e.b is not None and \
                e.a is not None and e.a.vn == r.self.vn:
            mine(R, r, e, r.fn)


def mine(R, r, e, f):
    what = 'peaks stored by %s' % (f.full if f is not None else r.name)
    bad, unk = [], []
    for t, x in Prov(r).src(e.b):
        if t == 'unknown':
            unk.append(show(x, 2)[:100])
        elif t == 'altered':
            bad.append(show(x, 3)[:150])
        elif isinstance(x, tuple) or strip(x).op != 'param' and not (
                strip(x).op == 'field' and strip(x).info == 'peaks'):
            unk.append(show(x[0] if isinstance(x, tuple) else x, 2)[:100])
    if bad:
        R.bad('peaks', what, 'the supplied peaks are changed: ' + bad[0],
              ev=e)
    elif unk:
        R.unk('peaks', what, '; '.join(unk[:2]))
    else:
        R.ok('peaks', what)


RULES = [reported, stored]
