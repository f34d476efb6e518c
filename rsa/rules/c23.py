"""C23: the atlas keeps exactly the lines it was told to keep."""
from ..core import G, TRUE, FALSE, strip, isconst, show
from ..linear import implies
from ..q import mentions, closure
from ..front import Missing

LINES = 'atlas_lines'


def bare(n):
    """Without wrappers that keep the elements."""
    while n.op == 'wrap' and n.info in ('slot', 'list', 'copy', 'tuple',
                                        'array', 'asarray') or n.op == 'slot':
        n = n.args[0]
    return n


def leaves(r, obj=None):
    v = r.final(LINES, obj)
    return G.leaves(v, r.end.pc) if v is not None else []


def isold(n, old):
    n = bare(n)
    return n.vn == old.vn or bare(old).vn == n.vn


def keepsold(n, old, pc, why, depth=0):
    """Does the value start with every old line, in place?  None: unsure."""
    n = bare(G.simp(n, pc))
    if isold(n, old):
        return True
    if depth > 40:
        return None
    if n.op == 'phi':
        out = [keepsold(l, old, G.b.AND(pc, c), why, depth + 1)
               for c, l in G.leaves(n, pc)]
        return False if False in out else None if None in out else True
    if n.op in ('concat', 'append', 'extend'):
        return keepsold(n.args[0], old, pc, why, depth + 1)
    if n.op == 'bin' and n.info == '+':
        return keepsold(n.args[0], old, pc, why, depth + 1)
    if n.op == 'mu':
        a = keepsold(n.args[0], old, pc, why, depth + 1)
        if a is not True or n.next is None:
            return a
        return True if keepsold(n.next, n, pc, why, depth + 1) else None
    if n.op == 'fn' and n.info in ('sort', 'sorted', 'reversed', 'flip',
                                   'unique', 'roll') and mentions(
            n.args[0], lambda x: isold(x, old)):
        why.append('the lines already in the atlas change places: it holds '
                   '%s' % show(n, 3)[:160])
        return False
    if not mentions(n, lambda x: isold(x, old)):
        why.append('the lines already in the atlas are lost: it holds %s'
                   % show(n, 3)[:160])
        return False
    return None


def added(n, old, pc, r, why):
    """Is every loaded line added?  (conditions inside the loops)"""
    for x in closure(n, gates=False):
        if x.op == 'collect' and any(
                y.op == 'obj' and y.info == 'AtlasLine' or y.cls == 'AtlasLine'
                for y in [strip(x.args[0])]):
            c = x.args[2] if len(x.args) > 2 else None
            if c is not None and not (isconst(c) and c.info is True):
                f = G.truth(c)
                if not implies(G.b.AND(pc, FALSE if f == TRUE else TRUE), f):
                    why.append(show(c, 4)[:200])


def adds(an, R):
    for name in ('add', 'add_user_atlas'):
        r = an.method('Atlas', name)
        old = r.init(LINES)
        why, skipped = [], []
        res = []
        if r.end is None:
            R.unk('add-keeps', name, 'never returns')
            continue
        for c, l in leaves(r):
            res.append(keepsold(l, old, c, why))
            added(l, old, c, r, skipped)
        what = 'Atlas.%s' % name
        if False in res:
            R.bad('add-keeps', what, why[0], at=r.name)
        elif None in res or not res:
            R.unk('add-keeps', what)
        else:
            R.ok('add-keeps', what, '%d forms of the list extend the old one'
                 % len(res))
        if skipped:
            R.bad('add-all', what, 'a loaded line is only added when %s'
                  % skipped[0], at=r.name)
        else:
            R.ok('add-all', what, 'no condition on adding a line')
        # every requested line reaches the list
        rule_reach(R, r, what, name)
        for e in r.evs('mutate'):
            if isold(e.a, old) and e.name in (
                    '.pop', '.remove', '.clear', '.sort', '.reverse',
                    '.insert') and G.sat(e.pc) and e.pc != FALSE:
                R.bad('add-keeps', what, 'changes the lines already there '
                      '(%s)' % e.name, e)


def rule_reach(R, r, what, name):
    if name == 'add':
        given = G.b.NOT(G.isnone(r.p('elements')))
    else:
        given = TRUE
    old = r.init(LINES)
    for c, l in leaves(r):
        f = G.b.AND(c, given)
        if isold(l, old) and G.sat(f):
            R.bad('add-all', what, 'returns without adding anything when %s'
                  % G.bshow(f, 2)[:200], at=r.name)
            return
        if bare(l).op in ('concat', 'append', 'extend'):
            x = bare(bare(l).args[1]) if len(bare(l).args) > 1 else None
            if x is not None and x.op == 'collectcat' and name == 'add':
                sp = strip(x.args[1])
                el = r.p('elements')
                if sp.op == 'sub' and mentions(
                        sp, lambda y: y.vn == el.vn) and \
                        sp.args[1].op == 'slice':
                    R.bad('add-all', what, 'only adds the lines of %s'
                          % show(sp, 3), at=r.name)
                    return
            if x is not None and x.op == 'sub':
                R.bad('add-all', what, 'only adds %s' % show(x, 3), at=r.name)
                return


def underlying(n, old):
    """Is it the list itself (not a copy) at some point of the loop?"""
    n = strip(n) if n.op != 'wrap' else n
    k = 0
    while k < 30:
        k += 1
        if n.vn == old.vn:
            return True
        if n.op == 'mu' or n.op == 'mut' or n.op == 'slot' or (
                n.op == 'wrap' and n.info == 'slot'):
            n = n.args[0]
        elif n.op == 'fn' and n.info in ('enumerate', 'zip', 'reversed'):
            if n.info == 'reversed':
                return False
            n = n.args[0]
        else:
            return False
    return False


def selection(v, old, pc):
    """v = [l for l in old if cond(l)] -> (element, space, cond)."""
    v = bare(v)
    if v.op == 'collect':
        el = v.args[0]
        cond = v.args[2] if len(v.args) > 2 else None
        return el, v.args[1], cond, v
    return None


def removal(an, R):
    r = an.method('Atlas', 'remove_atlas_lines_range')
    old = r.init(LINES)
    w, tol = r.p('wavelength'), r.p('tolerance')
    what = 'Atlas.remove_atlas_lines_range'
    for e in r.evs('mutate'):
        for l in e.loops or ():
            if l.space is not None and underlying(l.space, old) and \
                    underlying(e.a, old) and e.name in (
                        '.remove', '.pop', 'del []'):
                R.bad('remove-exact', what, 'removes from the list it is '
                      'iterating over, so the next line is skipped', e)
                return
    res = []
    for c, l in leaves(r):
        b = bare(l)
        if isold(l, old):
            res.append('nothing is removed when %s' % G.bshow(c, 2))
            continue
        if b.op == 'list' and not b.args:
            res.append('every line is removed when %s' % G.bshow(c, 2))
            continue
        s = selection(l, old, c)
        if s is None:
            R.unk('remove-exact', what, show(l, 4)[:200])
            return
        el, sp, cond, node = s
        el = G.simp(el, c)
        src = strip(el)
        if not (src.op in ('sub', 'iterel') and isold(src.args[0], old)):
            if mentions(el, lambda x: isold(x, old)):
                R.unk('remove-exact', what, 'element %s' % show(el, 3))
            else:
                res.append('the lines kept are %s' % show(el, 3))
            continue
        f = G.truth(G.simp(cond, c)) if cond is not None else TRUE
        wl = field_of(f, src, 'wavelength')
        if wl is None:
            res.append('the wavelength of the line does not decide: kept '
                       'when %s' % G.bshow(f, 3)[:200])
            continue
        d = G.bin('-', wl, w)
        gone = G.b.AND(G.lt(d, tol), G.lt(G.un('-', d), tol))
        a = implies(G.b.AND(c, f), G.b.NOT(gone))
        b2 = implies(G.b.AND(c, G.b.NOT(gone)), f)
        if a and b2:
            continue
        if not linearish(f):
            R.unk('remove-exact', what, 'condition %s' % G.bshow(f, 3)[:200])
            return
        if not a:
            res.append('a line inside the range can be kept: kept when %s'
                       % G.bshow(f, 3)[:200])
        if not b2:
            res.append('a line outside the range can be removed: kept when '
                       '%s' % G.bshow(f, 3)[:200])
    if res:
        R.bad('remove-exact', what, '; '.join(res), at=r.name)
    else:
        R.ok('remove-exact', what, 'a line is kept exactly when '
             '|wavelength - centre| >= tolerance, in the old order')


def field_of(f, el, name):
    """The attribute of the element that the condition reads."""
    for v in G.b.support(f):
        for n in G.atoms[v][1]:
            for x in closure(n, gates=False):
                if x.op in ('field', 'attr') and x.info == name and \
                        strip(x.args[0]).vn == el.vn:
                    return x
    return None


def linearish(f):
    """Only comparisons of known quantities."""
    for v in G.b.support(f):
        if G.atoms[v][0] not in ('pos', 'eq'):
            return False
    return True


def clearing(an, R):
    r = an.method('Atlas', 'clear')
    what = 'Atlas.clear'
    bad = []
    for c, l in leaves(r):
        b = bare(l)
        if b.op == 'list' and not b.args:
            continue
        if b.op == 'unknown' or b.op == 'mu':
            R.unk('clear-all', what, show(b, 3))
            return
        bad.append('%s when %s' % (show(b, 3)[:120], G.bshow(c, 2)[:120]))
    R.put(not bad, 'clear-all', what, 'the list is empty afterwards',
          'the atlas holds %s afterwards' % '; '.join(bad))


def accessors(an, R):
    for g in ('get_lines', 'get_elements', 'get_intensities'):
        r = an.method('Atlas', g)
        old = r.init(LINES)
        what = 'Atlas.%s' % g
        out = []
        for c, v in G.leaves(r.ret, r.end.pc):
            v = bare(v)
            s = selection(v, old, c)
            if s is None:
                if not mentions(v, lambda x: isold(x, old)):
                    out.append('returns %s, not the lines now in the atlas'
                               % show(v, 3))
                elif v.op == 'sub' or any(
                        x.op == 'fn' and x.info in (
                            'sorted', 'sort', 'unique', 'mkset', 'round')
                        for x in closure(v, gates=False)):
                    out.append('returns %s' % show(v, 3))
                else:
                    out.append(None)
                continue
            el, sp, cond, node = s
            el = strip(el)
            f = G.truth(G.simp(cond, c)) if cond is not None else TRUE
            if not implies(c, f):
                out.append('leaves out lines: only those with %s'
                           % G.bshow(f, 3)[:160])
            elif not isold(sp, old):
                if mentions(sp, lambda x: isold(x, old)):
                    if bare(sp).op == 'sub' or bare(sp).op == 'fn':
                        out.append('iterates %s' % show(sp, 3))
                    else:
                        out.append(None)
                else:
                    out.append('reads %s, not the lines now in the atlas'
                               % show(sp, 3))
            elif el.op in ('field', 'attr') and strip(
                    el.args[0]).op in ('sub', 'iterel'):
                pass
            else:
                out.append(None)
        texts = [x for x in out if x]
        if texts:
            R.bad('accessor', what, texts[0], at=r.name)
        elif None in out:
            R.unk('accessor', what)
        else:
            R.ok('accessor', what, 'one value per line, in order')
    r = an.method('Atlas', '__len__')
    old = r.init(LINES)
    want = G.raw('fn', (old,), 'len')
    for c, v in G.leaves(r.ret, r.end.pc):
        v = bare(v)
        if v.op == 'fn' and v.info == 'len' and isold(bare(v.args[0]), old):
            R.ok('accessor', 'Atlas.__len__', 'len(atlas_lines)')
        elif v.op == 'fn' and v.info == 'len' and bare(
                v.args[0]).op == 'collect' and isold(
                    bare(v.args[0]).args[1], old):
            R.ok('accessor', 'Atlas.__len__', show(v, 3))
        elif not mentions(v, lambda x: isold(x, old)) or v.op == 'bin' or \
                any(x.op in ('fn', 'set') and x.info in ('mkset', 'unique')
                    or x.op == 'set' for x in closure(v, gates=False)):
            R.bad('accessor', 'Atlas.__len__', 'is %s' % show(v, 3),
                  at=r.name)
        else:
            R.unk('accessor', 'Atlas.__len__', show(v, 3))


DELEGATES = {
    'remove_atlas_lines_range': ('remove_atlas_lines_range', (
        'wavelength', 'tolerance')),
    'clear_atlas': ('clear', ()),
    'list_atlas': ('list', ()),
}


def delegates(an, R):
    """The calibrator edits the atlas it holds and does not replace it."""
    for name, (target, args) in DELEGATES.items():
        r = an.method('Calibrator', name)
        old = r.init('atlas')
        what = 'Calibrator.%s' % name
        pres = G.b.AND(r.end.pc, G.b.NOT(G.isnone(old))) \
            if r.end is not None else FALSE
        if r.end is None:
            R.unk('delegate', what, 'never returns')
            continue
        evs = [e for e in r.evs('icall')
               if e.name.full == 'atlas.Atlas.' + target]
        cover = FALSE
        ok = True
        for e in evs:
            if e.b.get('self') is None or e.b['self'].vn != old.vn:
                continue
            cover = G.b.OR(cover, e.pc)
            for a in args:
                v = e.b.get(a)
                if v is None or not samev(v, r.p(a), e.pc):
                    ok = False
                    R.bad('delegate', what, '%s is passed on as %s' % (
                        a, show(v, 2) if v is not None else 'the default'),
                        e)
        if not G.b.AND(pres, G.b.NOT(cover)) == FALSE and \
                G.sat(G.b.AND(pres, G.b.NOT(cover))):
            direct = [e for e in r.evs('mutate', 'store') if mentions(
                e.a, lambda x: x.vn == old.vn)]
            if direct:
                R.unk('delegate', what, 'edits the lines itself')
            else:
                R.bad('delegate', what, 'does not reach Atlas.%s when %s' % (
                    target, G.bshow(G.b.AND(pres, G.b.NOT(cover)), 2)),
                    at=r.name)
            continue
        if ok:
            R.ok('delegate', what, 'Atlas.%s of the atlas held' % target)
        kept(R, r, old, what)
    r = an.method('Calibrator', 'set_atlas')
    for c, l in G.leaves(r.final('atlas'), r.end.pc):
        if l.vn == r.p('atlas').vn:
            R.ok('delegate', 'Calibrator.set_atlas', 'holds the given atlas')
        elif mentions(l, lambda x: x.vn == r.p('atlas').vn):
            R.unk('delegate', 'Calibrator.set_atlas', show(l, 2))
        else:
            R.bad('delegate', 'Calibrator.set_atlas', 'holds %s when %s' % (
                show(l, 2), G.bshow(c, 2)[:160]), at=r.name)
    for name in ('add_atlas', 'add_user_atlas'):
        r = an.method('Calibrator', name)
        kept(R, r, r.init('atlas'), 'Calibrator.%s' % name)


def samev(a, b, pc):
    a = strip(G.simp(a, pc))
    return a.vn == strip(b).vn


def kept(R, r, old, what):
    """An atlas that is there stays the calibrator's atlas."""
    bad = []
    for c, l in G.leaves(r.final('atlas'), r.end.pc):
        f = G.b.AND(c, G.b.NOT(G.isnone(old)))
        if l.vn != old.vn and G.sat(f):
            bad.append('%s when %s' % (show(l, 2), G.bshow(f, 2)[:160]))
    R.put(not bad, 'atlas-kept', what, 'an existing atlas is extended',
          'an existing atlas is replaced by %s' % '; '.join(bad), None)
    fld = old
    for e in r.evs('mutate'):
        a = e.a
        if a.op == 'field' and a.info == LINES and a.args[0].vn == old.vn \
                and e.name in ('.clear', '.pop', '.remove') and \
                'add' in what and G.sat(e.pc):
            R.bad('atlas-kept', what, 'drops lines that were there', e)


RULES = [adds, removal, clearing, accessors, delegates]
