"""C15: a saved Hough transform loads back as the same transform."""
from ..core import G, TRUE, FALSE, isconst, show
from ..q import same, closure

READ = {'npy': ('numpy.load',), 'json': ('json.load', 'json.loads')}
WRITE = {'npy': ('numpy.save',), 'json': ('json.dump',)}
KEEP = ('list', 'array', 'asarray', 'copy', 'deepcopy', 'float', 'slot',
        'tuple')


def peel(n):
    """(core, conversions from the outside in) of a converted value."""
    conv = []
    while True:
        if n.op == 'wrap' and n.info in KEEP:
            conv.append(n.info)
            n = n.args[0]
        elif n.op in ('list', 'tuple') and len(n.args) == 1 and not n.kw:
            conv.append('[]')
            n = n.args[0]
        else:
            return n, conv


def items(v):
    """key -> written value, of a list or dictionary."""
    while v.op == 'wrap' and v.info in KEEP:
        v = v.args[0]
    if v.op in ('list', 'tuple') and not v.kw:
        return {k: x for k, x in enumerate(v.args)}
    if v.op == 'dict' and all(isconst(k) for k in v.info[0]):
        return {k.info: x for k, x in zip(v.info[0], v.args)}
    return None


def slot(n, fmt):
    """(key, depth of [0] selections, conversions, how) of a loaded value."""
    conv, depth = [], 0
    while True:
        if n.op == 'wrap' and n.info in KEEP:
            conv.append(n.info)
            n = n.args[0]
        elif n.op == 'sub' and isconst(n.args[1]):
            b, _ = peel(n.args[0])
            if b.op == 'call' and b.info in READ[fmt]:
                return n.args[1].info, depth, conv
            if n.args[1].info == 0:
                depth += 1
                n = n.args[0]
            else:
                return None
        elif n.op == 'mcall' and n.info == 'item':
            depth += 1
            n = n.args[0]
        else:
            return None


def content(an, R, fmt, r, to_disk):
    """What save() hands over in one format: value written or returned."""
    if to_disk:
        out = [e for e in r.events if e.kind == 'call'
               and e.name in WRITE[fmt]]
        if len(out) != 1:
            return None
        a = out[0].b
        return a[1] if fmt == 'npy' else a[0]
    return r.ret


def arrays(an):
    """Attributes that hold arrays."""
    out = set()
    for name in ('bin_hough_points', 'generate_hough_points'):
        r = an.method('HoughTransform', name)
        for a in r.stored():
            out.add(a)
    return out - {'hough_lines', 'hist_sorted_arg'}


def iso(a, b, m, seen=None, depth=0):
    """Same formula up to the renaming m (vn -> vn)?"""
    seen = seen if seen is not None else {}
    a, b = bare(a, m), bare(b, m)
    if a.vn == b.vn or m.get(a.vn) == b.vn:
        return True
    k = (a.uid, b.uid)
    if k in seen:
        return seen[k]
    seen[k] = True
    if depth > 60:
        return False
    r = a.op == b.op and len(a.args) == len(b.args)
    if r and a.op not in ('phi', 'bool'):
        if a.op == 'iota':
            r = True
        elif a.info != b.info and a.op not in ('collect', 'collectcat',
                                               'mu'):
            r = False
    elif r:
        r = False
    if r:
        r = all(iso(x, y, m, seen, depth + 1)
                for x, y in zip(a.args, b.args))
    if r and (a.kw or b.kw):
        r = [k for k, _ in a.kw or ()] == [k for k, _ in b.kw or ()] and \
            all(iso(x, y, m, seen, depth + 1) for (_, x), (_, y) in zip(
                a.kw or (), b.kw or ()))
    seen[k] = r
    return r


def bare(n, m):
    while n.op == 'wrap' and n.info in KEEP and n.vn not in m:
        n = n.args[0]
    return n


def roundtrip(an, R):
    init = an.inits['HoughTransform']
    fields = [a for a in init.stored()]
    arr = arrays(an)
    for fmt in ('npy', 'json'):
        sv = {d: an.method('HoughTransform', 'save', bind={
            'fileformat': G.const(fmt), 'delimiter': G.const('+'),
            'to_disk': G.const(d)}) for d in (True, False)}
        ld = an.method('HoughTransform', 'load',
                       bind={'filetype': G.const(fmt)})
        if ld.end is None or sv[True].end is None or sv[False].end is None:
            R.bad('round-trip', 'Hough transform as %s' % fmt,
                  'saving or loading always fails', at=ld.name)
            continue
        disk = content(an, R, fmt, sv[True], True)
        if disk is None:
            R.unk('round-trip', fmt, 'not exactly one write')
            continue
        it = items(disk)
        if it is None:
            R.unk('round-trip', fmt, 'written value: %s' % show(disk, 2))
            continue
        mem = content(an, R, fmt, sv[False], False)
        mi = items(mem) if mem is not None else None
        if mi is not None:
            good = set(mi) == set(it)
            for k in it:
                if k in mi and not same(peel(mi[k])[0], peel(it[k])[0],
                                        sv[False].end.pc):
                    good = False
            R.put(good, 'memory-form', 'Hough transform as %s' % fmt, '',
                  'is %s in memory but %s on disk' % (show(mem, 3)[:150],
                                                      show(disk, 3)[:150]))
        elif mem is not None and isconst(mem) and mem.info is None:
            R.bad('memory-form', 'Hough transform as %s' % fmt,
                  'nothing is returned', at=sv[False].name)
        else:
            R.unk('memory-form', fmt, show(mem, 2) if mem else '')
        src = {}
        for k, v in it.items():
            src[k] = peel(v)
        got = {}
        for a in fields:
            v = ld.final(a)
            check(an, R, fmt, ld, a, v, src, arr, got)
        derived(an, R, fmt, ld, fields, got)
    both(an, R)


def check(an, R, fmt, ld, a, v, src, arr, got):
    what = 'HoughTransform.%s loaded from %s' % (a, fmt)
    for c, l in G.leaves(v, ld.end.pc):
        if not G.sat(c):
            continue
        s = slot(l, fmt)
        if s is None:
            if l.vn == ld.init(a).vn:
                R.bad('restored', what, 'is left as it was%s' % (
                    '' if c == ld.end.pc else ' when ' + G.bshow(c, 2)),
                    at=ld.name)
                got[a] = False
            continue
        key, depth, conv = s
        got[a] = True
        k = key
        if isinstance(key, int) and key < 0 and fmt == 'npy':
            k = key + len(src)
        if k not in src:
            R.bad('restored', what, 'reads %r, which is not written' % key,
                  at=ld.name)
            continue
        n, wc = src[k]
        if n.op != 'field' or n.args[0].cls != 'HoughTransform':
            if n.op in ('const', 'bin', 'un', 'sub') or n.op == 'fn' and \
                    n.info in ('round', 'int', 'abs', 'floor', 'sort',
                               'unique', 'astype', 'nan_to_num', 'T'):
                R.bad('restored', what, '%r is written as %s' % (
                    key, show(n, 3)), at=ld.name)
            else:
                R.unk('restored', what, '%r is written as %s' % (
                    key, show(n, 3)))
            continue
        if n.info != a:
            R.bad('restored', what, 'reads %r, which holds %s' % (
                key, n.info), at=ld.name)
            continue
        if wc.count('[]') != depth:
            R.bad('restored', what, 'is written %d deep and read %d deep'
                  % (wc.count('[]'), depth), at=ld.name)
            continue
        if a in arr and fmt == 'json' and not (
                {'array', 'asarray'} & set(conv)):
            R.bad('restored', what, 'is not an array again', at=ld.name)
            continue
        if a in arr and any(x in ('list', 'tuple') for x in conv):
            R.bad('restored', what, 'is not an array again', at=ld.name)
            continue
        R.ok('restored', what, 'from %r' % key)
    if a in got:
        return


def derived(an, R, fmt, ld, fields, got):
    """Quantities that are recomputed on loading."""
    r = an.method('HoughTransform', 'bin_hough_points')
    for a in fields:
        if a in got:
            continue
        what = 'HoughTransform.%s loaded from %s' % (a, fmt)
        if a not in r.stored():
            v = ld.final(a)
            bad = [x for x in ('round', 'int') if x in show(v, 6)]
            n = core(v, fmt)
            if n is not None:
                R.bad('restored', what, 'is %s' % show(v, 4)[:200],
                      at=ld.name)
            else:
                R.unk('restored', what, show(v, 3)[:150])
            continue
        m = {}
        for b in fields:
            if got.get(b) and b in r.stored():
                x = r.final(b)
                m[x.vn] = ld.final(b).vn
                y, _ = peel(ld.final(b))
                m[bare(x, {}).vn] = y.vn
            elif got.get(b):
                m[r.init(b).vn] = peel(ld.final(b))[0].vn
        if iso(r.final(a), ld.final(a), m):
            R.ok('restored', what, 'recomputed as when binning')
        else:
            n = core(ld.final(a), fmt)
            old = {ld.init(b).vn: b for b in fields if b in got}
            stale = sorted({old[x.vn] for x in closure(ld.final(a))
                            if x.vn in old})
            if stale:
                R.bad('restored', what, 'is computed from %s before it is '
                      'loaded' % ', '.join(stale), at=ld.name)
            elif n is not None:
                R.bad('restored', what, 'is not what binning gives: %s'
                      % show(ld.final(a), 4)[:200], at=ld.name)
            else:
                R.unk('restored', what, show(ld.final(a), 4)[:200])


def core(n, fmt):
    """The loaded value that n changes by arithmetic, if any."""
    for _ in range(20):
        if slot(n, fmt) is not None:
            return n
        if n.op in ('wrap', 'bin', 'un', 'fn', 'sub', 'mcall') and n.args:
            x = [y for y in n.args if not isconst(y)]
            if len(x) != 1:
                return None
            n = x[0]
        else:
            return None
    return None


def both(an, R):
    """Several formats at once give each of them."""
    one = {f: an.method('HoughTransform', 'save', bind={
        'fileformat': G.const(f), 'delimiter': G.const('+')})
        for f in ('npy', 'json')}
    for text in ('npy+json', 'json+npy'):
        r = an.method('HoughTransform', 'save', bind={
            'fileformat': G.const(text), 'delimiter': G.const('+'),
            'to_disk': G.const(True)})
        for f in ('npy', 'json'):
            w = [e for e in one[f].events if e.kind == 'call'
                 and e.name in WRITE[f]]
            x = [e for e in r.events if e.kind == 'call'
                 and e.name in WRITE[f]]
            if len(w) == 1 and len(x) == 1:
                i = 1 if f == 'npy' else 0
                R.put(same(w[0].b[i], x[0].b[i], x[0].pc), 'all-formats',
                      '%s in %s' % (f, text), '',
                      'differs from saving %s alone' % f, x[0])
                R.put(G.implies(r.end.pc, x[0].pc), 'all-formats',
                      '%s of %s written' % (f, text), '',
                      'not written on every path', x[0])
            elif len(w) == 1 and not x:
                R.bad('all-formats', '%s in %s' % (f, text),
                      'is not written', at=r.name)
            else:
                R.unk('all-formats', '%s in %s' % (f, text),
                      '%d writes' % len(x))
        r = an.method('HoughTransform', 'save', bind={
            'fileformat': G.const(text), 'delimiter': G.const('+'),
            'to_disk': G.const(False)})
        it = items(r.ret) if r.ret is not None else None
        if it is None or sorted(it) != [0, 1]:
            R.unk('all-formats', text + ' in memory', '')
            continue
        for k, f in enumerate(('npy', 'json')):
            x = items(it[k])
            w = [e for e in one[f].events if e.kind == 'call'
                 and e.name in WRITE[f]]
            y = items(w[0].b[1 if f == 'npy' else 0]) if w else None
            if x is None or y is None:
                R.unk('all-formats', '%s in memory' % f, '')
                continue
            R.put(set(x) == set(y) and all(same(peel(x[i])[0], peel(y[i])[0],
                                                r.end.pc) for i in x),
                  'all-formats', '%s of %s in memory' % (f, text), '',
                  'differs from the file')


def calibrator(an, R):
    """The calibrator uses what its transform holds after loading."""
    for name in ('load_hough_transform', 'do_hough_transform'):
        r = an.method('Calibrator', name)
        if r.end is None:
            R.unk('calibrator', name, 'never returns')
            continue
        ht = r.final('ht')
        for a in ('hough_points', 'hough_lines'):
            v, w = r.final(a), r.it.get(r.end, ('o', ht.vn, a))
            if v is not None and w is not None and same(v, w, r.end.pc):
                R.ok('calibrator', '%s after %s' % (a, name), '')
            elif w is not None and w.vn != r.it.initial(
                    ('o', ht.vn, a)).vn:
                R.bad('calibrator', '%s after %s' % (a, name),
                      'is %s, not that of the transform' % show(v, 3)[:150],
                      at=r.name)
            else:
                R.unk('calibrator', '%s after %s' % (a, name), '')
    for fmt in ('npy', 'json'):
        pair = []
        for c, n, kw in (('Calibrator', 'load_hough_transform', None),
                         ('HoughTransform', 'load', None)):
            r = an.method(c, n, bind={'filetype': G.const(fmt)})
            pair.append([e for e in r.events if e.kind == 'call' and
                         e.name in READ[fmt] + ('open',)])
        if [e.name for e in pair[0]] == [e.name for e in pair[1]]:
            R.ok('calibrator', 'load %s' % fmt, '')
        else:
            R.unk('calibrator', 'load %s' % fmt, '')


RULES = [roundtrip, calibrator]
