"""C03: files and windows appear only on request, under the right name.

Every call that writes a file or opens a window is an event of the
interpretation of each entry point.  Its path condition must imply the
matching request flag; with the requested types bound to constants the set
of names that are written must be exactly the requested one.
"""
from ..core import G, TRUE, FALSE, show, strip
from ..front import Missing
from ..q import public, closure

DEFAULTS = {'plot_calibration_lines': 'rascal_arc', 'plot_arc': 'rascal_arc',
            'plot_search_space': 'rascal_hough_search_space',
            'plot_fit': 'rascal_solution'}
IMAGES = ('jpg', 'png', 'svg', 'pdf')
SPECS = ['jpg', 'png', 'svg', 'pdf', 'iframe', 'png+svg', 'svg+png',
         'pdf+iframe', 'iframe+jpg+pdf', 'foo', 'foo+png', 'png+foo+pdf',
         'jpg+png+svg+pdf+iframe']
HSPECS = [('npy', '+'), ('json', '+'), ('npy+json', '+'), ('json+npy', '+'),
          ('npy,json', ',')]

# name -> position and keyword of the destination, after the receiver
WRITE = {'savefig': (0, 'fname'), 'imsave': (0, 'fname'),
         'numpy.save': (0, 'file'), 'numpy.savez': (0, 'file'),
         'numpy.savez_compressed': (0, 'file'), 'numpy.savetxt': (0, 'fname'),
         'plotly.io.write_html': (1, 'file'),
         'plotly.io.write_image': (1, 'file'),
         'plotly.io.write_json': (1, 'file'),
         'plotly.offline.plot': (None, 'filename'),
         'write_html': (0, 'file'), 'write_image': (0, 'file'),
         'write_json': (0, 'file'), 'to_csv': (0, 'path_or_buf'),
         'to_pickle': (0, 'path'), 'to_json': None,
         'tofile': (0, 'fid'), 'write_text': None, 'write_bytes': None,
         'os.makedirs': (0, 'name'), 'os.mkdir': (0, 'path'),
         'os.remove': (0, 'path'), 'os.unlink': (0, 'path'),
         'os.rename': (1, 'dst'), 'os.replace': (1, 'dst'),
         'shutil.copy': (1, 'dst'), 'shutil.copyfile': (1, 'dst'),
         'shutil.move': (1, 'dst'), 'shutil.rmtree': (0, 'path')}
SHOW = ('matplotlib.pyplot.show', 'plotly.io.show', 'webbrowser.open',
        'matplotlib.pyplot.pause', 'plotly.offline.plot',
        'plotly.offline.iplot')


def arg(e, i, name, default=None):
    for k, v in e.c or ():
        if k == name:
            return v
    if i is not None and i < len(e.b):
        return e.b[i]
    return default


def effects(r):
    """(kind, event, destination, format) of a run; kind 'write'/'show'."""
    for e in r.events:
        if e.kind not in ('call', 'mcall') or not isinstance(e.name, str):
            continue
        if not G.sat(e.pc):
            continue
        n = e.name
        last = n.split('.')[-1]
        if e.kind == 'mcall':
            if last == 'show':
                yield 'show', e, None, None
                continue
            if last == 'open' or last in ('write_text', 'write_bytes',
                                          'mkdir', 'touch', 'unlink'):
                m = arg(e, 0, 'mode')
                if last == 'open' and not writes(m):
                    continue
                yield 'write', e, None, None
                continue
            if last in ('savefig', 'write_html', 'write_image', 'write_json',
                        'to_csv', 'to_pickle', 'tofile'):
                i, k = WRITE[last]
                yield 'write', e, arg(e, i, k), arg(e, None, 'format')
                if last == 'write_html' and truthy(arg(e, None,
                                                       'auto_open')):
                    yield 'show', e, None, None
            continue
        if n in SHOW or (last == 'show' and n.split('.')[0] in (
                'matplotlib', 'plotly', 'pyplot')):
            yield 'show', e, None, None
            if n != 'plotly.offline.plot':
                continue
        if n in ('open', 'io.open', 'codecs.open', 'gzip.open'):
            if writes(arg(e, 1, 'mode')):
                yield 'write', e, arg(e, 0, 'file'), None
            continue
        w = WRITE.get(n)
        if w is None and n.split('.')[0] in ('matplotlib', 'plotly') and \
                last in ('savefig', 'imsave', 'write_html', 'write_image',
                         'write_json'):
            w = WRITE[last]
        if w is not None:
            yield 'write', e, arg(e, *w), arg(e, None, 'format')
            if last == 'write_html' and truthy(arg(e, None, 'auto_open')):
                yield 'show', e, None, None


def writes(m):
    if m is None:
        return False
    m = strip(m)
    if m.op == 'const':
        return any(c in str(m.info) for c in 'wax+')
    return True


def truthy(n):
    return n is not None and G.sat(G.truth(n))


def pieces(n):
    """Text pieces of a name: merged constants and nodes."""
    out = []

    def put(x):
        if x.op == 'const':
            s = str(x.info)
            if out and isinstance(out[-1], str):
                out[-1] += s
            elif s:
                out.append(s)
        else:
            out.append(x)

    def go(x):
        if x.op in ('concat', 'fstr') or (x.op == 'bin' and x.info == '+'):
            for a in x.args:
                go(a)
        elif x.op == 'fn' and x.info == 'format' and len(x.args) == 1:
            go(x.args[0])
        elif x.op == 'fn' and x.info == 'str':
            go(x.args[0])
        elif x.op == 'fn' and x.info == 'format' and \
                x.args[0].op == 'const' and \
                isinstance(x.args[0].info, str) and \
                '%' in x.args[0].info:
            t = x.args[0].info
            vals = list(x.args[1:])
            if len(vals) == 1 and vals[0].op == 'tuple':
                vals = list(vals[0].args)
            bits = t.split('%s')
            if len(bits) == len(vals) + 1 and not any('%' in b
                                                      for b in bits):
                for i, b in enumerate(bits):
                    put(G.const(b))
                    if i < len(vals):
                        go(vals[i])
            else:
                put(x)
        elif x.op == 'fn' and x.info == 'join' and len(x.args) == 2 and \
                x.args[1].op in ('list', 'tuple') and not x.args[1].kw:
            for i, a in enumerate(x.args[1].args):
                if i:
                    go(x.args[0])
                go(a)
        else:
            put(x)

    go(n)
    return tuple(p if isinstance(p, str) else p.vn for p in out), out


def names(dest, pc):
    """(condition, key, nodes) of the names a destination can have."""
    dest = G.simp(dest, pc)
    out, todo = [], [(pc, dest)]
    # distribute over the choices inside the name
    while todo:
        c, n = todo.pop()
        inner = None
        for x in closure(n, gates=False):
            if x.op == 'phi':
                inner = x
                break
        if inner is None or len(out) + len(todo) > 64:
            out.append((c,) + pieces(n))
            continue
        for d in (G.b.AND(c, inner.info), G.b.AND(c, G.b.NOT(inner.info))):
            if G.sat(d):
                m = G.simp(n, d)
                if m.vn == n.vn:
                    out.append((d,) + pieces(n))
                else:
                    todo.append((d, m))
    return out


ALTER = {'split', 'rsplit', 'replace', 'strip', 'rstrip', 'lstrip', 'lower',
         'upper', 'partition', 'rpartition', 'title', 'removesuffix',
         'os.path.splitext', 'os.path.basename', 'os.path.dirname'}


def altered(p, fname):
    """A string operation that changes the requested name."""
    xs = closure(p, gates=False)
    return any(x.op in ('mcall', 'call', 'fn') and x.info in ALTER and
               x.args and any(a.vn == fname.vn for a in x.args) for x in xs)


def attrs(r, name):
    """Truth atoms of <calibrator>.name in the run."""
    o = None
    for x in list(r.params.values()) + [r.self]:
        if x is not None and x.cls == 'Calibrator':
            o = x
    if o is None:
        return None
    return G.truth(r.it.initial(('o', o.vn, name)))


def done(r):
    c = FALSE
    for st, _ in r.exits:
        c = G.b.OR(c, st.pc)
    return c


def requests(an, R):
    """Effects only under their flag; nothing anywhere else."""
    n = 0
    for f in public(an):
        try:
            r = an.inits[f.cls.name] if f.name == '__init__' and \
                f.cls is not None and f.cls.name in an.inits else an.run(f)
        except Missing:
            continue
        flags = {'write': [p for p in ('save_fig', 'to_disk')
                           if p in r.params], 'show':
                 [p for p in ('display',) if p in r.params]}
        bad = False
        for kind, e, _, _ in effects(r):
            n += 1
            what = 'writes a file' if kind == 'write' else 'opens a window'
            if not flags[kind]:
                bad = True
                R.bad('unrequested', '%s by %s' % (kind, f.full),
                      '%s %s (%s) though nothing can ask for it'
                      % (f.full, what, e.name), e)
                continue
            ask = G.truth(r.params[flags[kind][0]])
            if G.sat(G.b.AND(e.pc, G.b.NOT(ask))):
                bad = True
                R.bad('unrequested', '%s by %s' % (kind, f.full),
                      '%s %s (%s) without %s: %s' % (
                          f.full, what, e.name, flags[kind][0],
                          G.bshow(G.b.AND(e.pc, G.b.NOT(ask)), 2)), e)
        if not bad:
            R.ok('only-on-request', f.full,
                 '%d functions reached' % len(r.it.visited))
    if not n:
        R.bad('anchor', 'effects', 'no file is ever written')


def named(R, r, f, spec, types, lib, want, ask, fname, tag):
    """Writes of one configuration: exactly the wanted names."""
    dflt = DEFAULTS.get(f.name)
    isnone = G.isnone(fname)
    got = {}
    for kind, e, dest, fmt in effects(r):
        if kind != 'write':
            continue
        pc = G.b.AND(e.pc, lib)
        if not G.sat(pc):
            continue
        if dest is None:
            R.unk('file-name', tag, 'destination of %s not understood'
                  % e.name)
            return
        for none in (True, False):
            if none and dflt is None:
                continue
            c = G.b.AND(pc, isnone if none else
                        G.b.AND(G.truth(fname), G.b.NOT(isnone)))
            if not G.sat(c):
                continue
            for d, key, nodes in names(dest, c):
                hit = None
                for t in want:
                    k = (dflt + '.' + t,) if none else (fname.vn, '.' + t)
                    if key == k:
                        hit = t
                text = ''.join(p if isinstance(p, str) else '<%s>'
                               % show(p, 2) for p in nodes)
                if hit is None:
                    if all(isinstance(p, str) or p.vn == fname.vn or
                           altered(p, fname) for p in nodes):
                        R.bad('file-name', tag, 'with type %r and %s file '
                              'name, %s writes %r; expected %s' % (
                                  spec, 'no' if none else 'a', f.full, text,
                                  ', '.join('%s.%s' % (dflt if none else
                                                       '<filename>', t)
                                            for t in want) or 'nothing'), e)
                    else:
                        R.unk('file-name', tag, 'name %s not understood'
                              % text)
                        return
                    continue
                if fmt is not None:
                    w = G.simp(fmt, d)
                    if w.op == 'const' and w.info not in (hit, None) and \
                            {w.info, hit} != {'jpg', 'jpeg'}:
                        R.bad('file-format', tag, 'the file named .%s is '
                              'written in format %r' % (hit, w.info), e)
                got[hit, none] = G.b.OR(got.get((hit, none), FALSE), d)
    fin = G.b.AND(done(r), G.b.AND(lib, ask))
    if want and not G.sat(fin):
        R.bad('not-written', tag, 'with type %r the request always fails'
              % spec, at='%s:%d' % (R.path(f.full), f.node.lineno))
        return
    for t in want:
        for none in (True, False):
            if none and dflt is None:
                continue
            c = G.b.AND(fin, isnone if none else
                        G.b.AND(G.truth(fname), G.b.NOT(isnone)))
            miss = G.b.AND(c, G.b.NOT(got.get((t, none), FALSE)))
            if G.sat(miss):
                R.bad('not-written', tag, 'with type %r the requested '
                      '%s file is not written by %s when %s' % (
                          spec, t, f.full, G.bshow(miss, 2)))
                return
    R.ok('names', tag, 'type %r: %s' % (spec, ', '.join(want) or 'nothing'))


def figures(an, R):
    n = 0
    for f in public(an):
        if 'save_fig' not in f.params:
            continue
        n += 1
        for spec in SPECS:
            r = an.run(f, bind={'fig_type': G.const(spec)})
            types = spec.split('+')
            mpl, ply = attrs(r, 'plot_with_matplotlib'), \
                attrs(r, 'plot_with_plotly')
            if mpl is None:
                libs = [('matplotlib', TRUE, IMAGES)]
            else:
                libs = [('matplotlib', G.b.AND(mpl, G.b.NOT(ply)), IMAGES),
                        ('plotly', G.b.AND(ply, G.b.NOT(mpl)),
                         IMAGES + ('iframe',))]
            for lib, cond, ok in libs:
                want = [t for t in types if t in ok]
                named(R, r, f, spec, types, cond, want,
                      G.truth(r.p('save_fig')), r.p('filename'),
                      '%s with %s' % (f.full, lib))
    if not n:
        R.bad('anchor', 'plot functions', 'no function can save a figure')


def windows(an, R):
    """A requested window is shown, saved or not."""
    for f in public(an):
        if 'display' not in f.params:
            continue
        r = an.run(f)
        mpl, ply = attrs(r, 'plot_with_matplotlib'), \
            attrs(r, 'plot_with_plotly')
        libs = [('matplotlib', TRUE)] if mpl is None else \
            [('matplotlib', G.b.AND(mpl, G.b.NOT(ply))),
             ('plotly', G.b.AND(ply, G.b.NOT(mpl)))]
        for lib, cond in libs:
            shown = FALSE
            for kind, e, _, _ in effects(r):
                if kind == 'show' and (e.name.startswith('plotly') or
                                       e.kind == 'mcall' or
                                       lib == 'matplotlib'):
                    shown = G.b.OR(shown, e.pc)
            c = G.b.AND(done(r), G.b.AND(cond, G.truth(r.p('display'))))
            miss = G.b.AND(c, G.b.NOT(shown))
            tag = '%s with %s' % (f.full, lib)
            if G.sat(miss):
                R.bad('not-shown', tag, 'display was requested but nothing '
                      'is shown when %s' % G.bshow(miss, 2),
                      at='%s:%d' % (R.path(f.full), f.node.lineno))
            else:
                R.ok('shown', tag)


def open_types(an, R):
    """For any type list: what is written is an element of that list."""
    for f in public(an):
        if 'save_fig' not in f.params:
            continue
        r = an.run(f)
        ft = r.p('fig_type')
        for kind, e, dest, fmt in effects(r):
            if kind != 'write' or dest is None:
                continue
            tag = '%s %s' % (f.full, e.name)
            for c, key, nodes in names(dest, e.pc):
                if not nodes or isinstance(nodes[-1], str) or \
                        len(nodes) < 2:
                    R.unk('type-is-requested', tag, 'name not understood')
                    continue
                t = nodes[-1]
                if t.op not in ('sub', 'iterel', 'param') or not any(
                        x.vn == ft.vn for x in closure(t, gates=False)):
                    R.unk('type-is-requested', tag, 'type %s' % show(t, 2))
                    continue
                ok = FALSE
                for k in IMAGES + ('iframe',):
                    ok = G.b.OR(ok, G.truth(G.eq(t, G.const(k)))
                                if not isinstance(G.eq(t, G.const(k)), int)
                                else G.eq(t, G.const(k)))
                if G.sat(G.b.AND(c, G.b.NOT(ok))):
                    R.unk('type-is-supported', tag, show(t, 2))
                else:
                    R.ok('type-is-requested', tag, show(t, 2))


def hough(an, R):
    n = 0
    for f in public(an):
        if 'to_disk' not in f.params:
            continue
        n += 1
        for spec, delim in HSPECS:
            r = an.run(f, bind={'fileformat': G.const(spec),
                                'delimiter': G.const(delim)})
            named(R, r, f, spec, spec.split(delim), TRUE, spec.split(delim),
                  G.truth(r.p('to_disk')), r.p('filename'), f.full)
        r = an.run(f, bind={'fileformat': G.const('txt'),
                            'delimiter': G.const('+')})
        w = [e for kind, e, _, _ in effects(r) if kind == 'write']
        if w:
            R.bad('file-format', f.full, 'a file is written for the unknown '
                  "format 'txt'", w[0])
        else:
            R.ok('file-format', f.full)
    if not n:
        R.bad('anchor', 'Hough transform', 'no function saves it')


RULES = [requests, figures, windows, open_types, hough]
