"""C28: every shipped call fits the interface it calls."""
import ast
import glob
import os

from ..core import G, FALSE, show
from ..entry import Run
from ..front import Func, Mod, PKG, Cls
from ..q import runs


def report(R, f, r, path=None):
    n = 0
    for e in r.events:
        if e.kind == 'icall':
            n += 1
            fn, bad = e.name.full, 0
        elif e.kind == 'badcall':
            R.bad('call-fits', '%s called by %s' % (e.name, where(e, path)),
                  e.b, None if path else e,
                  at='%s:%s' % (path, e.line) if path else None)
        elif e.kind == 'unpack':
            R.bad('unpack-fits', where(e, path),
                  'unpacks %s values, %s are returned: %s' % (
                      e.b, e.c, show(e.a, 2)[:80]), None if path else e,
                  at='%s:%s' % (path, e.line) if path else None)
    return n


def where(e, path):
    if path is None:
        return e.fn
    return path if e.fn.startswith('examples') else e.fn


def library(an, R):
    """Calls between the functions of the package."""
    for f, r in runs(an):
        before = len([o for o in R.obs if o['status'] == 'violated'])
        n = report(R, f, r)
        if len([o for o in R.obs if o['status'] == 'violated']) == before:
            R.ok('call-fits', f.full, '%d calls bound' % n)


def scripts(an):
    d = os.path.join(an.prog.repo, 'examples')
    for p in sorted(glob.glob(os.path.join(d, '**', '*.py'),
                              recursive=True)):
        m = Mod(an.prog, 'examples.' + os.path.basename(p)[:-3], p)
        fn = ast.parse('def script():\n pass').body[0]
        fn.body = list(m.tree.body)
        ast.fix_missing_locations(fn)
        yield os.path.relpath(p, an.prog.repo), Func(m, fn), m


def examples(an, R):
    """Calls of the shipped example scripts."""
    for path, f, m in scripts(an):
        before = len([o for o in R.obs if o['status'] == 'violated'])
        used(an, R, path, m.tree)
        r = Run(an, f)
        an.allruns.pop()
        n = 0
        for e in r.events:
            if len(e.stack) <= 1 or e.fn == f.full:
                if e.kind == 'icall':
                    n += 1
                if e.kind == 'noattr':
                    R.bad('call-fits', '%s of %s used by %s' % (
                        e.name, e.a.cls, path), 'does not exist',
                        at='%s:%s' % (path, e.line))
                if e.kind in ('unbound', 'maybe-unbound'):
                    R.bad('call-fits', '%s used by %s' % (e.name, path),
                          'is not defined', at='%s:%s' % (path, e.line))
        report(R, f, r, path)
        if len([o for o in R.obs if o['status'] == 'violated']) == before:
            if n:
                R.ok('example-fits', path, '%d calls bound' % n)
            else:
                R.unk('example-fits', path, 'no library call seen')


def used(an, R, path, tree):
    """Names imported from the package exist there."""
    for s in ast.walk(tree):
        if isinstance(s, ast.ImportFrom) and (s.module or '').split(
                '.')[0] == PKG:
            base = s.module[len(PKG) + 1:]
            for al in s.names:
                if not exists(an, base, al.name):
                    R.bad('import-fits', '%s.%s' % (s.module, al.name),
                          'imported by %s, but is not there' % path,
                          at='%s:%s' % (path, s.lineno))
        elif isinstance(s, ast.Import):
            for al in s.names:
                if al.name.startswith(PKG + '.') and \
                        al.name[len(PKG) + 1:] not in an.prog.mods:
                    R.bad('import-fits', al.name,
                          'imported by %s, but is not there' % path,
                          at='%s:%s' % (path, s.lineno))


def exists(an, base, name):
    if name == '*':
        return not base or base in an.prog.mods
    if not base and name in an.prog.mods:
        return True
    m = an.prog.mods.get(base or '__init__')
    if m is None:
        return False
    if an.prog.resolve(m, name) is not None:
        return True
    return any(isinstance(s, ast.Name) and s.id == name and isinstance(
        s.ctx, ast.Store) for s in ast.walk(m.tree))


def exports(an, R):
    """Names imported or exported by the modules of the package exist."""
    for m in an.prog.mods.values():
        bad = n = 0
        pkg = m.short.rsplit('.', 1)[0] if '.' in m.short else ''
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level > 1:
                    continue
                if s.level == 1:
                    base = '.'.join(x for x in (pkg, base) if x)
                elif base.split('.')[0] == PKG:
                    base = base[len(PKG) + 1:]
                else:
                    continue
                for al in s.names:
                    n += 1
                    if not exists(an, base, al.name):
                        bad += 1
                        R.bad('import-fits', '%s.%s' % (base, al.name),
                              'imported by %s, but is not there' % m.short,
                              at='%s:%s' % (R.path(m.short), s.lineno))
            elif isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == '__all__'
                    for t in s.targets) and isinstance(
                        s.value, (ast.List, ast.Tuple)):
                for x in s.value.elts:
                    n += 1
                    if isinstance(x, ast.Constant) and not exists(
                            an, '' if m.short == '__init__' else m.short,
                            x.value):
                        bad += 1
                        R.bad('import-fits', '__all__ of ' + m.short,
                              '%r is not there' % x.value,
                              at='%s:%s' % (R.path(m.short), s.lineno))
        if not bad:
            R.ok('import-fits', m.short, '%d names' % n)


RULES = [library, examples, exports]
