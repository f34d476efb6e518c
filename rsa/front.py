"""Parsed program: modules, classes, functions, imports, field classes."""
import ast
import hashlib
import os
import re

REPO = os.environ.get('RSA_REPO', '/repo')
PKG = 'rascal'


class Missing(Exception):
    """A public anchor that the properties name is gone."""


class Func:
    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = (cls.name + '.' if cls else '') + self.name
        self.full = mod.short + '.' + self.qual
        a = node.args
        self.args = a
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.decos = [ast.unparse(d) for d in
                      getattr(node, 'decorator_list', [])]
        self.static = 'staticmethod' in self.decos
        self.prop = 'property' in self.decos
        self.clsmeth = 'classmethod' in self.decos
        self._locals = None
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                         for n in walk_scope(node))

    def __repr__(self):
        return self.full

    @property
    def params(self):
        return self.pos + self.kwonly

    def defaults(self):
        """param -> default expression."""
        d = {}
        p = self.args.posonlyargs + self.args.args
        for x, e in zip(p[len(p) - len(self.args.defaults):],
                        self.args.defaults):
            d[x.arg] = e
        for x, e in zip(self.args.kwonlyargs, self.args.kw_defaults):
            if e is not None:
                d[x.arg] = e
        return d

    def locals(self):
        if self._locals is None:
            L = set(self.params)
            if self.vararg:
                L.add(self.vararg)
            if self.kwarg:
                L.add(self.kwarg)
            out = set()
            for n in walk_scope(self.node):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    L.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        L.add(al.asname or al.name.split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    L.add(n.name)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    L.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    out |= set(n.names)
            self.globals = out
            self._locals = L - out
        return self._locals

    def doc_types(self):
        """param -> type text of the numpydoc section."""
        doc = ast.get_docstring(self.node) if hasattr(self.node, 'body') \
            and not isinstance(self.node, ast.Lambda) else None
        out = {}
        for m in re.finditer(r'^(\w+)\s*:\s*(.*)$', doc or '', re.M):
            if m.group(1) in self.params:
                out[m.group(1)] = m.group(2)
        return out


def walk_scope(fn):
    """Nodes of a function body, not descending into nested scopes."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            # comprehension variables live in their own scope
            for g in n.generators:
                todo.append(g.iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    todo.append(x.target)
            continue
        todo.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.consts = {}
        self.bases = [ast.unparse(b) for b in node.bases]
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Func(mod, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.consts[s.target.id] = s.value


class Mod:
    def __init__(self, prog, short, path):
        self.prog, self.short, self.path = prog, short, path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.digest = hashlib.sha256(self.src.encode()).hexdigest()
        self.funcs, self.classes, self.imports = {}, {}, {}
        self.consts = {}
        self.ginit = {}        # names imported under `global` by a function
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func(self, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for name, tgt in import_targets(s, self.prog):
                    self.imports[name] = tgt
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(
                            s.value, ast.Tuple):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.consts[a.id] = b
            elif isinstance(s, ast.AnnAssign) and s.value is not None \
                    and isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, 'handlers', []):
                    pass
                self._scan(s.orelse)


def import_targets(s, prog):
    if isinstance(s, ast.Import):
        for al in s.names:
            if al.asname:
                yield al.asname, ('ext', al.name)
            else:
                yield al.name.split('.')[0], ('ext', al.name.split('.')[0])
    else:
        base = s.module or ''
        if s.level:
            m = base
            for al in s.names:
                if m == '':
                    yield al.asname or al.name, ('mod', al.name)
                else:
                    yield al.asname or al.name, ('name', m, al.name)
        elif base == PKG or base.startswith(PKG + '.'):
            m = base[len(PKG) + 1:]
            for al in s.names:
                if m == '':
                    yield al.asname or al.name, ('mod', al.name)
                else:
                    yield al.asname or al.name, ('name', m, al.name)
        else:
            for al in s.names:
                yield al.asname or al.name, ('ext', base + '.' + al.name)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, 'src', PKG)
        self.mods = {}
        if not os.path.isdir(self.root):
            raise Missing('package directory ' + self.root)
        for dirpath, dirs, files in sorted(os.walk(self.root)):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(dirpath, f),
                                          self.root)[:-3]
                    short = rel.replace(os.sep, '.')
                    self.mods[short] = Mod(self, short,
                                           os.path.join(dirpath, f))
        self.field_cls = {}
        self.init_attrs = {}
        for m in self.mods.values():
            for c in m.classes.values():
                self._fields(c)

    def _fields(self, c):
        for f in c.methods.values():
            if not f.pos:
                continue
            me = f.pos[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(
                                t.value, ast.Name) and t.value.id == me:
                            k = self.class_of_expr(c.mod, n.value)
                            if k:
                                self.field_cls[(c.name, t.attr)] = k
                            elif isinstance(n.value, ast.Name):
                                # a local holding a new object
                                for q in ast.walk(f.node):
                                    if isinstance(q, ast.Assign) and any(
                                            isinstance(x, ast.Name)
                                            and x.id == n.value.id
                                            for x in q.targets):
                                        k = self.class_of_expr(c.mod,
                                                               q.value)
                                        if k:
                                            self.field_cls[
                                                (c.name, t.attr)] = k

    def class_of_expr(self, mod, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            k = self.resolve(mod, e.func.id)
            if isinstance(k, Cls):
                return k.name
        return None

    def resolve(self, mod, name):
        """Func, Cls, Mod, ('ext', dotted), ('const', expr, mod) or None."""
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.imports:
            t = mod.imports[name]
            if t[0] == 'ext':
                return t
            if t[0] == 'mod':
                if t[1] in self.mods:
                    return self.mods[t[1]]
                m = self.mods.get('__init__')
                return self.resolve(m, t[1]) if m and m is not mod else None
            if t[1] in self.mods:
                return self.resolve(self.mods[t[1]], t[2])
            return None
        if name in mod.consts:
            return ('const', mod.consts[name], mod)
        return None

    def cls(self, name):
        for m in self.mods.values():
            if name in m.classes:
                return m.classes[name]
        raise Missing('class ' + name)

    def method(self, cls, name):
        c = self.cls(cls)
        if name not in c.methods:
            for b in c.bases:
                try:
                    return self.method(b, name)
                except Missing:
                    pass
            raise Missing('method %s.%s' % (cls, name))
        return c.methods[name]

    def func(self, mod, name):
        if mod not in self.mods:
            raise Missing('module ' + mod)
        r = self.resolve(self.mods[mod], name)
        if not isinstance(r, Func):
            raise Missing('function %s.%s' % (mod, name))
        return r
