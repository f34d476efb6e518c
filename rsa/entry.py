"""Symbolic runs of the public entry points."""
import os
import re

from .core import G, TRUE, FALSE, strip
from .front import Program, Missing
from .interp import Interp, Frame, St

ARR = re.compile(r'list|array|numpy|ndarray|tuple', re.I)


class Run:
    """One symbolic execution of a function."""

    def __init__(self, an, fn, pre=None, bind=None, obj=None, st=None,
                 interp=None, vary=None):
        self.an, self.fn = an, fn
        an.allruns.append(self)
        self.name = fn.full
        prog = an.prog
        it = self.it = interp or Interp(prog)
        it.nonnull = an.nonnull
        doc = fn.doc_types()
        it.arrays = {p: bool(ARR.search(t)) for p, t in doc.items()}
        it.arrays.update(an.arrays.get(fn.full, {}))
        self.params = {}
        self.self = None
        args = {}
        dflt = fn.defaults()
        for i, p in enumerate(fn.params + [x for x in (fn.vararg, fn.kwarg)
                                           if x]):
            if i == 0 and fn.cls is not None and not fn.static:
                if obj is not None:
                    n = obj
                elif fn.name == '__init__':
                    n = G.uniq('obj', (), fn.cls.name, cls=fn.cls.name)
                else:
                    n = an.selfof(fn.cls.name)
                self.self = n
            else:
                cls = an.param_cls(fn, p, doc.get(p, ''))
                n = G.raw('param', (), p, vn=G.intern(
                    ('param', fn.full, p)), cls=cls)
                if p == fn.vararg or p == fn.kwarg:
                    G.notnone.add(n.vn)
                elif p not in dflt or not an.isnone_expr(dflt[p]):
                    G.notnone.add(n.vn)
                self.params[p] = n
            if bind and p in bind:
                n = bind[p]
            args[p] = n
        self.args = args
        if self.self is not None and self.self.op == 'obj' and st is None:
            st = St({('o', self.self.vn, '__born__'): G.const(True)}, TRUE)
        G.site = (fn.node.lineno, fn.full)
        it.stack = [fn.full]
        it.visited.add(fn.full)
        st = st.copy() if st is not None else St({}, TRUE)
        fr = self.frame = Frame(fn, fn.mod)
        for p, v in args.items():
            st.s[('v', fr.id, p)] = v
        if pre is not None:
            st.pc = G.b.AND(st.pc, pre(self))
        self.pre_pc = st.pc
        end = it.block(fn.node.body, st, fr)
        rets = list(fr.returns)
        if end is not None:
            rets.append((end, G.const(None)))
        self.exits = [(s, v) for s, v in rets if s.pc != FALSE]
        self.events = it.events
        it.stack = []
        self.end = it.merge([s for s, _ in self.exits])
        self.ret = None
        if self.exits:
            r = self.exits[-1][1]
            for s, v in reversed(self.exits[:-1]):
                r = G.phi(G.b.restrict(s.pc, self.end.pc), v, r)
            self.ret = r

    def p(self, name):
        if name not in self.params:
            raise Missing('parameter %s of %s' % (name, self.name))
        return self.params[name]

    def final(self, attr, obj=None):
        """Final value of an attribute of self."""
        o = obj or self.self
        if self.end is None:
            return None
        return self.it.get(self.end, ('o', o.vn, attr))

    def init(self, attr, obj=None):
        o = obj or self.self
        return self.it.initial(('o', o.vn, attr))

    def stored(self, obj=None):
        o = obj or self.self
        if self.end is None:
            return []
        return sorted({k[2] for k in self.end.s
                       if k[0] == 'o' and k[1] == o.vn and
                       k[2] != '__born__'})

    def evs(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


API = set()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'api.txt')) as _f:
    API.update(x.strip() for x in _f if x.strip() and x[0] != '#')


class Analysis:
    def __init__(self, repo=None, nonnull=None, prog=None):
        G.reset()
        self.prog = prog or Program(repo)
        self.nonnull = nonnull or frozenset()
        self.arrays = {}
        self.selfs = {}
        self.runs = {}
        self.allruns = []
        self.inits = {}
        self._entries = None
        for m in self.prog.mods.values():
            for c in m.classes.values():
                self._init(c)

    def _init(self, c):
        try:
            f = self.prog.method(c.name, '__init__')
        except Missing:
            self.prog.init_attrs[c.name] = set(c.consts)
            return
        r = Run(self, f)
        self.runs[f.full] = r
        self.prog.init_attrs[c.name] = set(r.stored()) | set(c.consts)
        self.inits[c.name] = r

    def selfof(self, cls):
        n = self.selfs.get(cls)
        if n is None:
            n = self.selfs[cls] = G.raw('param', (), 'self', vn=G.intern(
                ('param', 'self', cls)), cls=cls)
            G.notnone.add(n.vn)
        return n

    def param_cls(self, fn, p, doc):
        for m in self.prog.mods.values():
            for c in m.classes:
                if p.lower() == c.lower() or re.search(
                        r'\b%s\b' % c, doc) and not ARR.search(doc):
                    return c
        ann = None
        for a in fn.args.args + fn.args.kwonlyargs:
            if a.arg == p and a.annotation is not None:
                ann = a.annotation
        if ann is not None:
            import ast
            t = ast.unparse(ann)
            for m in self.prog.mods.values():
                for c in m.classes:
                    if re.search(r'\b%s\b' % c, t):
                        return c
        return {'ht': 'HoughTransform'}.get(p)

    def isnone_expr(self, e):
        import ast
        return isinstance(e, ast.Constant) and e.value is None

    def run(self, fn, **kw):
        if not kw and fn.full in self.runs:
            return self.runs[fn.full]
        r = Run(self, fn, **kw)
        if not kw:
            self.runs[fn.full] = r
        return r

    def method(self, cls, name, **kw):
        return self.run(self.prog.method(cls, name), **kw)

    def func(self, mod, name, **kw):
        return self.run(self.prog.func(mod, name), **kw)

    def functions(self):
        """All functions and methods of the package."""
        out = []
        for m in self.prog.mods.values():
            for f in m.funcs.values():
                out.append(f)
            for c in m.classes.values():
                out.extend(c.methods.values())
        return out

    def entries(self):
        """Entry points: the public API, and every function that no run of
        the API reaches.  A helper that is reached is analysed where it is
        called, with the arguments it is given there."""
        if self._entries is None:
            fs = self.functions()
            api = [f for f in fs if f.full in API or f.name == '__init__']
            seen = set()
            for f in api:
                try:
                    r = self.inits[f.cls.name] if f.name == '__init__' and \
                        f.cls is not None and f.cls.name in self.inits \
                        else self.run(f)
                except Missing:
                    continue
                seen |= r.it.visited
            self._entries = [f for f in fs if f in api or
                             f.full not in seen]
        return self._entries


def with_invariants(repo=None):
    """Analysis that knows which fields are never None after construction.

    A field is never None when neither the constructor nor any other method
    can leave it None; the set is the greatest fixed point.
    """
    an = Analysis(repo)
    cand = set()
    for c, r in an.inits.items():
        for a in r.stored():
            cand.add((c, a))
    while True:
        bad = set()
        for f in an.entries():
            if f.name == '__init__' and f.cls is not None and \
                    f.cls.name in an.inits:
                r = an.inits[f.cls.name]
                for a in r.stored():
                    c = G.b.AND(r.end.pc, mayno(r.final(a)))
                    if G.sat(c):
                        bad.add((f.cls.name, a))
            else:
                try:
                    r = an.run(f)
                except Missing:
                    continue
            for e in r.events:
                if e.kind == 'store' and e.a.cls and e.a.op != 'obj' and \
                        (e.a.cls, e.name) in cand:
                    if G.sat(G.b.AND(e.pc, mayno(e.b))):
                        bad.add((e.a.cls, e.name))
        new = cand - bad
        if new == an.nonnull:
            return an
        cand = new
        an = Analysis(repo, frozenset(new), an.prog)


def mayno(n):
    """When may the value be None?"""
    if n.op == 'phi':
        return G.b.ite(n.info, mayno(n.args[0]), mayno(n.args[1]))
    if n.op == 'unbound':
        return TRUE
    if n.op == 'mu':
        from .core import isconst
        a, b = n.args[0], n.next
        r = mayno(a) if a.op != 'mu' else FALSE
        if b is not None and b is not n and b.op in ('const',):
            r = G.b.OR(r, mayno(b))
        return r
    return G.isnone(n)
