"""Gated abstract interpretation of the package into a value graph.

Every public entry point is interpreted once over symbolic inputs; repository
functions are inlined, branches are merged with gated phi nodes at the join
(no path is enumerated), loops become mu nodes / collect nodes.  Effects are
recorded as events with the condition under which they happen.
"""
import ast
import builtins

from .core import (G, constset, CANON, METH, WRAP, WRAPM, INTFN, TRUE, FALSE, Node,
                   strip, islist, isconst)
from .front import Func, Cls, Mod, import_targets

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'fill', 'resize', 'itemset', 'update', 'setdefault',
            'popitem', 'add', 'discard', 'put', 'partition', 'byteswap',
            'setfield', '__setitem__', '__iadd__'}
EXTMUT = {'numpy.put': 0, 'numpy.copyto': 0, 'numpy.place': 0,
          'numpy.putmask': 0, 'numpy.fill_diagonal': 0,
          'numpy.random.shuffle': 0, 'random.shuffle': 0,
          'heapq.heapify': 0, 'bisect.insort': 0}
LOGM = {'debug', 'info', 'warning', 'error', 'critical', 'warn', 'exception',
        'log'}
MAXDEPTH = 14


class St:
    __slots__ = ('s', 'pc')

    def __init__(self, s, pc):
        self.s, self.pc = s, pc

    def copy(self, pc=None):
        return St(dict(self.s), self.pc if pc is None else pc)


class Frame:
    n = 0

    def __init__(self, fn, mod, parent=None, name=None):
        Frame.n += 1
        self.id = Frame.n
        self.fn, self.mod, self.parent = fn, mod, parent
        self.locals = fn.locals() if fn else set()
        self.globals = getattr(fn, 'globals', set()) if fn else set()
        self.returns = []
        self.keep = False
        self.name = name or (fn.full if fn else '<module>')


class Loop:
    def __init__(self, kind, depth, line, fn):
        self.kind, self.depth, self.line, self.fn = kind, depth, line, fn
        self.breaks, self.conts = [], []
        self.mus = {}
        self.outs = []
        self.space = self.iota = self.test = None
        self.entry_pc = TRUE
        self.body_pc = TRUE
        self.brk = None
        self.end_pc = FALSE
        self.infinite = False

    def __repr__(self):
        return 'loop@%s' % self.line

    def __hash__(self):
        return id(self)


class Ev:
    __slots__ = ('kind', 'pc', 'a', 'name', 'b', 'c', 'line', 'fn', 'loops',
                 'stack', 'seq', 'caught', 'res', 'slots', 'uid')

    def __repr__(self):
        return '%s:%s %s %s(%r,%r,%r) if %s' % (
            self.fn, self.line, self.kind, self.name, self.a, self.b, self.c,
            G.bshow(self.pc, 2))


# functions that cannot take None as either of their first two arguments
BOTH = {'numpy.' + n for n in (
    'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'mod',
    'minimum', 'maximum', 'less', 'less_equal', 'greater', 'greater_equal',
    'isclose', 'allclose', 'dot', 'outer', 'interp', 'digitize',
    'searchsorted', 'histogram2d', 'percentile')} | {
        'pow', 'math.pow', 'bisect.bisect', 'bisect.bisect_left', 'map',
        'filter'}


def scalar(x):
    """A number, as far as is known."""
    x = strip(x)
    return x.op in ('param', 'field', 'bin', 'un', 'phi') or \
        x.op == 'const' and isinstance(x.info, (int, float)) or \
        x.op == 'fn' and x.info in ('len', 'sum', 'int', 'float', 'abs',
                                    'round', 'max', 'min')


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.events = []
        self.loops = []
        self.trys = []
        self.stack = []
        self.initf = {}
        self.unmodelled = []
        self.alltrys = []
        self.arrays = {}
        self.calls = 0
        self.visited = set()
        self.allloops = []
        self.snap = True

    # ------------------------------------------------------------------
    def ev_add(self, kind, st, a=None, name=None, b=None, c=None):
        e = Ev()
        e.kind, e.pc, e.a, e.name, e.b, e.c = kind, st.pc, a, name, b, c
        e.line, e.fn = G.site
        e.loops = tuple(self.loops)
        e.stack = tuple(self.stack)
        e.seq = len(self.events)
        e.uid = G.n
        e.caught, e.res = None, None
        e.slots = None
        self.events.append(e)
        return e

    def note(self, what):
        self.unmodelled.append((G.site, what))

    # ---- state merging -------------------------------------------------
    def get(self, st, k):
        v = st.s.get(k)
        if v is None and k[0] in ('o', 'm'):
            return self.initial(k)
        return v

    def initial(self, k):
        v = self.initf.get(k)
        if v is None:
            if k[0] == 'o':
                obj = G.vn_node[k[1]]
                if obj.op == 'obj':
                    v = self.unbound()
                else:
                    cls = None
                    if obj.cls:
                        cls = self.prog.field_cls.get((obj.cls, k[2]))
                    if obj.cls:
                        v = G.field(obj, k[2], cls=cls)
                    else:
                        v = G.raw('attr', (obj,), k[2])
                    self.on_field(v)
            else:
                v = self.unbound()
            self.initf[k] = v
        return v

    nonnull = frozenset()

    def on_field(self, v):
        o = v.args[0]
        if v.op == 'field' and (o.cls, v.info) in self.nonnull:
            G.notnone.add(v.vn)

    def unbound(self):
        return G.raw('unbound')

    def merge(self, sts):
        sts = [x for x in sts if x is not None and x.pc != FALSE]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        pc = G.b.OR(a.pc, b.pc)
        gate = G.b.restrict(a.pc, pc)
        out = {}
        memo = {}
        for k in a.s.keys() | b.s.keys():
            x, y = a.s.get(k), b.s.get(k)
            if x is y:
                out[k] = x
                continue
            if (x is None or y is None) and k[0] == 'o' and \
                    G.vn_node[k[1]].op == 'obj' and (
                        ('o', k[1], '__born__') not in a.s
                        or ('o', k[1], '__born__') not in b.s):
                out[k] = y if x is None else x    # not created there
                continue
            if x is None:
                x = self.initial(k) if k[0] in 'om' else self.unbound()
            if y is None:
                y = self.initial(k) if k[0] in 'om' else self.unbound()
            if x is y:
                out[k] = x
                continue
            if x.op == 'unbound' and y.op == 'unbound':
                continue
            m = memo.get((id(x), id(y)))
            if m is None:
                m = memo[(id(x), id(y))] = G.phi(gate, x, y)
            out[k] = m
        return St(out, pc)

    def into(self, st, r):
        if r is None:
            st.pc = FALSE
        else:
            st.s, st.pc = r.s, r.pc

    # ---- variables -----------------------------------------------------
    def lookup(self, name, st, fr, node):
        f = fr
        while f is not None:
            if name in f.locals:
                v = st.s.get(('v', f.id, name))
                if v is None:
                    v = self.unbound()
                return self.bound(v, name, st, 'local')
            if name in f.globals:
                break
            f = f.parent
        return self.modname(name, st, fr.mod)

    def bound(self, v, name, st, what):
        if v.op in ('unbound', 'phi', 'mu'):
            c, weak = self.unbcond(v)
            if c != FALSE or weak != FALSE:
                if G.sat(G.b.AND(st.pc, c)):
                    self.ev_add('unbound', st, v, name, G.b.AND(st.pc, c),
                                what)
                elif G.sat(G.b.AND(st.pc, weak)):
                    self.ev_add('maybe-unbound', st, v, name, weak, what)
                v2 = self.strip_unbound(v)
                if v2 is None:
                    return G.uniq('unknown', (), name)
                return v2
        return v

    def unbcond(self, v, d=0):
        if v.op == 'unbound':
            return TRUE, FALSE
        if v.op == 'phi':
            a, wa = self.unbcond(v.args[0], d + 1)
            b, wb = self.unbcond(v.args[1], d + 1)
            return G.b.ite(v.info, a, b), G.b.ite(v.info, wa, wb)
        if v.op == 'mu':
            if v.args[0].op == 'unbound':
                return FALSE, TRUE
            if d < 20:
                a, w = self.unbcond(v.args[0], d + 1)
                return FALSE, G.b.OR(a, w)
        return FALSE, FALSE

    def strip_unbound(self, v):
        if v.op == 'unbound':
            return None
        if v.op == 'phi':
            a = self.strip_unbound(v.args[0])
            b = self.strip_unbound(v.args[1])
            if a is None:
                return b
            if b is None:
                return a
            if a is v.args[0] and b is v.args[1]:
                return v
            return G.phi(v.info, a, b)
        return v

    def modname(self, name, st, mod):
        k = ('m', mod.short, name)
        if k in st.s:
            return self.bound(st.s[k], name, st, 'module')
        r = self.prog.resolve(mod, name)
        if isinstance(r, Func):
            return G.raw('func', (), r)
        if isinstance(r, Cls):
            return G.raw('class', (), r)
        if isinstance(r, Mod):
            return G.raw('module', (), r)
        if r is not None and r[0] == 'ext':
            return G.raw('ext', (), r[1])
        if r is not None:
            n = self.initf.get(('c', r[2].short, name))
            if n is None:
                fr = Frame(None, r[2])
                st2 = St({}, TRUE)
                self.initf[('c', r[2].short, name)] = G.uniq('unknown')
                n = self.ev(r[1], st2, fr)
                self.initf[('c', r[2].short, name)] = n
            return n
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return G.const(getattr(builtins, name))
            return G.raw('ext', (), name)
        if name in ('__file__', '__name__', '__doc__'):
            return G.raw('global', (), name)
        if self.global_set(mod, name):
            self.ev_add('unbound', st, None, name, st.pc, 'module')
            return G.raw('ext', (), self.global_set(mod, name))
        self.ev_add('unbound', st, None, name, st.pc, 'global')
        return G.uniq('unknown', (), name)

    def global_set(self, mod, name):
        """Name bound by a `global` statement of some function."""
        for f in mod.funcs.values():
            f.locals()
            if name in f.globals:
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for nm, t in import_targets(n, self.prog):
                            if nm == name and t[0] == 'ext':
                                return t[1]
                return 'module-global.' + name
        return None

    def assign_name(self, name, v, st, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                st.s[('v', f.id, name)] = v
                return
            if name in f.globals and f.fn is not None:
                st.s[('m', fr.mod.short, name)] = v
                self.ev_add('gstore', st, v, name)
                return
            f = f.parent
        st.s[('v', fr.id, name)] = v

    # ---- mutation ------------------------------------------------------
    def replace(self, st, old, new, depth=0):
        """The object `old` now has the value `new`."""
        memo = {}

        def rw(n, d=0):
            if n is old:
                return new
            r = memo.get(id(n))
            if r is not None:
                return r
            r = n
            if d < 6 and (n.op in ('tuple', 'list', 'dict', 'phi') or (
                    n.op == 'wrap' and not n.extra) or (
                    n.op == 'append') or (
                    n.op == 'update') or (
                    n.op == 'sub' and isview(n))):
                a = [rw(x, d + 1) for x in n.args]
                if any(x is not y for x, y in zip(a, n.args)):
                    if n.op == 'phi':
                        r = G.phi(n.info, *a)
                    elif n.op == 'wrap':
                        r = G.wrap(n.info, a[0], n.extra)
                    else:
                        r = G.raw(n.op, a, n.info, n.kw, cls=n.cls)
                        r.extra = n.extra
            memo[id(n)] = r
            return r
        for k, v in st.s.items():
            w = rw(v)
            if w is not v:
                st.s[k] = w
        for k, v in list(self.initf.items()):
            if k[0] == 'o' and k not in st.s and (v is old):
                st.s[k] = new

    def mutate(self, st, target, new, how, idx=None, val=None):
        """In-place change of the object `target` to the value `new`."""
        self.ev_add('mutate', st, target, how, idx, val)
        self.replace(st, target, new)
        t = target
        if t.op == 'phi':
            for i, x in enumerate(t.args):
                g = t.info if i == 0 else G.b.NOT(t.info)
                if x.op not in ('const', 'unbound'):
                    self.replace(st, x, G.phi(g, new, x))
        elif t.op == 'wrap' and not t.extra:
            self.replace(st, t.args[0], new)
        elif t.op == 'sub' and isview(t):
            base = t.args[0]
            nb = G.raw('update', (base, t.args[1], new))
            self.replace(st, base, nb)

    # ---- attributes ----------------------------------------------------
    def getattr_(self, x, name, st, node=None):
        if x.op == 'phi':
            ls = G.leaves(x, st.pc)
            if ls and (any(self.clsof(l) for _, l in ls) or all(
                    l.op in ('ext', 'module', 'func') for _, l in ls)):
                r = None
                for c, l in reversed(ls):
                    if isconst(l) and l.info is None:
                        self.use(l, st, 'attribute .' + name, c)
                        continue
                    v = self.getattr_(l, name, st)
                    r = v if r is None else G.phi(
                        G.b.restrict(c, st.pc), v, r)
                if r is not None:
                    return r
        if x.op == 'ext':
            return G.raw('ext', (), x.info + '.' + name)
        if x.op == 'module':
            v = self.modname(name, st, x.info)
            return v
        if x.op == 'class':
            c = x.info
            if name in c.methods:
                return G.raw('func', (), c.methods[name])
            if name in c.consts:
                return self.ev(c.consts[name], st, Frame(None, c.mod))
        k = ('o', x.vn, name)
        v = st.s.get(k)
        if v is not None:
            if v.op in ('phi', 'unbound', 'mu'):
                v = self.bound(v, name, st, 'attribute')
            return v
        cls = self.clsof(x)
        if cls:
            c = self.prog.cls(cls)
            m = None
            try:
                m = self.prog.method(cls, name)
            except Exception:
                pass
            if m is not None:
                if m.prop:
                    return self.inline(m, [x], {}, st)
                if m.static:
                    return G.raw('func', (), m)
                return G.raw('func', (x,), m)
            if name in c.consts:
                return self.ev(c.consts[name], st, Frame(None, c.mod))
            if name in ('__dict__', '__class__'):
                return G.raw('attr', (x,), name)
            if x.op == 'obj':
                if not getattr(self, 'in_init', None) is x:
                    pass
                self.ev_add('noattr', st, x, name)
                return G.uniq('unknown', (), name)
            known = self.prog.init_attrs.get(cls)
            if known is not None and name not in known:
                self.ev_add('noattr', st, x, name)
            return self.initial(k)
        if name == 'T':
            if x.op == 'attr' and x.info == 'T':
                return x.args[0]
            return G.raw('fn', (x,), 'T')
        if name == 'size':
            self.use(x, st, 'attribute .size')
            return self.fn('len', [x], (), st)
        self.use(x, st, 'attribute .' + name)
        if k in self.initf:
            return self.initf[k]
        G.vn_node.setdefault(x.vn, x)
        v = self.initf[k] = G.raw('attr', (x,), name)
        return v

    def clsof(self, n):
        if n.cls and n.op in ('obj', 'param', 'field', 'sub', 'mu', 'attr',
                              'unknown'):
            return n.cls
        if n.op == 'wrap' and n.info in ('copy', 'deepcopy'):
            return None
        if n.op == 'phi' and n.cls:
            return n.cls
        return None

    def setattr_(self, x, name, v, st):
        if x.op == 'phi' and any(self.clsof(l) for _, l in
                                 G.leaves(x, st.pc)):
            for c, l in G.leaves(x, st.pc):
                if isconst(l):
                    continue
                old = self.get(st, ('o', l.vn, name))
                s = st.pc
                st.pc = c
                self.ev_add('store', st, l, name, v, old)
                st.pc = s
                st.s[('o', l.vn, name)] = G.phi(
                    G.b.restrict(c, st.pc), v, old)
            return
        k = ('o', x.vn, name)
        G.vn_node.setdefault(x.vn, x)
        old = self.get(st, k)
        self.ev_add('store', st, x, name, v, old)
        st.s[k] = v

    def use(self, n, st, how, cond=TRUE):
        """The value n must not be None here."""
        c = G.b.AND(self.nullable(n), cond)
        if c == FALSE:
            return
        f = G.b.AND(st.pc, c)
        if f == FALSE:
            return
        if G.sat(f):
            e = self.ev_add('use', st, n, how, f)
            e.caught = [t for t in self.trys if t['broad']]

    def nullable(self, n):
        """When the value is a None that came in as None."""
        if n.op == 'phi':
            return G.b.ite(n.info, self.nullable(n.args[0]),
                           self.nullable(n.args[1]))
        if n.op == 'wrap' and n.info in ('copy', 'deepcopy'):
            return self.nullable(n.args[0])
        if n.op in ('param', 'const', 'field'):
            return G.isnone(n)
        if n.op == 'mu' and isconst(n.args[0]) and n.args[0].info is None:
            return G.isnone(n)
        return FALSE

    # ---- expressions ---------------------------------------------------
    def ev(self, e, st, fr):
        site = G.site
        if hasattr(e, 'lineno'):
            G.site = (e.lineno, fr.name)
        try:
            m = getattr(self, 'e_' + type(e).__name__, None)
            if m is None:
                self.note('expression ' + type(e).__name__)
                return G.uniq('unknown')
            return m(e, st, fr)
        finally:
            G.site = site

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return G.raw('const', (), None, vn=G.intern(('ellipsis',)))
        return G.const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def e_Attribute(self, e, st, fr):
        x = self.ev(e.value, st, fr)
        return self.getattr_(x, e.attr, st, e)

    def e_Tuple(self, e, st, fr):
        return self.seq('tuple', e, st, fr)

    def e_List(self, e, st, fr):
        return self.seq('list', e, st, fr)

    def e_Set(self, e, st, fr):
        return self.seq('set', e, st, fr)

    def seq(self, op, e, st, fr):
        out = []
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                s = strip(v)
                if s.op in ('tuple', 'list') and not s.kw:
                    out.extend(s.args)
                else:
                    parts.append(G.raw(op, out))
                    parts.append(v)
                    out = []
            else:
                out.append(self.ev(x, st, fr))
        if parts:
            r = None
            for p in parts + [G.raw(op, out)]:
                if p.op == op and not p.args:
                    continue
                r = p if r is None else G.raw('concat', (r, p))
            return r or G.raw(op, ())
        n = G.raw(op, out)
        return n

    def e_Dict(self, e, st, fr):
        ks, vs = [], []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = strip(self.ev(v, st, fr))
                if d.op == 'dict':
                    for a, b in zip(d.info[0], d.args):
                        ks.append(a)
                        vs.append(b)
                else:
                    ks.append(G.uniq('unknown'))
                    vs.append(d)
            else:
                ks.append(self.ev(k, st, fr))
                vs.append(self.ev(v, st, fr))
        return self.mkdict(ks, vs)

    def mkdict(self, ks, vs):
        # later keys win
        K, V = [], []
        for k, v in zip(ks, vs):
            for i, q in enumerate(K):
                if q.vn == k.vn:
                    V[i] = v
                    break
            else:
                K.append(k)
                V.append(v)
        return G.raw('dict', V, DKeys(K), vn=G.intern(
            ('dict', tuple(k.vn for k in K), tuple(v.vn for v in V))))

    def e_JoinedStr(self, e, st, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st, fr)
                if v.conversion == -1 and v.format_spec is None:
                    out.append(x)
                else:
                    out.append(G.raw('fn', (x,), 'format'))
            else:
                out.append(G.const(v.value))
        r = None
        for x in out:
            r = x if r is None else G.raw('concat', (r, x)) \
                if not (isconst(r) and isconst(x) and isinstance(r.info, str)
                        and isinstance(x.info, str)) \
                else G.const(r.info + x.info)
        return r if r is not None else G.const('')

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
           ast.Pow: '**', ast.Mod: '%', ast.FloorDiv: '//',
           ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
           ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(self.OPS[type(e.op)], a, b, st)

    def binop(self, op, a, b, st):
        self.use(a, st, 'operand of ' + op)
        self.use(b, st, 'operand of ' + op)
        if op == '%' and a.op == 'const' and isinstance(a.info, str):
            return G.raw('fn', (a, b), 'format')
        if op in ('-', '|', '&'):
            x = constset(a)
            y = constset(b) if x is not None else None
            if y is not None:
                z = x - y if op == '-' else x | y if op == '|' else x & y
                return G.raw('set', [G.const(q) for q in sorted(z, key=repr)])
        return G.bin(op, a, b)

    UOPS = {ast.USub: '-', ast.UAdd: '+', ast.Not: 'not', ast.Invert: '~'}

    def e_UnaryOp(self, e, st, fr):
        a = self.ev(e.operand, st, fr)
        op = self.UOPS[type(e.op)]
        if op in '-+~':
            self.use(a, st, 'operand of ' + op)
        return G.un(op, a)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        return self.boolseq(e.values, isand, st, fr)

    def boolseq(self, vals, isand, st, fr):
        v = self.ev(vals[0], st, fr)
        if len(vals) == 1:
            return v
        t = G.truth(v)
        c = t if isand else G.b.NOT(t)
        pc0 = st.pc
        s2 = st.copy(G.b.AND(pc0, c))
        if not G.sat(s2.pc):
            return v
        r = self.boolseq(vals[1:], isand, s2, fr)
        s1 = st.copy(G.b.AND(pc0, G.b.NOT(c)))
        if not G.sat(s1.pc):
            self.into(st, s2)
            return r
        self.into(st, self.merge([s2, s1]))
        return G.phi(c, r, v)

    CMP = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=',
           ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not',
           ast.In: 'in', ast.NotIn: 'not in'}

    def e_Compare(self, e, st, fr):
        f = TRUE
        a = self.ev(e.left, st, fr)
        for o, r in zip(e.ops, e.comparators):
            b = self.ev(r, st, fr)
            op = self.CMP[type(o)]
            if op in ('<', '>', '<=', '>='):
                self.use(a, st, 'operand of ' + op)
                self.use(b, st, 'operand of ' + op)
            c = G.cmp(op, a, b)
            f = G.b.AND(f, c)
            a = b
        return G.bool(f)

    def e_IfExp(self, e, st, fr):
        c = G.truth(self.ev(e.test, st, fr))
        return self.fork2(st, c, lambda s: self.ev(e.body, s, fr),
                          lambda s: self.ev(e.orelse, s, fr))

    def fork2(self, st, c, f1, f2):
        p1 = G.b.AND(st.pc, c)
        p2 = G.b.AND(st.pc, G.b.NOT(c))
        if not G.sat(p1):
            if p1 != FALSE:
                st.pc = p2
            return f2(st)
        if not G.sat(p2):
            if p2 != FALSE:
                st.pc = p1
            return f1(st)
        s1, s2 = st.copy(p1), st.copy(p2)
        a = f1(s1)
        b = f2(s2)
        ok1, ok2 = s1.pc != FALSE, s2.pc != FALSE
        self.into(st, self.merge([s1, s2]))
        if not ok1:
            return b
        if not ok2:
            return a
        return G.phi(G.b.restrict(s1.pc, st.pc) if True else c, a, b)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def mapped(self, e, name, st, fr):
        """map(f, a, ...) and filter(f, a) as the comprehension they are."""
        got = getattr(e, '_mapped', None)
        if got is not None:
            return got or None
        e._mapped = False
        if e.keywords or len(e.args) < 2 or any(
                isinstance(a, ast.Starred) for a in e.args):
            return None
        f, its = e.args[0], e.args[1:]
        if name == 'filter' and len(its) != 1:
            return None
        if isinstance(f, ast.Name) and f.id in ('float', 'int', 'str'):
            return None
        names = ['_m%d' % i for i in range(len(its))]
        if isinstance(f, ast.Lambda):
            a = f.args
            if a.defaults or a.vararg or a.kwarg or a.kwonlyargs or \
                    len(a.args) != len(its):
                return None
            names = [x.arg for x in a.args]
            body = f.body
        elif isinstance(f, ast.Constant) and f.value is None:
            body = None
        else:
            body = ast.Call(f, [ast.Name(n, ast.Load()) for n in names], [])
        store = [ast.Name(n, ast.Store()) for n in names]
        if len(its) == 1:
            target, it = store[0], its[0]
        else:
            target = ast.Tuple(store, ast.Store())
            it = ast.Call(ast.Name('zip', ast.Load()), its, [])
        if name == 'map':
            if body is None:
                return None
            gen = ast.comprehension(target, it, [], 0)
            c = ast.ListComp(body, [gen])
        else:
            el = ast.Name(names[0], ast.Load())
            gen = ast.comprehension(target, it, [body if body is not None
                                                 else el], 0)
            c = ast.ListComp(el, [gen])
        ast.copy_location(c, e)
        ast.fix_missing_locations(c)
        e._mapped = c
        return c

    def e_Lambda(self, e, st, fr):
        f = Func(fr.mod, e)
        fr.keep = True
        n = G.uniq('lambda', (), f)
        n.extra = fr
        return n

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        a = [self.ev(x, st, fr) if x is not None else G.const(None)
             for x in (e.lower, e.upper, e.step)]
        # canonical bounds
        if isconst(a[0]) and a[0].info == 0 and a[0].info is not False:
            a[0] = G.const(None)
        if isconst(a[2]) and a[2].info == 1:
            a[2] = G.const(None)
        return G.raw('slice', a)

    def e_Subscript(self, e, st, fr):
        x = self.ev(e.value, st, fr)
        i = self.ev(e.slice, st, fr)
        self.use(x, st, 'subscripted')
        if not isconst(i) and i.op != 'slice':
            self.ev_add('subscript', st, x, None, i)
        return self.index(x, i, st)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value else G.const(None)
        fr.yields = getattr(fr, 'yields', [])
        fr.yields.append((st.pc, v))
        return G.const(None)

    e_YieldFrom = e_Yield

    # ---- subscripts ----------------------------------------------------
    def normidx(self, i):
        """Index expressions selecting the same elements are made equal."""
        while True:
            if i.op == 'wrap' and i.info in ('list', 'array', 'asarray',
                                             'copy', 'flat', 'boolcast',
                                             'deepcopy', 'tuple'):
                i = i.args[0]
            elif i.op == 'fn' and i.info in ('nonzero', 'flatnonzero',
                                             'argwhere') \
                    and len(i.args) == 1 and ismask(i.args[0]):
                i = i.args[0]
            elif i.op == 'sub' and i.args[0].op == 'fn' and \
                    i.args[0].info == 'nonzero' and isconst(i.args[1]):
                i = i.args[0].args[0]
            elif i.op in ('list', 'tuple') and len(i.args) == 1 and \
                    strip(i.args[0]).op in ('iterel',):
                i = i.args[0]
            else:
                return i

    def index(self, x, i, st=None, depth=0):
        if x.op == 'wrap' and x.info in ('list', 'tuple', 'array', 'asarray',
                                         'copy', 'deepcopy', 'tqdm',
                                         'float', 'flat'):
            y = strip(x)
            if y.op in ('tuple', 'list', 'collect', 'dictcollect', 'phi',
                        'dict') or x.info in ('tqdm', 'list', 'tuple',
                                              'float'):
                if i.op == 'slice' and y.op == 'phi':
                    return G.raw('sub', (x, i))
                r = self.index(y, i, st, depth + 1)
                if i.op == 'slice' and r.op in ('list', 'tuple') and \
                        isarray(x):
                    r = G.wrap('array', r, True)
                return r
        if depth > 20:
            return G.raw('sub', (x, i))
        i = self.normidx(i)
        if x.op == 'phi' and i.op != 'slice' and depth < 8:
            if any(l.op in ('tuple', 'list', 'dict', 'collect', 'dictcollect')
                   for _, l in G.leaves(x)):
                return G.phi(x.info, self.index(x.args[0], i, st, depth + 1),
                             self.index(x.args[1], i, st, depth + 1))
        if i.op == 'phi' and x.op == 'dict':
            return G.phi(i.info, self.index(x, i.args[0], st, depth + 1),
                         self.index(x, i.args[1], st, depth + 1))
        if x.op in ('tuple', 'list') and not x.kw:
            if isconst(i) and isinstance(i.info, int):
                if -len(x.args) <= i.info < len(x.args):
                    return x.args[i.info]
            if i.op == 'slice' and all(
                    isconst(a) and (a.info is None or isinstance(a.info, int))
                    for a in i.args):
                return G.raw(x.op, x.args[slice(*[a.info for a in i.args])])
        if x.op == 'const' and isinstance(x.info, str):
            try:
                if isconst(i):
                    return G.const(x.info[i.info])
                if i.op == 'slice' and all(isconst(a) for a in i.args):
                    return G.const(x.info[slice(*[a.info for a in i.args])])
            except Exception:
                pass
        if x.op == 'dict':
            return self.dictget(x, i, st)
        if x.op == 'dictcollect':
            k = x.args[0]
            if i.vn == k.vn:
                return x.args[1]
            r = self.subst(x.args[1], {k.vn: i})
            if isinstance(x.info, Loop) and x.info.iota is not None and \
                    self.mentions(r, x.info.iota):
                return G.raw('sub', (x, i))
            return r
        if x.op == 'update':
            if x.args[1].vn == i.vn:
                return x.args[2]
            base = x
            while base.op == 'update':
                base = base.args[0]
            if base.op == 'dict' and i.op != 'slice':
                if x.args[0].op == 'dict' and not x.args[0].args:
                    return x.args[2]    # any other key is an error
                return G.phi(G.cmp('==', i, x.args[1]), x.args[2],
                             self.index(x.args[0], i, st, depth + 1))
            if isconst(i) and isconst(x.args[1]):
                return self.index(x.args[0], i, st, depth + 1)
        if x.op == 'collect' and i.op == 'iota' and \
                x.args[2].op == 'const' and x.args[2].info:
            return self.subst(x.args[0], {x.info.iota.vn: i})
        if x.op == 'collect' and isconst(i) and isinstance(i.info, int) and \
                x.args[2].op == 'const' and x.args[2].info and i.info == 0:
            return self.subst(x.args[0], {x.info.iota.vn: i})
        if x.op == 'attr' and x.info == 'shape' and isconst(i) \
                and i.info == 0:
            return self.fn('len', [x.args[0]], (), st)
        if x.op == 'fn' and x.info == 'nonzero' and isconst(i) \
                and i.info == 0:
            return G.raw('fn', x.args, 'flatnonzero')
        if x.op == 'fn' and x.info in ('zip',) and i.op == 'iota':
            return G.raw('tuple', [self.index(a, i, st, depth + 1)
                                   for a in x.args])
        if x.op == 'listrep' and len(x.args[0].args) == 1 and \
                i.op in ('iota', 'const'):
            return x.args[0].args[0]
        if x.op == 'fn' and x.info == 'range' and i.op == 'iota':
            return self.rangeel(x, i)
        # row i of a transposed column literal
        if x.op == 'fn' and x.info == 'T':
            y = strip(x.args[0])
            if y.op == 'fn' and y.info == 'column_stack' and y.args and \
                    strip(y.args[0]).op in ('tuple', 'list') and isconst(i):
                return self.index(strip(y.args[0]), i, st, depth + 1)
            if isconst(i) and isinstance(i.info, int):
                return self.index(x.args[0], G.raw('tuple', (
                    G.raw('slice', [G.const(None)] * 3), i)), st, depth + 1)
        # column k of a column stack
        if i.op == 'tuple' and len(i.args) == 2 and fullslice(i.args[0]) \
                and isconst(i.args[1]):
            y = strip(x)
            if y.op == 'fn' and y.info == 'column_stack' and \
                    strip(y.args[0]).op in ('tuple', 'list'):
                return self.index(strip(y.args[0]), i.args[1], st, depth + 1)
            if y.op == 'fn' and y.info == 'T':
                return self.index(y.args[0], i.args[1], st, depth + 1)
        n = G.raw('sub', (x, i))
        return n

    def dictget(self, d, key, st, default=None):
        keys = d.info[0]
        for k, v in zip(keys, d.args):
            if k.vn == key.vn:
                return v
        if isconst(key) and all(isconst(k) for k in keys):
            if default is not None:
                return default
            if st is not None:
                self.raise_(st.copy(), 'KeyError', key)
            return G.uniq('unknown')
        conds = [(G.cmp('==', key, k), v) for k, v in zip(keys, d.args)]
        rest = TRUE
        for c, _ in conds:
            rest = G.b.AND(rest, G.b.NOT(c))
        r = default
        if r is None:
            if st is not None and G.sat(G.b.AND(st.pc, rest)):
                s = st.copy(G.b.AND(st.pc, rest))
                self.raise_(s, 'KeyError', key)
                st.pc = G.b.AND(st.pc, G.b.NOT(rest))
        for c, v in reversed(conds):
            r = v if r is None else G.phi(c, v, r)
        return r if r is not None else G.uniq('unknown')

    def subst(self, n, m):
        memo = {}

        def go(n, d):
            r = m.get(n.vn)
            if r is not None:
                return r
            if d > 60:
                return n
            r = memo.get(n.uid)
            if r is not None:
                return r
            r = n
            if n.op == 'bool' or n.op == 'phi':
                f = self.subst_b(n.info, go, d)
                a = [go(x, d + 1) for x in n.args]
                if f != n.info or any(x is not y
                                      for x, y in zip(a, n.args)):
                    r = G.bool(f) if n.op == 'bool' else G.phi(f, *a)
            elif n.args and n.op not in ('mu', 'iota'):
                a = [go(x, d + 1) for x in n.args]
                kw = n.kw and tuple((k, go(v, d + 1)) for k, v in n.kw)
                if any(x is not y for x, y in zip(a, n.args)) or (
                        kw and any(x[1] is not y[1]
                                   for x, y in zip(kw, n.kw))):
                    if n.op == 'sub':
                        r = self.index(a[0], a[1])
                    elif n.op == 'fn':
                        r = self.fn(n.info, a, kw or (), None)
                    elif n.op == 'dict' or n.op in ('collect',
                                                    'dictcollect'):
                        r = n
                    else:
                        r = G.rebuild(n, a, kw)
            memo[n.uid] = r
            return r
        return go(n, 0)

    def subst_b(self, f, go, d):
        if f <= 1:
            return f
        b = G.b
        out = {}
        changed = False
        for v in b.support(f):
            pred, nodes, info, vns = G.atoms[v]
            if not nodes:
                continue
            a = [go(x, d + 1) for x in nodes]
            if all(x is y for x, y in zip(a, nodes)):
                continue
            changed = True
            if pred == 'pos' and len(a) == 2:
                base = G.lt(a[0], a[1])
                # the stored atom may be the complement (integer form)
                orig = G.lt(nodes[0], nodes[1])
                out[v] = base if orig == b.var(v) else (
                    b.NOT(base) if orig == b.NOT(b.var(v)) else b.var(v))
            elif pred == 'isnone':
                out[v] = G.isnone(a[0])
            elif pred == 'eq':
                out[v] = G.eq(*a)
            elif pred == 'truthy':
                out[v] = G.truth(a[0])
            elif pred == 'in':
                out[v] = G.contains(*a)
            else:
                out[v] = G.atom(pred, a, info)
        if not changed:
            return f

        def comp(f):
            if f <= 1:
                return f
            v, lo, hi = b.nodes[f]
            return b.ite(out.get(v, b.var(v)), comp(hi), comp(lo))
        return comp(f)

    # ---- calls ---------------------------------------------------------
    def e_Call(self, e, st, fr):
        # method calls evaluate the receiver first
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, st, fr)
            # logging calls are transparent
            callee = None
            meth = e.func.attr
            if recv.op == 'ext' or recv.op == 'module' or recv.op == 'class' \
                    or self.clsof(recv) or (
                        recv.op == 'phi' and any(
                            self.clsof(l) or l.op in ('ext', 'module')
                            for _, l in G.leaves(recv, st.pc))):
                callee = self.getattr_(recv, meth, st, e)
            elif ('o', recv.vn, meth) in st.s:
                callee = st.s[('o', recv.vn, meth)]
        else:
            recv, meth = None, None
            callee = self.ev(e.func, st, fr)
            if callee.op == 'ext' and callee.info in ('map', 'filter'):
                c = self.mapped(e, callee.info, st, fr)
                if c is not None:
                    return self.ev(c, st, fr)
        args, kw, star = [], [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                s = strip(v)
                if s.op in ('tuple', 'list') and not s.kw:
                    args.extend(s.args)
                else:
                    args.append(G.raw('star', (v,)))
                    star = True
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                d = strip(v)
                if d.op == 'dict' and all(isconst(x) for x in d.info[0]):
                    for x, y in zip(d.info[0], d.args):
                        kw.append((x.info, y))
                else:
                    kw.append(('**', v))
            else:
                kw.append((k.arg, v))
        G.site = (e.lineno, fr.name)
        if callee is not None:
            return self.call(callee, args, kw, st, e)
        return self.method(recv, meth, args, kw, st, e)

    def call(self, f, args, kw, st, e=None):
        if f.op == 'phi':
            ls = G.leaves(f, st.pc)
            if any(l.op in ('func', 'class', 'lambda') for _, l in ls):
                return self.forkcall(ls, args, kw, st, e)
            for c, l in ls:
                if isconst(l):
                    self.use(l, st, 'called', c)
            return self.dyncall(f, args, kw, st)
        if f.op == 'func':
            fn = f.info
            a = list(f.args) + args
            return self.inline(fn, a, dict(kw), st, kw)
        if f.op == 'class':
            return self.construct(f.info, args, kw, st)
        if f.op == 'lambda':
            return self.inline(f.info, args, dict(kw), st, kw,
                               closure=f.extra)
        if f.op == 'partial':
            return self.call(f.args[0], list(f.args[1:]) + args,
                             list(f.kw or ()) + kw, st, e)
        if f.op == 'ext':
            return self.external(f.info, args, kw, st, e)
        self.use(f, st, 'called')
        return self.dyncall(f, args, kw, st)

    def dyncall(self, f, args, kw, st):
        n = G.raw('dyncall', (f,) + tuple(args), None,
                  tuple(sorted(kw, key=lambda t: t[0])))
        ev = self.ev_add('dyncall', st, f, None, args, kw)
        ev.res = n
        return n

    def forkcall(self, ls, args, kw, st, e):
        outs, vals = [], []
        for c, l in ls:
            s = st.copy(c)
            if isconst(l):
                self.use(l, s, 'called')
                continue
            v = self.call(l, args, kw, s, e)
            if s.pc != FALSE:
                outs.append(s)
                vals.append(v)
        if not outs:
            st.pc = FALSE
            return G.uniq('unknown')
        pcs = [s.pc for s in outs]
        self.into(st, self.merge(outs))
        r = vals[-1]
        for p, v in zip(reversed(pcs[:-1]), reversed(vals[:-1])):
            r = G.phi(G.b.restrict(p, st.pc), v, r)
        return r

    def construct(self, c, args, kw, st):
        if any('namedtuple' in b or 'NamedTuple' in b for b in c.bases):
            return G.uniq('unknown')
        if any(b not in ('object',) for b in c.bases) and \
                '__init__' not in c.methods:
            pass
        obj = G.uniq('obj', (), c.name, cls=c.name)
        self.ev_add('new', st, obj, c.name, args, kw)
        st.s[('o', obj.vn, '__born__')] = G.const(True)
        decs = [ast.unparse(d) for d in c.node.decorator_list]
        if '__init__' in c.methods:
            self.inline(c.methods['__init__'], [obj] + args, dict(kw), st, kw)
        elif any('dataclass' in d for d in decs):
            names = [s.target.id for s in c.node.body
                     if isinstance(s, ast.AnnAssign)]
            vals = dict(zip(names, args))
            vals.update(dict(kw))
            for n in names:
                if n in vals:
                    st.s[('o', obj.vn, n)] = vals[n]
                elif n in c.consts:
                    st.s[('o', obj.vn, n)] = self.ev(
                        c.consts[n], st, Frame(None, c.mod))
        return obj

    def bind(self, fn, args, kw, st):
        """param -> Node; reports binding errors."""
        b = {}
        errs = []
        pos = list(fn.pos)
        extra = []
        for i, a in enumerate(args):
            if a.op == 'star':
                for p in pos[i:]:
                    b[p] = G.uniq('unknown', (), p)
                break
            if i < len(pos):
                b[pos[i]] = a
            else:
                extra.append(a)
        if extra and not fn.vararg:
            errs.append('takes %d positional arguments, got %d'
                        % (len(pos), len(args)))
        ek, ev = [], []
        for k, v in kw.items():
            if k == '**':
                for p in fn.params:
                    if p not in b and p not in kw:
                        b[p] = G.uniq('unknown', (), p)
                continue
            if k in fn.params:
                if k in b:
                    errs.append('got multiple values for %r' % k)
                b[k] = v
            elif fn.kwarg:
                ek.append(G.const(k))
                ev.append(v)
            else:
                errs.append('has no parameter %r' % k)
        dflt = fn.defaults()
        for p in fn.params:
            if p not in b:
                if p in dflt:
                    key = ('d', fn.full, id(fn.node), p)
                    n = self.initf.get(key)
                    if n is None:
                        n = self.ev(dflt[p], St({}, TRUE),
                                    Frame(None, fn.mod))
                        n = self.initf[key] = self.mark_default(n, fn, p)
                    b[p] = n
                else:
                    errs.append('misses argument %r' % p)
                    b[p] = G.uniq('unknown', (), p)
        if fn.vararg:
            b[fn.vararg] = G.raw('tuple', extra)
        if fn.kwarg:
            b[fn.kwarg] = self.mkdict(ek, ev)
        return b, errs

    def mark_default(self, n, fn, p):
        if n.op in ('list', 'dict', 'set'):
            n.extra = n.extra or ('default', fn.full, p)
        return n

    def inline(self, fn, args, kw, st, kwl=None, closure=None):
        b, errs = self.bind(fn, args, kw, st)
        for m in errs:
            self.ev_add('badcall', st, None, fn.full, m)
        evn = self.ev_add('icall', st, None, fn, b)
        if closure is None and getattr(fn, 'closure', None) is not None:
            closure = fn.closure
        depth = len(self.stack)
        if depth > MAXDEPTH or self.stack.count(fn.full) > 1:
            self.note('call depth at ' + fn.full)
            r = G.uniq('unknown', tuple(b.values()), fn.full)
            evn.res = r
            return r
        self.visited.add(fn.full)
        fr = Frame(fn, fn.mod, parent=closure)
        for p, v in b.items():
            st.s[('v', fr.id, p)] = v
        self.stack.append(fn.full)
        site = G.site
        try:
            if isinstance(fn.node, ast.Lambda):
                r = self.ev(fn.node.body, st, fr)
            else:
                end = self.block(fn.node.body, st.copy(), fr)
                rets = list(fr.returns)
                if end is not None:
                    rets.append((end, G.const(None)))
                rets = [(s, v) for s, v in rets if s.pc != FALSE]
                if fn.isgen:
                    ys = getattr(fr, 'yields', [])
                    self.into(st, self.merge([s for s, _ in rets]))
                    r = self.generator(ys, st)
                elif not rets:
                    st.pc = FALSE
                    r = G.uniq('unknown', (), 'noreturn')
                else:
                    pcs = [s.pc for s, _ in rets]
                    self.into(st, self.merge([s for s, _ in rets]))
                    r = rets[-1][1]
                    for p, (_, v) in zip(reversed(pcs[:-1]),
                                         reversed(rets[:-1])):
                        r = G.phi(G.b.restrict(p, st.pc), v, r)
        finally:
            self.stack.pop()
            G.site = site
        if not fr.keep:
            for k in [k for k in st.s if k[0] == 'v' and k[1] == fr.id]:
                del st.s[k]
        evn.res = r
        return r

    def generator(self, ys, st):
        L = [l for l in self.allloops if l.line]
        if len(ys) == 1 and L:
            lp = L[-1]
            if lp.space is not None:
                return self.mkcollect(lp, ys[0][1], TRUE, 'list')
        return G.uniq('unknown')

    # callbacks given to external functions
    CALLBACK = {'scipy.optimize.minimize', 'scipy.optimize.least_squares',
                'scipy.optimize.curve_fit', 'scipy.optimize.leastsq',
                'scipy.optimize.fmin', 'map', 'filter'}

    def external(self, name, args, kw, st, e=None):
        kwd = dict(kw)
        # builtins and normalised numpy functions
        if name in ('print', 'super', 'repr', 'vars', 'dir', 'globals',
                    'locals', 'callable', 'exec', 'eval', 'compile'):
            ev = self.ev_add('call', st, None, name, args, kw)
            if name in ('exec', 'eval', 'vars', 'globals', 'locals'):
                self.ev_add('havoc', st, None, name)
            ev.res = G.uniq('call', args, name)
            return ev.res
        if name == 'isinstance' and len(args) == 2:
            return G.bool(G.isinst(args[0], self.typenames(args[1])))
        if name == 'issubclass':
            return G.uniq('unknown')
        if name == 'setattr' and len(args) == 3:
            if isconst(args[1]):
                self.setattr_(args[0], args[1].info, args[2], st)
            else:
                ks = G.leaves(args[1], st.pc)
                if all(isconst(k) for _, k in ks) and ks:
                    outs = []
                    for c, k in ks:
                        s = st.copy(c)
                        self.setattr_(args[0], k.info, args[2], s)
                        outs.append(s)
                    self.into(st, self.merge(outs))
                else:
                    self.ev_add('havoc', st, args[0], 'setattr')
                    self.note('setattr with a computed name')
            return G.const(None)
        if name == 'getattr' and len(args) >= 2:
            if isconst(args[1]):
                a = args[0]
                if len(args) == 3 and a.cls and a.op != 'obj':
                    known = self.prog.init_attrs.get(a.cls, ())
                    if args[1].info not in known and \
                            ('o', a.vn, args[1].info) not in st.s:
                        return args[2]
                k = ('o', a.vn, args[1].info)
                if len(args) == 3 and a.op == 'obj' and a.cls:
                    v = st.s.get(k)
                    if v is None or v.op in ('phi', 'unbound', 'mu'):
                        try:
                            m = self.prog.method(a.cls, k[2])
                        except Exception:
                            m = None
                        if m is None and k[2] not in self.prog.cls(
                                a.cls).consts:
                            if v is None or v.op == 'unbound':
                                return args[2]
                            r = None
                            for c, l in reversed(G.leaves(v, st.pc)):
                                l = args[2] if l.op == 'unbound' else l
                                r = l if r is None else G.phi(
                                    G.b.restrict(c, st.pc), l, r)
                            if r is not None:
                                return r
                return self.getattr_(a, args[1].info, st)
            ls = G.leaves(args[1], st.pc)
            if ls and all(isconst(k) for _, k in ls):
                r = None
                for c, k in reversed(ls):
                    v = self.getattr_(args[0], k.info, st)
                    r = v if r is None else G.phi(
                        G.b.restrict(c, st.pc), v, r)
                return r
            self.note('getattr with a computed name')
            return G.uniq('unknown', args)
        if name == 'hasattr':
            x = args[0]
            if x.cls and isconst(args[1]):
                known = self.prog.init_attrs.get(x.cls)
                if known is not None and args[1].info in known:
                    return G.const(True)
                if ('o', x.vn, args[1].info) in st.s:
                    return G.const(True)
            lit = {'tuple': (), 'list': [], 'dict': {}, 'set': set()}
            if isconst(args[1]) and (isconst(x) or x.op in lit):
                return G.const(hasattr(lit.get(x.op, x.info),
                                       str(args[1].info)))
            return G.bool(G.atom('hasattr', (x, args[1])))
        if name == 'callable':
            return G.bool(G.atom('callable', (args[0],)))
        if name == 'dict':
            if args and strip(args[0]).op == 'dict':
                d = strip(args[0])
                return self.mkdict(list(d.info[0]) + [
                    G.const(k) for k, _ in kw], list(d.args) + [
                    v for _, v in kw])
            if not args and all(k != '**' for k, _ in kw):
                return self.mkdict([G.const(k) for k, _ in kw],
                                   [v for _, v in kw])
            if args and strip(args[0]).op == 'fn' and \
                    strip(args[0]).info == 'zip' and \
                    len(strip(args[0]).args) == 2:
                z = strip(args[0])
                L = Loop('comp', len(self.loops), G.site[0], G.site[1])
                self.setspace(L, z)
                el = self.index(z, L.iota, st)
                return self.mkdictcollect(L, el.args[0], el.args[1], TRUE)
        if name == 'functools.partial':
            return G.raw('partial', args, None, tuple(kw))
        if name in ('list', 'tuple') and not args:
            return G.raw(name, ())
        if name in ('set', 'frozenset') and not args:
            return G.raw('set', ())
        if name == 'float' and args and isconst(args[0]) and isinstance(
                args[0].info, (int, float)):
            return G.const(float(args[0].info))
        if name == 'str' and args and isconst(args[0]) and isinstance(
                args[0].info, (str, int)):
            return G.const(str(args[0].info))
        if name == 'list' and len(args) == 1 and \
                strip(args[0]).op in ('tuple', 'list'):
            return G.raw('list', strip(args[0]).args)
        if name == 'tuple' and len(args) == 1 and \
                strip(args[0]).op in ('tuple', 'list'):
            return G.raw('tuple', strip(args[0]).args)
        if name in WRAP and args:
            kind, fresh = WRAP[name]
            if name != 'copy.copy' and name != 'copy.deepcopy':
                if name not in ('numpy.array', 'numpy.asarray'):
                    self.use(args[0], st, 'argument of ' + name)
            if kind == 'asarray' and args[0].op in (
                    'list', 'collect', 'concat', 'listrep', 'tuple', 'bin',
                    'fn', 'sub') and not isview(args[0]):
                fresh = True
            if kind in ('copy', 'deepcopy') and args[0].cls and \
                    kind == 'copy':
                fresh = False
            if kwd.get('copy') is not None and isconst(kwd['copy']) and \
                    not kwd['copy'].info:
                fresh = False
            dt = kwd.get('dtype') or (args[1] if len(args) > 1 else None)
            if kind in ('array', 'asarray') and dt is not None and \
                    not self.floatdt(dt):
                return self.astype(args[0], dt)
            return G.wrap(kind, args[0], fresh)
        if name in CANON:
            c = CANON[name]
            if name in ('max', 'min') and len(args) > 1:
                c = 'maximum' if name == 'max' else 'minimum'
                if len(args) == 2 and not kwd and all(
                        scalar(x) for x in args):
                    a, b = args
                    for x in args:
                        self.use(x, st, 'argument of ' + name)
                    lt = G.cmp('<', a, b)
                    return G.phi(lt, b, a) if name == 'max' else G.phi(
                        lt, a, b)
            if name not in ('zip', 'range', 'numpy.isscalar', 'type', 'id',
                            'hash', 'str', 'bool'):
                for a in args[:2 if name in BOTH else 1]:
                    self.use(a, st, 'argument of ' + name)
            if name == 'zip' or name == 'numpy.concatenate' and args and \
                    args[0].op in ('tuple', 'list'):
                for a in args if name == 'zip' else args[0].args:
                    self.use(a, st, 'argument of ' + name)
            if 'out' in kwd:
                o = kwd.pop('out')
                r = self.fn(c, args, tuple(sorted(
                    (k, v) for k, v in kwd.items())), st)
                self.mutate(st, o, r, name + '(out=)')
                return r
            return self.fn(c, args, tuple(sorted(kwd.items())), st)
        if name in EXTMUT and args:
            t = args[EXTMUT[name]]
            ev = self.ev_add('call', st, None, name, args, kw)
            if '.random.' in name or name.startswith('random.'):
                pass
            new = G.raw('update', (t,) + tuple(args[1:2]) + (
                G.uniq('rnd', args, name),))
            self.mutate(st, t, new, name)
            ev.res = G.const(None)
            return ev.res
        ev = self.ev_add('call', st, None, name, args, kw)
        if name in self.CALLBACK and args and args[0].op in (
                'func', 'lambda', 'partial', 'phi'):
            self.callback(name, args, kwd, st)
        impure = (name.startswith(('numpy.random', 'random.', 'time.',
                                   'os.', 'uuid.', 'secrets.', 'datetime.',
                                   'matplotlib', 'plotly', 'pio', 'go.'))
                  or name in ('open', 'input', 'numpy.load',
                              'numpy.loadtxt', 'json.load'))
        if name.startswith('numpy.random') or name.startswith('random.'):
            r = G.uniq('rnd', args, name, tuple(kw))
        elif impure:
            r = G.uniq('call', args, name, tuple(sorted(kw, key=lambda t:
                                                        t[0])))
        else:
            r = G.raw('call', args, name, tuple(sorted(kw, key=lambda t:
                                                       t[0])))
        ev.res = r
        return r

    def callback(self, name, args, kwd, st):
        f = args[0]
        s = st.copy()
        cb = G.uniq('cbarg', (), name)
        extra = kwd.get('args')
        ex = []
        if extra is not None:
            x = strip(extra)
            ex = list(x.args) if x.op in ('tuple', 'list') else [extra]
        if name == 'scipy.optimize.curve_fit':
            a = [args[1]] + [G.uniq('cbarg', (), name) for _ in range(3)]
        else:
            # the optimiser works on its own copy of the start vector
            a = [cb] + ex
        for _, l in G.leaves(f, st.pc):
            if l.op in ('func', 'lambda', 'partial'):
                fn = l.info if l.op != 'partial' else l.args[0].info
                if name == 'scipy.optimize.curve_fit':
                    want = len(fn.pos) - len(l.args)
                    a = [args[1]] + [G.uniq('cbarg', (), name)
                                     for _ in range(max(0, want - 1))]
                self.ev_add('callback', s, l, name, a)
                self.call(l, a, [], s)
                # effects on objects of the caller survive
                for k, v in s.s.items():
                    if st.s.get(k) is not v and k in st.s:
                        st.s[k] = G.phi(G.fresh_atom('called', name), v,
                                        st.s[k])
                    elif k[0] == 'o' and k not in st.s:
                        st.s[k] = v

    def typenames(self, t):
        t = strip(t)
        if t.op in ('tuple', 'list'):
            return tuple(x for a in t.args for x in self.typenames(a))
        if t.op == 'ext':
            return (t.info.split('.')[-1],)
        if t.op == 'class':
            return (t.info.name,)
        if t.op == 'bin':
            return self.typenames(t.args[0]) + self.typenames(t.args[1])
        return (repr(t),)

    def floatdt(self, dt):
        dt = strip(dt)
        if dt.op == 'const':
            return dt.info in ('float', 'float64', 'f8', None, 'd', '>f8',
                               'object', '<f8')
        if dt.op == 'ext':
            return dt.info in ('float', 'numpy.float64', 'numpy.double',
                               'object', 'numpy.longdouble')
        return False

    def astype(self, x, dt):
        if self.floatdt(dt):
            return G.wrap('float', x, True)
        d = strip(dt)
        nm = d.info if d.op in ('const', 'ext') else '?'
        if nm in ('bool', 'numpy.bool_', 'bool8'):
            return G.wrap('boolcast', x, True)
        if nm in ('int', 'int64', 'int32', 'numpy.int64', 'numpy.int32',
                  'numpy.int', 'i8'):
            n = G.raw('fn', (x,), 'int')
            return n
        return G.raw('fn', (x, dt), 'astype')

    # ---- canonical functions ------------------------------------------
    def fn(self, c, args, kw, st):
        kw = tuple(kw or ())
        a = list(args)
        if c in ('abs',) and len(a) == 1:
            p = G.poly_of(a[0].vn)
            if p:
                k = sorted(p.items())[0]
                v = a[0].vn
                if k[1] < 0:
                    v = G.vn_of_poly({m: -x for m, x in p.items()})
                n = G.num(v)
                if n is not None:
                    return G.const(abs(a[0].info) if isconst(a[0])
                                   else float(abs(n)))
                return G.raw('fn', a, c, vn=G.intern(('fn', 'abs', v)))
        if c == 'sqrt':
            return G.raw('fn', a, c, vn=G.arith_vn(
                '**', a[0].vn, G.const(0.5).vn))
        if c == 'square':
            return G.bin('**', a[0], G.const(2))
        if c == 'power' and len(a) == 2:
            return G.bin('**', a[0], a[1])
        if c in ('add', 'subtract', 'multiply', 'divide') and len(a) == 2 \
                and not kw:
            return G.bin({'add': '+', 'subtract': '-', 'multiply': '*',
                          'divide': '/'}[c], *a)
        if c == 'negative':
            return G.un('-', a[0])
        if c in ('less', 'less_equal', 'greater', 'greater_equal', 'equal',
                 'not_equal') and len(a) == 2 and not kw:
            return G.bool(G.cmp({'less': '<', 'less_equal': '<=',
                                 'greater': '>', 'greater_equal': '>=',
                                 'equal': '==', 'not_equal': '!='}[c], *a))
        if c in ('logical_and', 'logical_or') and len(a) == 2 and not kw:
            return G.bin('&' if c == 'logical_and' else '|', *a)
        if c == 'logical_not' and not kw:
            return G.un('not', a[0])
        if c == 'bool':
            return G.bool(G.truth(a[0])) if a else G.const(False)
        if c == 'isin' and len(a) == 2:
            neg = False
            for k, v in kw:
                if k == 'invert' and isconst(v) and v.info:
                    neg = True
            f = G.contains(a[0], a[1])
            return G.bool(G.b.NOT(f) if neg else f)
        if c == 'isscalar':
            x = a[0]
            if x.op == 'const':
                return G.const(x.info is not None)
            if strip(x).op in ('list', 'tuple', 'collect'):
                return G.const(False)
            return G.bool(G.atom('isinst', (x,), 'scalar'))
        if c in ('any', 'all'):
            x = strip(a[0])
            if x.op in ('list', 'tuple', 'set') and not x.kw:
                f = FALSE if c == 'any' else TRUE
                for y in x.args:
                    f = (G.b.OR if c == 'any' else G.b.AND)(f, G.truth(y))
                return G.bool(f)
            return G.bool(self.quant(c, a[0]))
        if c == 'isnan' and len(a) == 1:
            return G.bool(G.atom('isnan', (a[0],)))
        if c == 'isfinite' and len(a) == 1:
            return G.bool(G.atom('isfinite', (a[0],)))
        if c == 'mean' and not kw and len(a) == 1:
            s = self.fn('sum', a, (), st)
            n = self.fn('len', a, (), st)
            return G.raw('fn', a, 'mean',
                         vn=G.arith_vn('/', s.vn, n.vn))
        if c == 'ptp':
            hi = self.fn('max', a, (), st)
            lo = self.fn('min', a, (), st)
            return G.raw('fn', a, 'ptp', vn=G.arith_vn('-', hi.vn, lo.vn))
        if c == 'len' and len(a) == 1:
            return self.length(a[0], st)
        if c == 'sum' and not kw and len(a) == 1:
            x = strip(a[0])
            if x.op == 'bool':
                n = G.raw('fn', (x,), 'sum')
                G.intvn.add(n.vn)
                return n
            if x.op == 'collect':
                # sum(1 for m in mask if m) counts like sum(mask)
                m, el = strip(x.args[1]), x.args[0]
                if m.op == 'bool' and isconst(el) and el.info == 1 and \
                        G.truth(x.args[2]) == G.truth(
                            self.index(m, x.info.iota)):
                    return self.fn('sum', [m], (), st)
        if c in ('maximum', 'minimum', 'max', 'min') and not kw and all(
                isconst(strip(x)) and type(strip(x).info) in (int, float)
                for x in a) and len(a) > 1:
            v = [strip(x).info for x in a]
            return G.const(max(v) if c.startswith('max') else min(v))
        if c in ('max', 'min') and not kw and len(a) == 1:
            x = strip(a[0])
            if x.op in ('list', 'tuple') and len(x.args) >= 2:
                c = 'maximum' if c == 'max' else 'minimum'
                a = list(x.args)
        if c in ('maximum', 'minimum') and not kw and len(a) >= 2:
            vs = tuple(sorted(x.vn for x in a))
            return G.raw('fn', a, c, vn=G.intern(('fn', c, vs)))
        if c in ('unique', 'sort') and not kw and len(a) == 1:
            x = strip(a[0])
            if x.op == 'fn' and x.info in ('unique',) and not x.kw:
                return G.wrap('copy', x, True)
            if c == 'unique' and x.op == 'fn' and x.info == 'sort' and \
                    not x.kw:
                a = [x.args[0]]
            if c == 'sort':
                kw = ()
        if c == 'sort':
            kw = tuple((k, v) for k, v in kw if k != 'kind')
        if c == 'argsort':
            kw = tuple((k, v) for k, v in kw if k != 'kind')
        if c == 'where' and len(a) == 1:
            c = 'nonzero'
        if c == 'where' and len(a) == 3:
            return G.raw('fn', a, 'where')
        if c == 'zip' and len(a) == 1 and a[0].op == 'star':
            x = strip(a[0].args[0])
            return G.raw('fn', (x,), 'T')
        if c == 'T' and not kw:
            x = strip(a[0])
            if x.op == 'fn' and x.info == 'T':
                return x.args[0]
        if c == 'isclose' and len(a) == 2 and not kw:
            x, y = sorted(a, key=lambda n: n.vn)
            return G.bool(G.atom('isclose', (x, y)))
        if c == 'take' and len(a) >= 2:
            return self.index(a[0], a[1], st)
        if c == 'compress' and len(a) >= 2:
            return self.index(a[1], a[0], st)
        if c == 'diff' and len(a) == 1 and not kw:
            x = a[0]
            N = G.const(None)
            up = self.index(x, G.raw('slice', (G.const(1), N, N)), st)
            lo = self.index(x, G.raw('slice', (N, G.const(-1), N)), st)
            return G.raw('fn', a, 'diff', vn=G.arith_vn('-', up.vn, lo.vn))
        if c == 'concat2' and len(a) == 2:
            c, a = 'concatenate', [G.raw('tuple', a)]
        if c == 'concatenate' and a and islist(a[0]) is None:
            pass
        if c == 'str' and a and a[0].op == 'const' and isinstance(
                a[0].info, str):
            return a[0]
        if c == 'mkset' and len(a) == 1:
            x = strip(a[0])
            if x.op in ('list', 'tuple', 'set') and not x.kw:
                return G.raw('set', x.args)
        if c == 'map' and len(a) == 2 and a[0].op == 'ext' and \
                a[0].info in ('float', 'int', 'str'):
            if a[0].info == 'float':
                return G.wrap('list', a[1], True)
        if c == 'int' and len(a) == 1 and not kw:
            x = strip(a[0])
            if isconst(x) and isinstance(x.info, (int, float)):
                return G.const(int(x.info))
            if x.vn in G.intvn or x.op == 'fn' and x.info == 'sum' and \
                    len(x.args) == 1 and not x.kw and ismask(x.args[0]):
                return a[0]
        n = G.raw('fn', a, c, kw or None)
        if c in INTFN or (c == 'round' and len(a) == 1):
            if c != 'argmin' or True:
                G.intvn.add(n.vn)
        return n

    def quant(self, c, x):
        """any/all of an elementwise condition as one atom."""
        y = strip(x)
        if y.op == 'collect' and isconst(y.args[2]) and y.args[2].info:
            y = y.args[0] if True else y
            f = G.truth(y)
        else:
            f = G.truth(y) if y.op in ('bool', 'const', 'phi') else None
        if f is None:
            return G.atom(c, (y,))
        if f in (TRUE, FALSE):
            return f if c == 'all' else f
        # all(f) == not any(not f): one canonical atom
        if c == 'any':
            return G.b.NOT(self.allof(G.b.NOT(f)))
        return self.allof(f)

    def allof(self, f):
        # all(a & b) == all(a) and all(b)
        b = G.b
        parts = []
        rest = f
        for v in sorted(b.support(f)):
            for lit in (b.var(v), b.NOT(b.var(v))):
                if b.AND(rest, b.NOT(lit)) == FALSE and rest != lit:
                    parts.append(lit)
                    rest = b.restrict(rest, lit)
        parts.append(rest)
        r = TRUE
        for p in parts:
            if p == TRUE:
                continue
            r = b.AND(r, G.atom('all', (G.bool(p),)))
        return r

    def length(self, x, st):
        s = x
        while True:
            if s.op == 'wrap' and s.info != 'float':
                s = s.args[0]
            elif s.op == 'wrap':
                s = s.args[0]
            elif s.op == 'fn' and s.info in ('sort', 'argsort', 'abs', 'T2',
                                             'zeros_like', 'ones_like',
                                             'isfinite', 'enumerate',
                                             'reversed', 'full_like',
                                             'empty_like', 'sqrt', 'where3'):
                s = s.args[0]
            elif s.op == 'fn' and s.info == 'range' and len(s.args) == 1:
                s2 = s.args[0]
                return s2
            elif s.op == 'collect' and isconst(s.args[2]) and s.args[2].info:
                s = s.args[1]
            elif s.op == 'dyncall' and len(s.args) == 3 and \
                    strip(s.args[1]).op in ('fn', 'sub', 'wrap', 'field'):
                s = s.args[1]
            elif s.op == 'listrep' and len(s.args[0].args) == 1:
                return s.args[1]
            elif s.op == 'update':
                s = s.args[0]
            else:
                break
        if s.op in ('list', 'tuple') and not s.kw:
            return G.const(len(s.args))
        if s.op == 'const' and isinstance(s.info, str):
            return G.const(len(s.info))
        if s.op == 'dict':
            return G.const(len(s.args))
        if s.op == 'phi' and s is not x:
            pass
        if s.op == 'fn' and s.info == 'flatnonzero' and \
                ismask(s.args[0]) and strip(s.args[0]).op == 'bool':
            s = G.raw('sub', (s.args[0], strip(s.args[0])))
        if s.op == 'sub' and s.args[1].op == 'bool':
            n = G.raw('fn', (s.args[1],), 'sum')
            G.intvn.add(n.vn)
            return n
        if s.op == 'obj' or (s.cls and self.clsof(s)):
            try:
                m = self.prog.method(s.cls, '__len__')
                if st is not None:
                    return self.inline(m, [s], {}, st)
            except Exception:
                pass
        n = G.raw('fn', (s,), 'len')
        G.intvn.add(n.vn)
        return n

    # ---- method calls on values ---------------------------------------
    def method(self, x, name, args, kw, st, e):
        if x.op == 'phi':
            ls = G.leaves(x, st.pc)
            if any(isconst(l) and l.info is None for _, l in ls):
                for c, l in ls:
                    if isconst(l) and l.info is None:
                        self.use(l, st, 'method .' + name, c)
        else:
            if name not in ('__class__',):
                self.use(x, st, 'method .' + name)
        s = strip(x)
        # strings
        if s.op == 'const' and isinstance(s.info, str):
            try:
                if name in ('upper', 'lower', 'strip', 'split', 'format',
                            'startswith', 'endswith', 'replace', 'join',
                            'capitalize', 'title') and all(
                                isconst(a) for a in args) and not kw:
                    r = getattr(s.info, name)(*[a.info for a in args])
                    if isinstance(r, list):
                        return G.raw('list', [G.const(q) for q in r])
                    return G.const(r)
            except Exception:
                pass
            if name == 'format':
                return self.strformat(s.info, args, kw)
            if name == 'join':
                return G.raw('fn', (s,) + tuple(args), 'join')
        if s.op == 'dict':
            if name == 'get' and args:
                return self.dictget(s, args[0], st,
                                    args[1] if len(args) > 1
                                    else G.const(None))
            if name == 'items':
                return G.raw('list', [G.raw('tuple', (k, v)) for k, v in
                                      zip(s.info[0], s.args)])
            if name == 'keys':
                return G.raw('list', s.info[0])
            if name == 'values':
                return G.raw('list', s.args)
            if name == 'copy':
                return self.mkdict(list(s.info[0]), list(s.args))
        if s.op == 'dictcollect':
            if name == 'get' and args:
                return self.index(s, args[0], st)
            if name in ('items', 'keys', 'values'):
                return G.raw('fn', (s,), 'dict' + name)
        if name in LOGM and self.islogger(x):
            return G.const(None)
        if name in MUTATORS and not self.isextobj(x):
            return self.mutmethod(x, name, args, kw, st)
        if name in METH:
            return self.fn(METH[name], [x] + args, tuple(sorted(kw)), st)
        if name in WRAPM:
            kind, fresh = WRAPM[name]
            return G.wrap(kind, x, fresh)
        if name == 'astype' and args:
            return self.astype(x, args[0])
        if name == 'reshape':
            if len(args) == 1 and isconst(args[0]):
                return G.wrap('flat', x, False)
            if len(args) == 1 and args[0].op == 'un':
                return G.wrap('flat', x, False)
            return G.wrap('reshape', x, False)
        if name in ('difference', 'union', 'intersection') and \
                len(args) == 1:
            p, q = constset(s), constset(
                G.raw('fn', (args[0],), 'mkset')
                if strip(args[0]).op in ('list', 'tuple') else args[0])
            if p is not None and q is not None:
                return G.raw('set', [G.const(z) for z in sorted(
                    getattr(p, name)(q), key=repr)])
        if name == 'union' or name == 'intersection':
            return G.raw('fn', (x,) + tuple(args), name)
        if name == '__len__':
            return self.length(x, st)
        if name == 'index' or name == 'count':
            return G.raw('fn', (x,) + tuple(args), 'list' + name)
        if name == 'format':
            return G.raw('fn', (x,) + tuple(args), 'format')
        if name in ('issubset', 'issuperset', 'isdisjoint') and \
                len(args) == 1:
            p, q = constset(s), constset(
                G.raw('fn', (args[0],), 'mkset')
                if strip(args[0]).op in ('list', 'tuple') else args[0])
            if p is not None and q is not None:
                return G.const(getattr(p, name)(q))
        pure = name in ('split', 'lower', 'upper', 'strip', 'startswith',
                        'endswith', 'issubset', 'items', 'keys', 'values',
                        'get', 'find_simplex', 'join', 'replace', 'rstrip',
                        'lstrip', 'difference', 'isdisjoint', 'issuperset')
        ev = self.ev_add('mcall', st, x, name, args, kw)
        if pure:
            r = G.raw('mcall', [x] + args, name,
                      tuple(sorted(kw)) or None)
            if name in ('issubset', 'startswith', 'endswith', 'isdisjoint',
                        'issuperset'):
                r = G.bool(G.atom('truthy', (r,)))
        else:
            r = G.uniq('mcall', [x] + args, name, tuple(kw))
        ev.res = r
        return r

    def strformat(self, fmt, args, kw):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(G.const(lit))
                if field is not None:
                    if field == '':
                        x = args[auto]
                        auto += 1
                    elif field.isdigit():
                        x = args[int(field)]
                    else:
                        x = dict(kw)[field]
                    parts.append(x if not spec and not conv
                                 else G.raw('fn', (x,), 'format'))
        except Exception:
            return G.raw('fn', (G.const(fmt),) + tuple(args), 'format')
        r = None
        for p in parts:
            r = p if r is None else G.raw('concat', (r, p))
        return r if r is not None else G.const('')

    def islogger(self, x):
        if x.op == 'call' and x.info == 'logging.getLogger':
            return True
        if x.op in ('field', 'attr') and 'log' in x.info:
            return True
        if x.op == 'ext' and x.info == 'logging':
            return True
        if x.op == 'phi':
            return all(self.islogger(a) for a in x.args)
        return False

    def isextobj(self, x):
        s = strip(x)
        if s.op in ('call', 'mcall', 'rnd'):
            n = s.info or ''
            if s.op == 'call' and n.startswith('numpy'):
                return False
            return s.op == 'call' and not n.startswith('scipy') or \
                s.op == 'mcall'
        if s.op == 'sub':
            return self.isextobj(s.args[0])
        if s.op == 'attr':
            return self.isextobj(s.args[0])
        if s.op == 'ext':
            return True
        return False

    def mutmethod(self, x, name, args, kw, st):
        ret = G.const(None)
        if name == 'append' and args:
            if x.op == 'list' and not self.in_loop_object(x) and not x.kw:
                new = G.raw('list', x.args + (args[0],))
            else:
                new = G.raw('append', (x, args[0]))
            new.extra = x.extra if x.extra else (
                'list' if islist(x) else None)
        elif name in ('extend', '__iadd__') and args:
            y = strip(args[0])
            if x.op == 'list' and not x.kw and y.op in ('list', 'tuple') \
                    and not y.kw:
                new = G.raw('list', x.args + y.args)
            else:
                new = G.raw('extend', (x, args[0]))
                new.extra = 'list'
        elif name == 'clear':
            new = G.raw('dict', (), DKeys(())) if x.op == 'dict' \
                else G.raw('list', ())
        elif name == 'sort':
            new = self.fn('sort', [x] + args, tuple(kw), st)
        elif name == 'reverse':
            new = G.raw('fn', (x,), 'reversed')
        elif name == 'fill':
            new = G.raw('update', (x, G.raw('slice', [G.const(None)] * 3),
                                   args[0]))
        elif name in ('update', 'setdefault') and x.op == 'dict':
            if name == 'update':
                K, V = list(x.info[0]), list(x.args)
                d = strip(args[0]) if args else None
                if d is not None and d.op == 'dict':
                    K += list(d.info[0])
                    V += list(d.args)
                for k, v in kw:
                    K.append(G.const(k))
                    V.append(v)
                new = self.mkdict(K, V)
            else:
                new = G.uniq('unknown', (x,) + tuple(args))
        else:
            new = G.raw('mut', (x,) + tuple(args), name)
            if name in ('pop', 'popitem', 'setdefault'):
                ret = G.raw('sub', (x, args[0] if args else G.const(-1)))
        if x.op == 'attr' and x.info == '__dict__':
            self.ev_add('havoc', st, x.args[0], '__dict__')
        self.mutate(st, x, new, '.' + name, None,
                    args[0] if args else None)
        return ret

    def in_loop_object(self, x):
        return False

    # ---- comprehensions ------------------------------------------------
    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, 'list')

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, 'list')

    def e_SetComp(self, e, st, fr):
        return G.raw('fn', (self.comp(e, st, fr, 'list'),), 'mkset')

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, 'dict')

    def comp(self, e, st, fr, kind):
        f2 = Frame(None, fr.mod, parent=fr, name=fr.name)
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    f2.locals.add(n.id)
        r = self.comp_gen(e, list(e.generators), st, f2, kind, [], fr)
        for k in [k for k in st.s if k[0] == 'v' and k[1] == f2.id]:
            del st.s[k]
        return r

    def comp_gen(self, e, gens, st, fr, kind, outer, ofr):
        g = gens[0]
        it = self.ev(g.iter, st, fr)
        lits = self.literal_iter(it)
        if lits is not None and len(gens) == 1 and len(lits) <= 24:
            out = []
            conds = []
            for x in lits:
                s = st.copy()
                self.assign(g.target, x, s, fr)
                c = TRUE
                for i in g.ifs:
                    t = G.truth(self.ev(i, s, fr))
                    c = G.b.AND(c, t)
                    s.pc = G.b.AND(s.pc, t)
                    if s.pc == FALSE:
                        break
                conds.append(c)
                if c == FALSE:
                    continue
                if kind == 'dict':
                    out.append((self.ev(e.key, s, fr),
                                self.ev(e.value, s, fr)))
                else:
                    out.append(self.ev(e.elt, s, fr))
            if all(c in (TRUE, FALSE) for c in conds):
                if kind == 'dict':
                    return self.mkdict([k for k, _ in out],
                                       [v for _, v in out])
                return G.raw('list', out)
        self.use(it, st, 'iterated')
        L = Loop('comp', len(self.loops), e.lineno, fr.name)
        self.allloops.append(L)
        L.entry_pc = st.pc
        self.setspace(L, it)
        self.loops.append(L)
        s = st.copy()
        try:
            self.assign(g.target, self.element(it, L, s), s, fr)
            cond = TRUE
            for i in g.ifs:
                t = G.truth(self.ev(i, s, fr))
                cond = G.b.AND(cond, t)
                s.pc = G.b.AND(s.pc, t)
            L.body_pc = s.pc
            if len(gens) > 1:
                inner = self.comp_gen(e, gens[1:], s, fr, kind, outer, ofr)
                r = G.raw('collectcat', (inner, L.space, G.bool(cond)), L,
                          vn=G.intern(('collectcat', L.depth, inner.vn,
                                       L.space.vn, cond)))
                return r
            if kind == 'dict':
                k = self.ev(e.key, s, fr)
                v = self.ev(e.value, s, fr)
                return self.mkdictcollect(L, k, v, cond)
            v = self.ev(e.elt, s, fr)
            return self.mkcollect(L, v, cond, 'list')
        finally:
            self.loops.pop()

    def mkcollect(self, L, elem, cond, kind):
        # [x for x in xs] has the same value as xs
        if cond == TRUE and elem.op == 'sub' and elem.args[1] is L.iota \
                and elem.args[0].vn == L.space.vn:
            n = G.wrap('list', elem.args[0], True)
            return n
        # [x for x, m in zip(xs, mask) if m] is the selection xs[mask]
        if cond != TRUE and cond != FALSE:
            it = strip(L.iter) if getattr(L, 'iter', None) is not None \
                else None
            if it is not None and it.op == 'fn' and it.info == 'zip':
                for m in it.args:
                    if strip(m).op == 'bool' and G.truth(self.index(
                            strip(m), L.iota)) == cond:
                        for x in it.args:
                            if strip(x).op not in ('bool', 'list', 'tuple') \
                                    and self.index(x, L.iota).vn == elem.vn:
                                return G.wrap('list', self.index(
                                    strip(x), strip(m)), True)
        n = G.raw('collect', (elem, L.space, G.bool(cond)), L,
                  vn=G.intern(('collect', L.depth, elem.vn, L.space.vn,
                               cond)))
        n.extra = kind
        return n

    def mkdictcollect(self, L, k, v, cond):
        n = G.raw('dictcollect', (k, v, L.space, G.bool(cond)), L,
                  vn=G.intern(('dictcollect', L.depth, k.vn, v.vn,
                               L.space.vn, cond)))
        return n

    # ---- iteration -----------------------------------------------------
    def literal_iter(self, it):
        s = strip(it)
        if s.op in ('list', 'tuple') and not s.kw:
            return list(s.args)
        if s.op == 'set' and not s.kw:
            return list(s.args)
        if s.op == 'dict':
            return list(s.info[0])
        if s.op == 'fn' and s.info == 'zip':
            ls = [self.literal_iter(a) for a in s.args]
            if ls and all(l is not None for l in ls):
                return [G.raw('tuple', t) for t in zip(*ls)]
        if s.op == 'fn' and s.info == 'enumerate' and len(s.args) == 1:
            l = self.literal_iter(s.args[0])
            if l is not None:
                return [G.raw('tuple', (G.const(i), x))
                        for i, x in enumerate(l)]
        if s.op == 'fn' and s.info == 'range' and all(
                isconst(a) and isinstance(a.info, int) for a in s.args):
            r = range(*[a.info for a in s.args])
            if len(r) <= 8:
                return [G.const(i) for i in r]
        return None

    def space(self, it):
        s = strip(it)
        if s.op == 'fn':
            if s.info == 'enumerate':
                return self.space(s.args[0])
            if s.info == 'zip' and s.args:
                return self.space(s.args[0])
            if s.info == 'range' and len(s.args) == 1:
                n = s.args[0]
                if n.op == 'fn' and n.info == 'len':
                    return self.space(n.args[0])
            if s.info in ('dictitems', 'dictkeys', 'dictvalues'):
                return self.space(s.args[0])
        if s.op == 'dictcollect':
            return s.args[2]
        return s

    def setspace(self, L, it):
        L.space = self.space(it)
        L.iter = it
        L.iota = G.raw('iota', (L.space,), L,
                       vn=G.intern(('iota', L.depth, L.space.vn)))
        G.intvn.add(L.iota.vn)

    def rangeel(self, s, i):
        a = s.args
        if len(a) == 1:
            return i
        if len(a) == 2:
            return G.bin('+', a[0], i)
        return G.bin('+', a[0], G.bin('*', i, a[2]))

    def element(self, it, L, st):
        s = strip(it)
        if s.op == 'fn':
            if s.info == 'range':
                return self.rangeel(s, L.iota)
            if s.info == 'enumerate':
                i = L.iota
                if len(s.args) > 1:
                    i = G.bin('+', i, s.args[1])
                return G.raw('tuple', (i, self.element(s.args[0], L, st)))
            if s.info == 'zip':
                return G.raw('tuple', [self.element(a, L, st)
                                       for a in s.args])
            if s.info == 'product':
                out = []
                for k, a in enumerate(s.args):
                    io = G.raw('iota', (self.space(a),), L,
                               vn=G.intern(('iotap', L.depth, k,
                                            self.space(a).vn)))
                    out.append(self.index(a, io, st))
                return G.raw('tuple', out)
            if s.info == 'dictitems':
                d = s.args[0]
                return G.raw('tuple', (d.args[0], d.args[1]))
            if s.info == 'dictkeys':
                return s.args[0].args[0]
            if s.info == 'dictvalues':
                return s.args[0].args[1]
        if s.op == 'dictcollect':
            return s.args[0]
        if s.op == 'phi':
            return self.index(s, L.iota, st)
        return self.index(s, L.iota, st)

    def run_loop(self, L, st, fr, body, orelse):
        entry = st.copy()
        L.entry_pc = st.pc
        self.allloops.append(L)
        live = set()
        f = fr
        while f is not None:
            live.add(f.id)
            f = f.parent
        mus = {}
        self.loops.append(L)
        nret = len(fr.returns)
        nev = len(self.events)
        ntry = [len(t['raised']) for t in self.trys]
        nyield = len(getattr(fr, 'yields', []))
        nall = len(self.allloops)
        born = G.n
        try:
            for it in range(8):
                head = entry.copy()
                head.s.update(mus)
                L.breaks, L.conts = [], []
                del fr.returns[nret:]
                del self.events[nev:]
                del self.allloops[nall:]
                if hasattr(fr, 'yields'):
                    del fr.yields[nyield:]
                for t, n in zip(self.trys, ntry):
                    del t['raised'][n:]
                h0 = dict(head.s)
                end = body(head.copy())
                ends = L.conts + ([end] if end is not None else [])
                new = {}
                inner = {}
                for s in ends + L.breaks:
                    for k, v in s.s.items():
                        if k[0] == 'o' and G.vn_node[k[1]].op in (
                                'obj', 'call', 'mcall', 'unknown') \
                                and G.vn_node[k[1]].uid > born:
                            inner[k] = v
                for s in ends:
                    for k, v in s.s.items():
                        if k in mus or k in inner:
                            continue
                        o = h0.get(k)
                        if o is None:
                            if k[0] == 'v':
                                if k[1] not in live:
                                    continue
                                o = self.unbound()
                            else:
                                o = self.initial(k)
                        if v is not o:
                            new.setdefault(k, (o, []))[1].append(v)
                # in-place changes on the way to a break also count
                for s in L.breaks:
                    for k, v in s.s.items():
                        if k in mus or k in new:
                            continue
                        o = h0.get(k)
                        if o is not None and k[0] == 'v' and \
                                k[1] in live and v is not o and False:
                            new[k] = (o, [v])
                if not new:
                    break
                groups = {}
                for k, (o, vs) in new.items():
                    g = (id(o) if o.op != 'unbound' else id(k),
                         tuple(id(v) for v in vs))
                    m = groups.get(g)
                    if m is None:
                        m = G.uniq('mu', (o,), L, cls=o.cls)
                        if islist(o):
                            m.extra = 'list'
                        groups[g] = m
                    mus[k] = m
            else:
                self.note('loop did not stabilise')
        finally:
            self.loops.pop()
        L.outs = [(k, St(dict(x.s), x.pc)) for k, xs in (
            ('end', ends), ('break', L.breaks)) for x in xs]
        nxt = self.merge(ends) if ends else None
        L.end_pc = nxt.pc if nxt is not None else FALSE
        L.mus = mus
        seen = {}
        for k, m in mus.items():
            m.next = nxt.s.get(k) if nxt is not None else None
            if m.next is None:
                m.next = m
        # leaving the loop at its head
        out = head.copy(entry.pc)
        for k, v in inner.items():
            out.s.setdefault(k, v)
        if L.kind == 'while':
            out.pc = G.b.AND(out.pc, G.b.NOT(L.test))
            if L.test == TRUE:
                out.pc = FALSE
        rets = fr.returns[nret:]
        if rets:
            ra = G.fresh_atom('ret', L.line)
            for i, (s, v) in enumerate(rets):
                s.pc = G.b.AND(G.b.AND(entry.pc, ra), s.pc)
            out.pc = G.b.AND(out.pc, G.b.NOT(ra))
        if not L.breaks:
            rep = {}
            for k, m in mus.items():
                if m not in rep:
                    rep[m] = self.accumulate(L, m)
                if rep[m] is not m and out.s.get(k) is m:
                    out.s[k] = rep[m]
            for k, v in list(out.s.items()):
                if v.op in ('phi', 'tuple', 'list', 'wrap'):
                    for m, r in rep.items():
                        if r is not m:
                            self.replace(out, m, r)
                    break
        if out.pc != FALSE and orelse:
            out = self.block(orelse, out, fr)
        elif out.pc == FALSE:
            out = None
        if L.breaks:
            ba = G.fresh_atom('brk', L.line)
            L.brk = ba
            bs = []
            inner = FALSE
            for s in L.breaks:
                inner = G.b.OR(inner, s.pc)
            m = self.merge(L.breaks)
            L.brk_pc = inner
            m.pc = G.b.AND(entry.pc, ba)
            if out is not None:
                out.pc = G.b.AND(out.pc, G.b.NOT(ba))
                out = self.merge([m, out])
            else:
                # the loop is only left where it breaks
                m.pc = G.b.AND(entry.pc, inner) if not rets else entry.pc
                out = m
        if out is None:
            return None
        # drop loop-local frames' leftovers
        return out

    def accumulate(self, L, m):
        """The closed form of a loop-carried value, where it has one."""
        n, init = m.next, m.args[0]
        if L.space is None or n is None:
            return m
        gate, upd = TRUE, n
        hops = 0
        while upd.op == 'phi' and hops < 6:
            hops += 1
            a, b = upd.args
            if b is m:
                gate, upd = G.b.AND(gate, upd.info), a
            elif a is m:
                gate, upd = G.b.AND(gate, G.b.NOT(upd.info)), b
            else:
                break
        i0 = strip(init)
        if upd.op == 'phi' and hops:
            pass
        if upd.op == 'phi' and all(
                x.op == 'append' and x.args[0] is m for x in upd.args):
            g = upd.info
            el = G.phi(g, upd.args[0].args[1], upd.args[1].args[1])
            upd = G.raw('append', (m, el))
        if n.op == 'phi' and not (upd.op == 'append' and
                                  upd.args[0] is m):
            t = self.appended(n, m)
            if t is not None and t[1] is not None:
                gate, upd = t[0], G.raw('append', (m, t[1]))
        if upd.op == 'append' and upd.args[0] is m:
            el = upd.args[1]
            if self.mentions(el, m):
                return m
            c = self.mkcollect(L, el, gate, 'list')
            return c if i0.op == 'list' and not i0.args else \
                G.raw('concat', (init, c))
        if upd.op == 'concat' and upd.args[0] is m and \
                strip(upd.args[1]).op == 'list' and \
                len(strip(upd.args[1]).args) == 1:
            c = self.mkcollect(L, strip(upd.args[1]).args[0], gate, 'list')
            return c if i0.op == 'list' and not i0.args else \
                G.raw('concat', (init, c))
        if upd.op in ('extend', 'concat') and upd.args[0] is m and \
                not self.mentions(upd.args[1], m):
            x = upd.args[1]
            c = G.raw('collectcat', (x, L.space, G.bool(gate)), L,
                      vn=G.intern(('collectcat', L.depth, x.vn,
                                   L.space.vn, gate)))
            c.extra = 'list'
            return c if i0.op == 'list' and not i0.args else \
                G.raw('concat', (init, c))
        if upd.op == 'update' and upd.args[0] is m:
            k, v = upd.args[1], upd.args[2]
            if self.mentions(v, m):
                return m
            if k.vn == L.iota.vn and (
                    i0.op == 'fn' and i0.info in (
                        'zeros_like', 'ones_like', 'zeros', 'ones', 'empty',
                        'empty_like', 'full') or i0.op == 'listrep'):
                el = v if gate == TRUE else G.phi(
                    gate, v, G.raw('sub', (init, L.iota)))
                c = self.mkcollect(L, el, TRUE, 'array')
                return c
            if (i0.op == 'dict' and not i0.args) or (
                    i0.op == 'fn' and i0.info == 'mkdict' and not i0.args):
                return self.mkdictcollect(L, k, v, gate)
        return m

    def appended(self, n, m, d=0):
        """(when, what) a tree of cases appends to m; None: other cases."""
        if n is m:
            return FALSE, None
        if n.op == 'append' and n.args[0] is m:
            return TRUE, n.args[1]
        if n.op != 'phi' or d > 12:
            return None
        a = self.appended(n.args[0], m, d + 1)
        b = a and self.appended(n.args[1], m, d + 1)
        if not b:
            return None
        g = G.b.ite(n.info, a[0], b[0])
        if a[1] is None or b[1] is None:
            return g, a[1] or b[1]
        return g, G.phi(n.info, a[1], b[1])

    def mentions(self, n, m, depth=0):
        seen = set()

        def go(x):
            if x is m:
                return True
            if x.uid in seen:
                return False
            seen.add(x.uid)
            if x.op == 'mu':
                return False
            return any(go(a) for a in x.args)
        return go(n)

    # ---- statements ----------------------------------------------------
    def block(self, body, st, fr):
        for s in body:
            if st is None or st.pc == FALSE:
                return None
            G.site = (s.lineno, fr.name)
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.note('statement ' + type(s).__name__)
                continue
            st = m(s, st, fr)
        if st is not None and st.pc == FALSE:
            return None
        return st

    def s_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        elif isinstance(t, ast.Attribute):
            x = self.ev(t.value, st, fr)
            G.site = (t.lineno, fr.name)
            self.use(x, st, 'attribute store .' + t.attr)
            self.setattr_(x, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            x = self.ev(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            G.site = (t.lineno, fr.name)
            self.setitem(x, i, v, st)
        else:
            self.note('assignment target')

    def setitem(self, x, i, v, st):
        if x.op == 'attr' and x.info == '__dict__':
            if isconst(i):
                self.setattr_(x.args[0], i.info, v, st)
            else:
                self.ev_add('havoc', st, x.args[0], '__dict__')
            return
        self.use(x, st, 'item assignment')
        i = self.normidx(i)
        if x.op == 'dict' and all(isconst(k) for k in x.info[0]) and \
                isconst(i):
            new = self.mkdict(list(x.info[0]) + [i], list(x.args) + [v])
        elif x.op == 'list' and isconst(i) and isinstance(i.info, int) and \
                -len(x.args) <= i.info < len(x.args) and not x.kw:
            a = list(x.args)
            a[i.info] = v
            new = G.raw('list', a)
        elif fullslice(i) and islist(v):
            new = v if v.op != 'wrap' else strip(v)
            new = G.wrap('slot', v, True)
        else:
            new = G.raw('update', (x, i, v))
        self.mutate(st, x, new, '[]=', i, v)

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        s = strip(v)
        stars = [k for k, x in enumerate(t.elts)
                 if isinstance(x, ast.Starred)]
        self.use(v, st, 'unpacked')
        if not stars:
            if s.op in ('tuple', 'list') and not s.kw and \
                    len(s.args) != n and v.op != 'phi':
                self.ev_add('unpack', st, v, None, n, len(s.args))
            for c, l in (G.leaves(v, st.pc) if s.op == 'phi' else ()):
                q = strip(l)
                if q.op == 'tuple' and len(q.args) != n:
                    self.ev_add('unpack', st.copy(c), v, None, n,
                                len(q.args))
            for k, x in enumerate(t.elts):
                self.assign(x, self.index(v, G.const(k), st), st, fr)
        else:
            k0 = stars[0]
            after = n - k0 - 1
            for k, x in enumerate(t.elts):
                if k < k0:
                    self.assign(x, self.index(v, G.const(k), st), st, fr)
                elif k == k0:
                    self.assign(x.value, self.index(v, G.raw('slice', (
                        G.const(k), G.const(-after if after else None),
                        G.const(None))), st), st, fr)
                else:
                    self.assign(x, self.index(v, G.const(k - n), st), st, fr)

    def s_AugAssign(self, s, st, fr):
        op = self.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            x = self.lookup(t.id, st, fr, t)
            v = self.ev(s.value, st, fr)
            r = self.augval(op, x, v, st)
            if self.inplace(x, op, v):
                self.mutate(st, x, r, op + '=', None, v)
            self.assign_name(t.id, r, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            x = self.getattr_(o, t.attr, st)
            v = self.ev(s.value, st, fr)
            G.site = (t.lineno, fr.name)
            r = self.augval(op, x, v, st)
            if self.inplace(x, op, v):
                self.mutate(st, x, r, op + '=', None, v)
            self.setattr_(o, t.attr, r, st)
        else:
            o = self.ev(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            G.site = (t.lineno, fr.name)
            self.use(o, st, 'subscripted')
            x = self.index(o, i, st)
            v = self.ev(s.value, st, fr)
            self.setitem(o, i, self.augval(op, x, v, st), st)
        return st

    def augval(self, op, x, v, st):
        if op == '+' and (islist(x) or x.op in ('list', 'collect')):
            y = strip(v)
            if x.op == 'list' and not x.kw and y.op in ('list', 'tuple'):
                return G.raw('list', x.args + y.args)
            n = G.raw('extend', (x, v))
            n.extra = 'list'
            if y.op in ('list', 'tuple') and len(y.args) == 1:
                n = G.raw('append', (x, y.args[0]))
                n.extra = 'list'
            return n
        return self.binop(op, x, v, st)

    def inplace(self, x, op, v):
        """Does `x op= v` change an object others may hold?"""
        s = x
        if s.op == 'const' or s.op == 'iota' or s.op == 'unbound':
            return False
        if s.op in ('bool',):
            return False
        if s.op == 'mu':
            return self.inplace(s.args[0], op, v)
        if s.op == 'phi':
            return any(self.inplace(a, op, v) for a in s.args)
        vs = strip(v)
        if op == '+' and vs.op in ('const', 'concat', 'fn') and \
                G.seqlike(vs) and not islist(vs):
            return False
        if s.op == 'param':
            return self.arrays.get(s.info, False)
        if s.op == 'fn' and s.info in ('len', 'sum', 'max', 'min', 'mean',
                                       'ptp', 'std', 'int', 'argmin',
                                       'argmax', 'maximum', 'minimum',
                                       'str', 'format', 'nansum', 'nanmax'):
            return False
        if s.op == 'sub' and not isview(s) and s.args[1].op in (
                'const', 'iota'):
            return False
        if s.op == 'field':
            return True
        if s.op == 'wrap' and s.info == 'float' and x.args[0].op == 'const':
            return False
        return True

    def s_If(self, s, st, fr):
        c = G.truth(self.ev(s.test, st, fr))
        p1 = G.b.AND(st.pc, c)
        p2 = G.b.AND(st.pc, G.b.NOT(c))
        if not G.sat(p1):
            if p1 != FALSE:
                st.pc = p2
            return self.block(s.orelse, st, fr)
        if not G.sat(p2):
            if p2 != FALSE:
                st.pc = p1
            return self.block(s.body, st, fr)
        a = self.block(s.body, st.copy(p1), fr)
        b = self.block(s.orelse, st.copy(p2), fr)
        return self.merge([a, b])

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        lits = self.literal_iter(it)
        if lits is not None and len(lits) <= 24:
            return self.unroll(s, lits, st, fr)
        q = strip(it)
        if q.op == 'phi':
            ls = G.leaves(it, st.pc)
            if any(self.literal_iter(l) is not None and
                   self.literal_iter(l) for _, l in ls) and len(ls) <= 4:
                outs = []
                for c, l in ls:
                    outs.append(self.for_over(s, l, st.copy(c), fr))
                return self.merge(outs)
        return self.for_over(s, it, st, fr)

    def for_over(self, s, it, st, fr):
        lits = self.literal_iter(it)
        if lits is not None and len(lits) <= 24:
            return self.unroll(s, lits, st, fr)
        self.use(it, st, 'iterated')
        L = Loop('for', len(self.loops), s.lineno, fr.name)
        L.ast = s
        self.setspace(L, it)

        def body(h):
            self.assign(s.target, self.element(it, L, h), h, fr)
            L.body_pc = h.pc
            fr_loop = getattr(fr, 'loopctx', None)
            fr.loopctx = L
            try:
                return self.block(s.body, h, fr)
            finally:
                fr.loopctx = fr_loop
        return self.run_loop(L, st, fr, body, s.orelse)

    def unroll(self, s, lits, st, fr):
        class U:
            pass
        brk = []
        old = getattr(fr, 'loopctx', None)
        for x in lits:
            if st is None:
                break
            U.breaks, U.conts = [], []
            u = Loop('unroll', len(self.loops), s.lineno, fr.name)
            fr.loopctx = u
            self.assign(s.target, x, st, fr)
            end = self.block(s.body, st, fr)
            brk += u.breaks
            st = self.merge(u.conts + [end])
        fr.loopctx = old
        if st is not None and s.orelse:
            st = self.block(s.orelse, st, fr)
        return self.merge(brk + [st])

    def s_While(self, s, st, fr):
        L = Loop('while', len(self.loops), s.lineno, fr.name)
        L.ast = s

        def body(h):
            c = G.truth(self.ev(s.test, h, fr))
            L.test = c
            h.pc = G.b.AND(h.pc, c)
            L.body_pc = h.pc
            if h.pc == FALSE:
                return None
            old = getattr(fr, 'loopctx', None)
            fr.loopctx = L
            try:
                return self.block(s.body, h, fr)
            finally:
                fr.loopctx = old
        return self.run_loop(L, st, fr, body, s.orelse)

    def s_Break(self, s, st, fr):
        L = getattr(fr, 'loopctx', None)
        if L is not None:
            L.breaks.append(st)
        return None

    def s_Continue(self, s, st, fr):
        L = getattr(fr, 'loopctx', None)
        if L is not None:
            L.conts.append(st)
        return None

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value else G.const(None)
        G.site = (s.lineno, fr.name)
        if len(self.stack) == 1:
            e = self.ev_add('return', st, v)
            e.slots = dict(st.s)
        fr.returns.append((st, v))
        return None

    def raise_(self, st, typ, node=None):
        e = self.ev_add('raise', st, node, typ)
        e.slots = dict(st.s)
        for t in reversed(self.trys):
            if t['types'] is None or typ in t['types'] or (
                    'Exception' in t['types']) or any(
                        self.subexc(typ, x) for x in t['types']):
                e.caught = t
                t['raised'].append(st)
                return e
        return e

    def subexc(self, a, b):
        A, B = getattr(builtins, a or '', None), getattr(builtins, b, None)
        try:
            return issubclass(A, B)
        except TypeError:
            return False

    def s_Raise(self, s, st, fr):
        typ = None
        n = None
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            n = self.ev(s.exc, st, fr)
            typ = x.attr if isinstance(x, ast.Attribute) else getattr(
                x, 'id', None)
        G.site = (s.lineno, fr.name)
        if st.pc != FALSE:
            self.raise_(st, typ, n)
        return None

    def s_Assert(self, s, st, fr):
        c = G.truth(self.ev(s.test, st, fr))
        G.site = (s.lineno, fr.name)
        bad = st.copy(G.b.AND(st.pc, G.b.NOT(c)))
        if G.sat(bad.pc):
            e = self.raise_(bad, 'AssertionError')
            e.c = 'assert'
        self.ev_add('assert', st, G.bool(c))
        st.pc = G.b.AND(st.pc, c)
        return st if st.pc != FALSE else None

    def s_Try(self, s, st, fr):
        types = []
        broad = False
        for h in s.handlers:
            if h.type is None:
                broad = True
            else:
                for x in (h.type.elts if isinstance(h.type, ast.Tuple)
                          else [h.type]):
                    nm = x.attr if isinstance(x, ast.Attribute) else getattr(
                        x, 'id', '?')
                    types.append(nm)
                    if nm in ('Exception', 'BaseException', 'TypeError',
                              'AttributeError'):
                        broad = True
        T = {'types': None if not s.handlers or any(
            h.type is None for h in s.handlers) else types,
            'raised': [], 'broad': broad, 'line': s.lineno}
        before = st.copy()
        if s.handlers:
            self.trys.append(T)
        nev = len(self.events)
        try:
            after = self.block(s.body, st, fr)
        finally:
            if s.handlers:
                self.trys.pop()
        outs = []
        if s.handlers:
            for h in s.handlers:
                if h.type is not None and ast.unparse(h.type) in (
                        'ImportError', 'ModuleNotFoundError'):
                    continue        # the dependencies are installed
                nm = 'any' if h.type is None else ast.unparse(h.type)
                exc = G.fresh_atom('exc', nm)
                hs = before.copy(G.b.AND(before.pc, exc))
                if after is not None:
                    pos = G.fresh_atom('excpos', nm)
                    a2 = after.copy(G.b.AND(hs.pc, pos))
                    hs.pc = G.b.AND(hs.pc, G.b.NOT(pos))
                    hs = self.merge([hs, a2])
                    hs.pc = G.b.AND(before.pc, exc)
                if T['raised']:
                    rs = self.merge([r.copy() for r in T['raised']])
                    hs = self.merge([hs, rs])
                if h.name:
                    self.assign_name(h.name, G.uniq('unknown', (), 'exc'),
                                     hs, fr)
                T2 = self.block(h.body, hs, fr)
                if T2 is not None:
                    outs.append(T2)
                if after is not None:
                    after.pc = G.b.AND(after.pc, G.b.NOT(exc))
        if after is not None and s.orelse:
            after = self.block(s.orelse, after, fr)
        r = self.merge(([after] if after is not None else []) + outs)
        if s.finalbody:
            if r is not None:
                r = self.block(s.finalbody, r, fr)
            else:
                self.block(s.finalbody, before.copy(), fr)
        return r

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.block(s.body, st, fr)

    def s_Import(self, s, st, fr):
        for name, t in import_targets(s, self.prog):
            if t[0] == 'ext':
                v = G.raw('ext', (), t[1])
            else:
                r = None
                if t[0] == 'mod' and t[1] in self.prog.mods:
                    r = self.prog.mods[t[1]]
                elif t[0] == 'name' and t[1] in self.prog.mods:
                    r = self.prog.resolve(self.prog.mods[t[1]], t[2])
                elif t[0] == 'mod' and '__init__' in self.prog.mods:
                    r = self.prog.resolve(self.prog.mods['__init__'], t[1])
                if isinstance(r, Mod):
                    v = G.raw('module', (), r)
                elif isinstance(r, Func):
                    v = G.raw('func', (), r)
                elif isinstance(r, Cls):
                    v = G.raw('class', (), r)
                else:
                    v = G.uniq('unknown', (), name)
            self.assign_name(name, v, st, fr)
        return st

    s_ImportFrom = s_Import

    def s_Global(self, s, st, fr):
        return st

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st, fr):
        f = Func(fr.mod, s)
        f.name = s.name
        fr.keep = True
        n = G.uniq('lambda', (), f)
        n.extra = fr
        self.assign_name(s.name, n, st, fr)
        return st

    def s_ClassDef(self, s, st, fr):
        self.assign_name(s.name, G.uniq('unknown', (), s.name), st, fr)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.assign_name(t.id, self.unbound(), st, fr)
            elif isinstance(t, ast.Subscript):
                x = self.ev(t.value, st, fr)
                i = self.ev(t.slice, st, fr)
                G.site = (t.lineno, fr.name)
                whole = i.op == 'slice' and all(
                    isconst(q) and q.info is None for q in i.args)
                self.mutate(st, x, G.raw('list', ()) if whole else
                            G.raw('mut', (x, i), 'del'), 'del []', i)
            elif isinstance(t, ast.Attribute):
                x = self.ev(t.value, st, fr)
                self.setattr_(x, t.attr, self.unbound(), st)
        return st

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)
        outs = []
        rest = st
        for c in s.cases:
            if rest is None or rest.pc == FALSE:
                break
            f = self.pattern(c.pattern, subj, rest, fr)
            s1 = rest.copy(G.b.AND(rest.pc, f))
            self.bindpat(c.pattern, subj, s1, fr)
            if c.guard is not None:
                g = G.truth(self.ev(c.guard, s1, fr))
                f = G.b.AND(f, g)
                s1.pc = G.b.AND(s1.pc, g)
            if G.sat(s1.pc):
                outs.append(self.block(c.body, s1, fr))
            rest = rest.copy(G.b.AND(rest.pc, G.b.NOT(f)))
            if not G.sat(rest.pc):
                rest = None
        return self.merge([o for o in outs if o] + ([rest] if rest else []))

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return G.cmp('==', subj, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return G.cmp('is', subj, G.const(p.value))
        if isinstance(p, ast.MatchAs):
            return TRUE if p.pattern is None else self.pattern(
                p.pattern, subj, st, fr)
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                r = G.b.OR(r, self.pattern(q, subj, st, fr))
            return r
        if isinstance(p, ast.MatchClass) and not p.patterns:
            return G.isinst(subj, self.typenames(self.ev(p.cls, st, fr)))
        return G.atom('match', (subj,), ast.dump(p))

    def bindpat(self, p, subj, st, fr):
        if isinstance(p, ast.MatchAs) and p.name:
            self.assign_name(p.name, subj, st, fr)


class DKeys(tuple):
    """Keys of a dict literal (kept in Node.info)."""
    def __new__(cls, ks):
        return tuple.__new__(cls, (tuple(ks),))

    def __hash__(self):
        return hash(tuple(k.vn for k in self[0]))

    def __eq__(self, o):
        return [k.vn for k in self[0]] == [k.vn for k in o[0]]


def isview(n):
    """May this subscript share memory with its base (numpy views)?"""
    if n.op == 'fn':
        return n.info in ('T', 'swapaxes')
    if n.op != 'sub':
        return False
    i = n.args[1]
    if i.op == 'slice':
        return True
    if i.op == 'tuple':
        return all(x.op in ('slice', 'const', 'iota') for x in i.args) and \
            any(x.op == 'slice' for x in i.args)
    return False


def isarray(x):
    """A list or tuple made into an array."""
    while x.op == 'wrap':
        if x.info in ('array', 'asarray'):
            return True
        if x.info in ('list', 'tuple'):
            return False
        x = x.args[0]
    return False


def ismask(n):
    s = strip(n)
    if s.op == 'bool':
        return True
    if s.op == 'phi':
        return all(ismask(a) for a in s.args)
    return s.op == 'const' and isinstance(s.info, bool)


def fullslice(n):
    return n.op == 'slice' and all(isconst(a) and a.info is None
                                   for a in n.args)
