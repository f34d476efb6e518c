"""C18: every name and attribute is defined before it is read."""
import ast

from ..core import G, FALSE
from ..entry import Run
from ..front import Func
from ..q import runs


def reads(an, R):
    for f, r in runs(an):
        n = 0
        for e in r.events:
            if e.kind in ('unbound', 'maybe-unbound', 'noattr'):
                n += 1
                what = {'noattr': 'attribute %s of %s that no constructor '
                        'sets' % (e.name, e.a.cls if e.a is not None else ''),
                        }.get(e.kind, '%s name %r' % (e.c or '', e.name))
                cond = G.bshow(e.b if isinstance(e.b, int) else e.pc, 2)
                R.bad('defined-before-use', '%r' % e.name,
                      'reads %s without a value when %s' % (what, cond), e)
        if not n:
            R.ok('defined-before-use', f.full, '%d events, %d calls inlined'
                 % (len(r.events), len(r.it.visited)))


def constructed(an, R):
    """Every attribute is set on every path through the constructor."""
    for c, r in an.inits.items():
        for a in r.stored():
            v = r.final(a)
            u, w = r.it.unbcond(v)
            if G.sat(G.b.AND(r.end.pc, u)):
                R.bad('set-by-constructor', '%s.%s' % (c, a),
                      'not set by the constructor when %s' % G.bshow(u, 2),
                      at=r.name)
            else:
                R.ok('set-by-constructor', '%s.%s' % (c, a), '')


def modules(an, R):
    """Code run when a module is imported."""
    for m in an.prog.mods.values():
        fn = ast.parse('def module():\n pass').body[0]
        fn.body = list(m.tree.body)
        r = Run(an, Func(m, fn))
        an.allruns.pop()
        n = 0
        for e in r.events:
            if e.kind in ('unbound', 'maybe-unbound') and \
                    e.name not in ('__name__', '__file__', '__doc__',
                                   '__path__', '__package__'):
                n += 1
                R.bad('defined-before-use', '%r' % e.name,
                      'is read without a value when the module is imported',
                      e)
        if not n:
            R.ok('defined-before-use', 'module ' + m.short, '')


RULES = [reads, constructed, modules]
