"""C16: with a seed every random decision is reproducible."""
import ast
import re

from ..core import G, TRUE, FALSE, strip, isconst, show
from ..entry import Run
from ..front import Func
from ..q import runs, closure

DRAWS = re.compile(r'^(numpy\.random|random)\.(?!(seed|Random$|RandomState$|'
                   r'default_rng$|Generator$|SystemRandom$|get_state$|'
                   r'getstate$|set_state$|setstate$|SeedSequence$|PCG64$|'
                   r'MT19937$))')
OWN = re.compile(r'^(numpy\.random\.(RandomState|default_rng|Generator|'
                 r'SeedSequence|PCG64|MT19937)|random\.Random)$')
VARIES = re.compile(
    r'^(time\.(time|time_ns|perf_counter|monotonic|process_time|clock|'
    r'perf_counter_ns|monotonic_ns)|datetime\.(datetime|date)\.(now|today|'
    r'utcnow)|datetime\.(now|today|utcnow)|os\.(urandom|getpid|getppid|'
    r'listdir|scandir|times|environ\.get|getenv)|uuid\.\w+|secrets\.\w+|'
    r'random\.SystemRandom|id|hash|glob\.\w+|tempfile\.\w+|'
    r'threading\.get_ident|concurrent\.futures\.as_completed|'
    r'socket\.gethostname|platform\.node)$')
SETOK = {'len', 'sort', 'sorted', 'unique', 'min', 'max', 'any', 'all',
         'mkset', 'bool', 'isin', 'in'}


def everything(an):
    yield from runs(an)
    for m in an.prog.mods.values():
        fn = ast.parse('def module():\n pass').body[0]
        fn.body = list(m.tree.body)
        f = Func(m, fn)
        r = Run(an, f)
        an.allruns.pop()
        yield f, r


def seeded(n):
    """Is the value the seed the user gave?"""
    return any(x.op in ('param', 'field') and 'seed' in str(x.info).lower()
               or x.op == 'sub' and isconst(x.args[1]) and 'seed' in str(
                   x.args[1].info).lower()
               for x in closure(n, gates=False))


def module(name):
    return 'numpy.random' if name.startswith('numpy.random') else 'random'


def sources(an, R):
    seeds = set()
    for f, r in runs(an):
        for e in r.evs('call'):
            if e.name in ('numpy.random.seed', 'random.seed') and e.b and \
                    seeded(e.b[0]):
                seeds.add(module(e.name))
    done = set()
    for f, r in everything(an):
        for e in r.events:
            if e.kind not in ('call', 'mcall') or not G.sat(e.pc) or \
                    e.name is None:
                continue
            name = e.name
            if OWN.match(name):
                a = list(e.b or ()) + [v for _, v in e.c or ()]
                if not a or all(isconst(x) and x.info is None for x in a):
                    R.bad('seeded-generator', name, 'is created without the '
                          'seed', e)
                elif any(seeded(x) for x in a) or any(
                        x.op in ('rnd',) for x in a):
                    R.ok('seeded-generator', '%s in %s' % (name, e.fn), '')
                elif all(isconst(x) for x in a):
                    R.bad('seeded-generator', name, 'is created with the '
                          'fixed seed %s, not with the one given' % show(
                              a[0]), e)
                else:
                    R.unk('seeded-generator', '%s in %s' % (name, e.fn), '')
            elif DRAWS.match(name):
                if module(name) in seeds:
                    if (e.line, e.fn, name) in done:
                        continue
                    done.add((e.line, e.fn, name))
                    R.ok('draws-seeded', '%s at %s:%s' % (name, e.fn,
                                                          e.line), '')
                else:
                    R.bad('draws-seeded', name, 'is not drawn from the '
                          'generator that the seed initialises (%s)' % (
                              ', '.join(sorted(seeds)) or 'none'), e)
            elif VARIES.match(name):
                flows(R, f, r, e)
            elif name in ('numpy.random.seed', 'random.seed',
                          'numpy.random.set_state', 'random.setstate'):
                if (e.line, e.fn) not in done:
                    reseed(R, r, e, name)
                    done.add((e.line, e.fn))
    if not seeds:
        R.bad('seeding', 'generators', 'no generator is ever initialised '
              'with the seed')


def reseed(R, r, e, name):
    a = e.b[0] if e.b else None
    what = '%s in %s' % (name, e.fn)
    if a is None or not seeded(a):
        if a is not None and a.op not in ('const',) and not any(
                x.op in ('call', 'rnd') or isconst(x) for x in closure(a)):
            R.unk('reseeding', what, show(a, 3)[:150])
        else:
            R.bad('reseeding', what, 'the generator is reset to %s, which '
                  'is not the seed given' % (show(a, 3)[:120] if a is not
                                             None else 'an arbitrary state'),
                  e)
        return
    for c, l in G.leaves(a, e.pc):
        n = G.b.AND(c, G.isnone(strip(l)))
        if G.sat(n):
            R.bad('reseeding', what, 'the generator is reset although no '
                  'seed was given, when %s' % G.bshow(n, 2), e)
            return
    R.ok('reseeding', what, 'only with a given seed')


def flows(R, f, r, e):
    """A value that differs between runs must not influence results."""
    v = e.res
    what = '%s at %s:%s' % (e.name, e.fn, e.line)
    if v is None:
        R.unk('no-varying-input', what, '')
        return

    def uses(n):
        return any(x.vn == v.vn for x in closure(n))
    for x in r.events:
        if x.kind == 'store' and x.b is not None and x.a is not None and \
                uses(x.b) and G.sat(x.pc):
            R.bad('no-varying-input', what, 'reaches %s.%s' % (
                x.a.cls, x.name), e)
            return
        if x.kind in ('store', 'call') and (x.kind == 'store' or DRAWS.match(
                x.name or '')) and any(
                n.vn == v.vn for u in G.b.support(x.pc)
                for m in G.atoms[u][1] for n in closure(m)):
            R.bad('no-varying-input', what, 'decides whether %s is set' % (
                x.name), e)
            return
    if r.ret is not None and uses(r.ret) and not (r.self is None and
                                                  f.name.startswith('_')):
        R.bad('no-varying-input', what, 'reaches the result', e)
        return
    R.ok('no-varying-input', what, 'does not reach a result')


def seeding(an, R):
    """Whoever accepts a seed initialises the generator with it."""
    n = 0
    for f, r in runs(an):
        ps = [p for p in r.params if re.fullmatch(
            r'(random_?)?(seed|state)', p)]
        if not ps or r.end is None or f.name.startswith('_'):
            continue
        for p in ps:
            n += 1
            v = r.params[p]
            got = FALSE
            for e in r.evs('call'):
                if (e.name in ('numpy.random.seed', 'random.seed')
                        or OWN.match(e.name or '')) and e.b and any(
                            x.vn == v.vn for x in closure(e.b[0],
                                                          gates=False)):
                    got = G.b.OR(got, e.pc)
            want = G.b.AND(r.end.pc, G.b.NOT(G.isnone(v)))
            left = G.b.AND(want, G.b.NOT(got))
            if G.sat(left):
                R.bad('seeding', '%s of %s' % (p, f.full), 'does not '
                      'initialise the generator when %s' % G.bshow(left, 2),
                      at=f.full)
            else:
                R.ok('seeding', '%s of %s' % (p, f.full), '')
            # nothing is drawn after the parameter was read and before
            # the generator is initialised
    if not n:
        R.bad('anchor', 'seed', 'no public entry point accepts a seed')


def strings(x):
    for y in closure(x, gates=False):
        if y.op == 'const' and isinstance(y.info, str):
            return True
        if y.op in ('mcall', 'call') and str(y.info).split('.')[-1] in (
                'split', 'strip', 'lower', 'upper', 'format', 'join'):
            return True
        if y.op == 'fn' and y.info == 'str':
            return True
        if y.op == 'param' and 'element' in str(y.info):
            return True
        if y.op == 'field' and 'element' in str(y.info):
            return True
    return False


def sets(an, R):
    """The order of a set never decides anything."""
    n = 0
    for f, r in runs(an):
        vals = [(r.ret, 'the result', None)] if r.ret is not None else []
        for e in r.events:
            if e.kind == 'store' and e.b is not None:
                vals.append((e.b, e.name, e))
        seen = set()
        for v, where, e in vals:
            for x in closure(v):
                if x.uid in seen:
                    continue
                seen.add(x.uid)
                kids = list(x.args)
                for k in kids:
                    s = k
                    while s.op == 'wrap' and s.info in ('copy', 'deepcopy'):
                        s = s.args[0]
                    if not (s.op == 'fn' and s.info == 'mkset'):
                        continue
                    if x.op == 'fn' and x.info in SETOK or x.op in (
                            'bool', 'phi') or x.op == 'wrap' and x.info in (
                            'copy', 'deepcopy'):
                        continue
                    if x.op == 'wrap' and sorted_only(v, x):
                        continue
                    n += 1
                    if strings(s):
                        R.bad('set-order', 'set in %s' % f.full, 'the order '
                              'of %s, which differs between runs, reaches %s'
                              % (show(s, 3)[:120], where), e,
                              at=None if e else f.full)
                    else:
                        R.unk('set-order', 'set in %s' % f.full,
                              show(s, 3)[:120])
    R.ok('set-order', 'sets', '%d sets whose order matters' % n)


def sorted_only(v, w):
    """Is the list made from a set only ever sorted or counted?"""
    for x in closure(v):
        if any(a.uid == w.uid for a in x.args):
            if not (x.op == 'fn' and x.info in SETOK):
                return False
    return v.uid != w.uid


RULES = [sources, seeding, sets]
