"""Systematic small edits of /repo/src/rascal: which does no check notice?

mutate.py N SEED [FILE-REGEX [FUNC-REGEX]]   prints survivors with their diff
"""
import ast
import concurrent.futures as cf
import os
import random
import re
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
try_ = importlib.import_module('try')

SRC = '/repo/src/rascal/'
FIRST = {'util.py': 'C05 C07 C30 C04 C06', 'atlas.py': 'C23 C06 C04 C19',
         'calibrator.py': 'C10 C25 C12 C11 C31 C13 C08 C24 C09',
         'houghtransform.py': 'C26 C15 C14', 'models.py': 'C17 C11',
         'plotting.py': 'C03 C02 C14 C20 C21', 'synthetic.py': 'C27 C20'}
PAIR = [('min', 'max'), ('argmin', 'argmax'), ('minimum', 'maximum'),
        ('min_intercept', 'max_intercept'), ('min_slope', 'max_slope'),
        ('xbins', 'ybins'), ('xedges', 'yedges'), ('peaks', 'matched_peaks'),
        ('min_wavelength', 'max_wavelength'), ('all', 'any'),
        ('range_tolerance', 'linearity_tolerance'),
        ('min_atlas_wavelength', 'max_atlas_wavelength'),
        ('matched_peaks', 'matched_atlas'), ('pix_known', 'wave_known'),
        ('wavelength', 'intensity'), ('element', 'intensity'),
        ('temperature', 'pressure'), ('ransac_tolerance', 'range_tolerance'),
        ('candidate_peak', 'candidate_arc'), ('fit_deg', 'sample_size'),
        ('pixel_list', 'peaks'), ('sum', 'max'), ('left', 'right'),
        ('hough_points', 'hough_lines'), ('polyval', 'polyfit'),
        ('zeros', 'ones'), ('isfinite', 'isnan')]
SWAP = {}
for a, b in PAIR:
    SWAP.setdefault(a, []).append(b)
    SWAP.setdefault(b, []).append(a)
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'],
       ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
OPS = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
       ast.Pow: ['*'], ast.BitOr: ['&'], ast.BitAnd: ['|']}


def edits(name, src):
    """[(start, end, text, function)] over the source."""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x))

    def pos(l, c):
        return off[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno,
                                                n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def between(a, b, new, fn):
        s, e = span(a)[1], span(b)[0]
        m = re.search(r'not\s+in|is\s+not|[<>=!]=|[<>+\-*/|&]{1,2}|\bin\b'
                      r'|\bis\b|\band\b|\bor\b', src[s:e])
        if m:
            out.append((s + m.start(), s + m.end(), new, fn))

    def visit(n, fn, cls):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                fn = (cls + '.' if cls else '') + n.name
                for d in n.args.defaults:
                    if isinstance(d, ast.Constant):
                        visit(d, fn, cls)
            else:
                cls = n.name
            for c in n.body:
                visit(c, fn, cls)
            return
        if isinstance(n, ast.Expr):
            t = text(n)
            if isinstance(n.value, ast.Constant) or 'logger' in t or \
                    'warn' in t:
                return
            if fn and isinstance(n.value, ast.Call):
                out.append(span(n) + ('pass', fn))
        if isinstance(n, ast.Raise):
            return
        if fn and isinstance(n, (ast.Assign, ast.AugAssign)):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tg, (ast.Attribute, ast.Subscript)) or isinstance(
                    n, ast.AugAssign):
                out.append(span(n) + ('pass', fn))
            elif isinstance(tg, ast.Name) and any(
                    isinstance(x, ast.Name) and x.id == tg.id
                    for x in ast.walk(n.value)):
                out.append(span(n) + ('pass', fn))
        if isinstance(n, ast.Continue):
            out.append(span(n) + ('break', fn))
            out.append(span(n) + ('pass', fn))
        if isinstance(n, ast.Break):
            out.append(span(n) + ('continue', fn))
        if isinstance(n, ast.Assert):
            out.append(span(n) + ('pass', fn))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append(span(n.test) + ('not (%s)' % text(n.test), fn))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for w in CMP.get(type(n.ops[0]), ()):
                between(n.left, n.comparators[0], w, fn)
        if isinstance(n, ast.BinOp):
            for w in OPS.get(type(n.op), ()):
                between(n.left, n.right, w, fn)
        if isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], 'or' if isinstance(
                n.op, ast.And) else 'and', fn)
        if isinstance(n, ast.UnaryOp):
            out.append(span(n) + (text(n.operand), fn))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                out.append(span(n) + (str(not v), fn))
            elif isinstance(v, int):
                out.append(span(n) + (str(v + 1), fn))
                if v:
                    out.append(span(n) + (str(v - 1), fn))
            elif isinstance(v, float):
                out.append(span(n) + (repr(v * 1.5 + 0.1), fn))
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for w in SWAP.get(n.id, ()):
                out.append(span(n) + (w, fn))
        if isinstance(n, ast.Attribute):
            for w in SWAP.get(n.attr, ()):
                e = span(n)[1]
                out.append((e - len(n.attr), e, w, fn))
        if isinstance(n, ast.Call):
            t = text(n.func)
            if 'logger' in t or t == 'print':
                return
            if t.endswith(('.copy', '.flatten', '.astype', '.sort')):
                out.append((span(n.func)[1] - len(n.func.attr) - 1,
                            span(n)[1], '', fn))
            if t in ('copy.deepcopy', 'np.array', 'np.asarray', 'np.unique',
                     'np.sort', 'np.abs', 'sorted', 'list', 'float', 'int',
                     'len', 'np.sqrt', 'np.ptp') and n.args:
                out.append(span(n) + (text(n.args[0]), fn))
            if len(n.args) >= 2:
                a, b = n.args[0], n.args[1]
                out.append((span(a)[0], span(b)[1], text(b) + ', ' + text(a),
                            fn))
            if len(n.args) >= 2 and not n.keywords:
                out.append((span(n.args[-2])[1], span(n.args[-1])[1], '',
                            fn))
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    m = re.match(r'\s*,', src[b:])
                    out.append((a, b + (m.end() if m else 0), '', fn))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append((span(n.value)[1], span(n)[1], '', fn))
        for c in ast.iter_child_nodes(n):
            visit(c, fn, cls)
    for n in tree.body:
        visit(n, '', '')
    return out


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    fre = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
    gre = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
    todo = []
    for f in sorted(os.listdir(SRC)):
        if not f.endswith('.py') or f == '__init__.py' or not fre.search(f):
            continue
        src = open(SRC + f).read()
        for e in edits(f, src):
            if gre.search(e[3] or ''):
                todo.append((f, src) + e)
    random.Random(seed).shuffle(todo)
    print(len(todo), 'edits; running', min(N, len(todo)), flush=True)
    rules = try_.rules()

    def run(job):
        f, src, a, b, new, fn = job
        s = src[:a] + new + src[b:]
        try:
            compile(s, f, 'exec')
        except SyntaxError:
            return None
        t = try_.copy()
        try:
            open(t + '/src/rascal/' + f, 'w').write(s)
            first = FIRST.get(f, '').split()
            hit, und = [], []
            for p in first + [r for r in rules if r not in first]:
                _, rc, v, u = try_.one((t, p))
                if rc == 1:
                    hit.append(p)
                    break
                if u:
                    und.append(p)
            return hit, und
        finally:
            shutil.rmtree(t, ignore_errors=True)
    n = c = 0
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as pool:
        for job, r in zip(todo[:N], pool.map(run, todo[:N])):
            if r is None:
                continue
            n += 1
            f, src, a, b, new, fn = job
            if r[0]:
                c += 1
                continue
            line = src.count('\n', 0, a) + 1
            ctx = src[src.rfind('\n', 0, a) + 1:src.find('\n', b)]
            print('%s:%d %s  undecided %s\n    %s\n    %r -> %r' % (
                f, line, fn, ' '.join(r[1]) or '-', ' '.join(ctx.split())[
                    :160], src[a:b][:80], new[:80]), flush=True)
    print('%d of %d caught' % (c, n))


main()
