"""Run the checks on an edited scratch copy of /repo.

try.py edit FILE OLD NEW [PROP ...]   one textual edit
try.py patch PATCH.diff [PROP ...]    a patch
try.py seeds [ID ...]                 every planted bug (all checks)
try.py muts FILE.py [NAME ...]        edits listed in FILE.py (EDITS)
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rules():
    d = os.path.join(HERE, 'rsa', 'rules')
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if re.match(r'c\d+\.py', f))


def copy():
    t = tempfile.mkdtemp(prefix='rsatry')
    for d in ('src', 'examples'):
        shutil.copytree('/repo/' + d, t + '/' + d, ignore=lambda p, n: [
            x for x in n if not x.endswith(('.py', '.csv')) and not
            os.path.isdir(os.path.join(p, x))])
    return t


def one(args):
    t, p = args
    env = dict(os.environ, RSA_REPO=t, RSA_EVIDENCE=t + '/ev')
    r = subprocess.run([sys.executable, '-m', 'rsa', p], cwd=HERE, env=env,
                       capture_output=True, text=True)
    v = [x.strip() for x in r.stdout.splitlines() if x.startswith('  ')]
    u = [x.strip() for x in r.stdout.splitlines() if x.startswith('UNDEC')]
    if r.returncode not in (0, 1):
        u.append('EXIT %d %s' % (r.returncode, r.stderr[-300:]))
    return p, r.returncode, v, u


def check(t, props, pool):
    return list(pool.map(one, [(t, p) for p in props]))


def show(name, res, expect=None, width=230):
    hit = [p for p, rc, v, u in res if rc == 1]
    print('%-34s %s%s' % (name, ' '.join(hit) or '-', '' if expect is None
                          else '   expected %s: %s' % (
                              expect, 'CAUGHT' if expect in hit else
                              ('ok' if expect == 'none' and not hit
                               else 'MISSED'))))
    for p, rc, v, u in res:
        for x in v[:3]:
            print('      %s %s' % (p, x[:width]))
        for x in u[:2] if os.environ.get('SHOWU') else ():
            print('      %s %s' % (p, x[:width]))
    sys.stdout.flush()


def main():
    mode, a = sys.argv[1], sys.argv[2:]
    with cf.ThreadPoolExecutor(8) as pool:
        if mode == 'edit':
            t = copy()
            f = os.path.join(t, a[0])
            s = open(f).read()
            assert s.count(a[1]) >= 1, 'text not found'
            open(f, 'w').write(s.replace(a[1], a[2], 1))
            show('edit', check(t, a[3:] or rules(), pool))
            shutil.rmtree(t)
        elif mode == 'patch':
            t = copy()
            subprocess.check_call(['patch', '-p1', '-s', '-i',
                                   os.path.abspath(a[0])], cwd=t)
            show(a[0], check(t, a[1:] or rules(), pool))
            shutil.rmtree(t)
        elif mode == 'seeds':
            for s in sorted(os.listdir(HERE + '/seeded')):
                d = HERE + '/seeded/' + s
                if a and s not in a or not os.path.exists(d + '/patch.diff'):
                    continue
                t = copy()
                subprocess.check_call(['patch', '-p1', '-s', '-i',
                                       d + '/patch.diff'], cwd=t)
                want = json.load(open(d + '/meta.json'))['property']
                show(s, check(t, rules() if os.environ.get('ALL')
                              else [want], pool), want)
                shutil.rmtree(t)
        elif mode == 'muts':
            sp = importlib.util.spec_from_file_location('m', a[0])
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            for name, expect, edits in m.EDITS:
                if a[1:] and not any(re.search(x, name) for x in a[1:]):
                    continue
                t = copy()
                bad = None
                for f, old, new in edits:
                    p = os.path.join(t, 'src/rascal', f)
                    s = open(p).read()
                    if old not in s:
                        bad = old
                        break
                    s = s.replace(old, new, 1)
                    try:
                        compile(s, f, 'exec')
                    except SyntaxError as e:
                        bad = str(e)
                    open(p, 'w').write(s)
                if bad:
                    print('%-34s BAD EDIT %r' % (name, bad[:80]))
                elif os.environ.get('KEEP'):
                    shutil.rmtree('/tmp/mm', ignore_errors=True)
                    shutil.copytree(t, '/tmp/mm')
                else:
                    props = rules()
                    if expect != 'none' and not os.environ.get('ALL'):
                        props = [x for x in props if x == expect]
                    show(name, check(t, props, pool), expect)
                shutil.rmtree(t)


main()
