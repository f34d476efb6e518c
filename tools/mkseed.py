"""Create planted bugs from tools/seeds.py (run: mkseed.py [ID ...]).

Writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} and confirms that
the demonstration passes on /repo and fails with the change.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS  # noqa

DEMO = '''#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
HEAD = '''import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)


for s in SEEDS:
    if sys.argv[1:] and s['id'] not in sys.argv[1:]:
        continue
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    r = t + '/r'
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(r, 'src/rascal', f)
        x = open(p).read()
        if x.count(old) < 1:
            print(s['id'], 'TEXT NOT FOUND', repr(old[:60]))
            ok = False
            break
        open(p, 'w').write(x.replace(old, new, 1))
    if not ok:
        shutil.rmtree(t)
        continue
    diff = sh(['git', 'diff'], r).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(HEAD + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'],
               'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    a = sh(['bash', d + '/demo.sh'], '/repo')
    b = sh(['bash', d + '/demo.sh'], r)
    # lines touched must be lines of the original repository
    own = []
    for f in {e[0] for e in s['edits']}:
        bl = sh(['git', 'blame', '-s', 'HEAD', '--', 'src/rascal/' + f],
                r).stdout.splitlines()
        n = 0
        for h in diff.splitlines():
            if h.startswith('@@'):
                n = int(h.split('-')[1].split(',')[0].split(' ')[0])
            elif h.startswith('-') and not h.startswith('---'):
                if n - 1 < len(bl) and not bl[n - 1].startswith('^'):
                    own.append(bl[n - 1][:60])
                n += 1
            elif h.startswith(' '):
                n += 1
    print(s['id'], 'ok' if a.returncode == 0 and b.returncode != 0
          else 'BAD clean=%d patched=%d' % (a.returncode, b.returncode),
          'OWN LINES %s' % own[:2] if own and len(
              {e[0] for e in s['edits']}) == 1 else '',
          (a.stderr.strip().splitlines() or [''])[-1][:100]
          if a.returncode else '',
          '| ' + (b.stderr.strip().splitlines() or [''])[-1][:100])
    shutil.rmtree(t)
