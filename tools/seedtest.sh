#!/bin/bash
# Run the stable tests (and the demonstration) on a seed, in a private mount
# namespace where a patched copy lies over /repo.   seedtest.sh ID
id=$1
here=$(dirname "$(dirname "$(realpath "$0")")")
tmp=/tmp/seedtest-$id
rm -rf "$tmp"; mkdir -p "$tmp/rep" "$tmp/demo"
cp -a /repo "$tmp/repo"
cp "$here/seeded/$id"/* "$tmp/demo/"
git -C "$tmp/repo" apply "$here/seeded/$id/patch.diff" || exit 2
unshare -m bash -c "
mount --bind $tmp/repo /repo; mount --bind $tmp/rep /opt/vp/reports || true
timeout 1500 bash /opt/vp/test.sh $tmp/out.json > $tmp/log 2>&1
cd /repo; timeout 300 bash $tmp/demo/demo.sh > $tmp/demo.log 2>&1; echo demo \$? > $tmp/demo.rc"
python3 - "$id" "$tmp" <<'P'
import json, sys
i, t = sys.argv[1:]
base = json.load(open('/opt/vp/BASELINE.json'))
try:
    out = json.load(open(t + '/out.json'))
except Exception as e:
    print(i, 'NO RESULT', e); sys.exit()
def passed(d):
    for k in ('passed', 'pass', 'stable'):
        if isinstance(d.get(k), list):
            return set(d[k])
    return {k for k, v in (d.get('tests') or d).items() if v in ('passed', 'pass', True)}
lost = passed(base) - passed(out)
print(i, 'tests', 'ok' if not lost else 'LOST %s' % sorted(lost), open(t + '/demo.rc').read().strip())
P
rm -rf "$tmp"
