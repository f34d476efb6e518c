"""Refresh the table of planted bugs in DESIGN.md."""
import glob
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what it breaks | needs |',
        '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % tuple(x.replace('|', '/') for x in (
        os.path.basename(d), m['property'], m['what_it_breaks'], m['needs'])))
p = H + '/DESIGN.md'
s = open(p).read()
s = re.sub('<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n%s\n'
           '<!-- /seeds -->' % '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
