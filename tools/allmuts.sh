#!/bin/bash
# every edit list; prints only the surprises
cd "$(dirname "$0")/.." || exit 2
for f in tools/muts*.py; do
  timeout 3000 python3 tools/try.py muts "$f" 2>&1 | cut -c1-220 | grep -v "^ " | grep -v "CAUGHT\|ok$" | sed "s#^#$f #"
done
echo finished
