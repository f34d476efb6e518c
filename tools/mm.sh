#!/bin/bash
# mm.sh MUTS NAME PROP: the named edit in /tmp/mm, and what PROP says of it
cd "$(dirname "$0")/.." || exit 2
KEEP=1 python3 tools/try.py muts "$1" "^$2\$" && RSA_REPO=/tmp/mm RSA_EVIDENCE=/tmp/ev timeout 300 python3 -m rsa "$3" 2>&1 | cut -c1-"${4:-400}"
