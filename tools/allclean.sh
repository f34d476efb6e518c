#!/bin/bash
# run every rule on /repo and print one line each
cd "$(dirname "$0")/.."
for f in rsa/rules/c??.py; do c=$(basename $f .py); echo ${c^^}; done | RSA_EVIDENCE=${RSA_EVIDENCE:-/tmp/ev} xargs -P8 -I{} sh -c 'python3 -m rsa {} | grep -v ^KNOWN | cut -c1-300' | sort
