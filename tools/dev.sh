#!/bin/bash
# developer view of one check: one line per failing scenario
cd "$(dirname "$0")/.." && VERIF_ALL=200 VERIF_STRICT=1 VERIF_VERBOSE=1 python3 run.py "$@" > /tmp/dev.$1.txt 2>&1
head -1 /tmp/dev.$1.txt; grep -E "^  scenario|^NOTE|^ERROR|^KNOWN|covered" /tmp/dev.$1.txt | cut -c1-${W:-330} | sort -u
