#!/bin/bash
# tools/devall.sh file.cpp cases [t1 t2 ...]: build once (stop on failure), then run each target
f=$1; n=$2; shift 2
LINES_MAX=${LINES_MAX:-12} tools/dev.sh C99 $f $n --build-only > /tmp/devall.txt 2>&1 || true
if grep -q "BUILD FAILED" /tmp/devall.txt; then grep -E "error|BUILD FAILED|note:.*required" /tmp/devall.txt | cut -c1-${W:-260} | head -14; exit 1; fi
for t in "$@"; do LINES_MAX=${LINES_MAX:-12} tools/dev.sh C99 $f $n --only $t | cut -c1-400; done
