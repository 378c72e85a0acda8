#!/bin/bash
# dev: run one harness that is not in props.py yet: tools/dev.sh C99 file.cpp [cases] [args...]
id=$1; f=$2; n=${3:-300000}; shift; shift; shift || true
python3 - "$id" "$f" "$n" <<'P'
import json,sys
p='/verif/checks.json';c=json.load(open(p));c[sys.argv[1]]={"sources":[sys.argv[2]],"cases":int(sys.argv[3]),"rule":"x","libsrc":["src/estd/ext/willemt/bipbuffer/bipbuffer.c"]};json.dump(c,open(p,'w'),indent=1)
P
cd /verif && python3 check.py $id "$@" 2>&1 | cut -c1-400 | head -${LINES_MAX:-40}
