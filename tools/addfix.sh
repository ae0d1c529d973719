#!/bin/bash
# addfix.sh PROPERTY "what failed"  - record the last commit of /repo as a fix
h=${3:-$(git -C /repo log -1 --format=%h)}
cd "$(dirname "$0")/.."
python3 - "$1" "$h" "$2" <<'P'
import sys
p='tools/more_findings.py'
s=open(p).read()
s=s.replace("]\nOPEN", " (%r, %r, %r),\n]\nOPEN" % tuple(sys.argv[1:4]),1)
open(p,'w').write(s)
P
python3 tools/gen_findings.py
