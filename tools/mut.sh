#!/bin/bash
# mut.sh PROP FILE 'python-expr on s' : run a check against a mutated copy (development aid)
cd /tmp/mut && git checkout -q -- . && python3 - "$2" "$3" <<'PY'
import sys
p,e=sys.argv[1:3]; s=open(p).read(); t=eval(e)
assert t!=s, 'mutation does nothing'
open(p,'w').write(t)
PY
[ $? = 0 ] || exit 9
git diff | grep '^[+-]' | grep -v '^+++\|^---'
cd /verif && MC_REPO=/tmp/mut python3 check.py $1 quick
cd /tmp/mut && git checkout -q -- .
