#!/bin/bash
# tools/mut.sh <file under CasimirRio> <python-replace-old> <new> <props...>: run checks on a scratch copy with one textual change
f=$1; old=$2; new=$3; shift 3
d=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/. "$d"/
F="$d/CasimirRio/$f" OLD="$old" NEW="$new" python3 - <<'P'
import os,sys
p=os.environ["F"]; s=open(p,encoding="utf8").read(); o=os.environ["OLD"]; n=os.environ["NEW"]
c=s.count(o)
if c==0: print("PATTERN NOT FOUND"); sys.exit()
s=s.replace(o,n,1) if os.environ.get("ALL") is None else s.replace(o,n)
open(p,"w",encoding="utf8").write(s)
P
for c in "$@"; do CAS_REPO=$d SA_LIST=1 timeout 900 python3-vt -m sa.run $c 2>&1 | grep -v "^  holds" | cut -c1-${C:-220} | tail -${T:-6}; done
case "$d" in /tmp/mut.*) rm -rf "$d";; esac
