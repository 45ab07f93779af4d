#!/bin/bash
# try.sh <seed id> [props]: run checks against a seeded change on a scratch copy of the sources
d=$(mktemp -d /tmp/try.XXXXXX); cp -r /repo/CasimirRio $d/; (cd $d && git init -q . && git apply /verif/seeded/$1/patch.diff) || echo APPLY-FAILED
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])"); shift
cd /verif; CAS_REPO=$d python3-vt -m sa.run ${*:-$p} | cut -c1-${W:-220} | tail -${N:-3}
rm -r -- "$d"
