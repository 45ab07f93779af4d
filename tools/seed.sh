#!/bin/bash
# seed.sh <id> <property> : turn the current uncommitted change of /repo into seeded/<id>, confirm it, undo it
# (demo.sh and meta.json texts are given by DEMO=<file> NEEDS=... BREAKS=...)
set -e
id=$1; prop=$2
d=/verif/seeded/$id; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cat > "$d/demo.py"
cat > "$d/demo.sh" <<'S'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
cd CasimirRio && PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 $PY "$here/demo.py"
S
python3 - "$d" "$prop" <<'P'
import json,sys,os
json.dump({"property":sys.argv[2],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd /repo
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && b=ok || b=FAIL
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1 || true
t=$(python3 - <<'P'
import json
o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
bl=b if isinstance(b,list) else (b.get('passed') or b.get('stable') or list(b.values())[0])
m=[x for x in bl if x not in o['passed']]
print("ok" if not m else "FAIL %s"%m)
P
)
bash "$d/demo.sh" >/tmp/seed.demo1 2>&1 && x=NOT-FAILING || x=fails
cd /verif
shift 2
python3-vt -m sa.run $prop "$@" 2>&1 | cut -c1-260 | tail -4
cd /repo; git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
bash "$d/demo.sh" >/tmp/seed.demo2 2>&1 && y=passes || y=BROKEN
echo "seed $id: build $b, tests $t, demo with change $x, without $y"
tail -3 /tmp/seed.demo1; [ $y = passes ] || tail -5 /tmp/seed.demo2
