#!/bin/bash
# tools/plant.sh ID...: confirms planted bugs in a scratch copy of /repo seen at /repo in a mount namespace of its own
# (demo passes unchanged, fails patched; stable tests pass), and says whether the property's check catches it.  NOTEST=1 skips the tests.
V=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
C=/tmp/plant-$ID
rm -rf "$C"; cp -a /repo "$C"
unshare -m bash -c '
mount --make-rprivate / ; mount --bind "'$C'" /repo; cd /repo
S="'$V'/seeded/'$ID'"
P=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open(sys.argv[1]))[\"property\"])" $S/meta.json)
bash $S/demo.sh >/tmp/plant-'$ID'.d0 2>&1; echo "'$ID' demo unchanged: $? (want 0)"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/plant-'$ID'.b 2>&1 || { echo "'$ID' BUILD FAILS"; tail -5 /tmp/plant-'$ID'.b; exit 1; }
bash $S/demo.sh >/tmp/plant-'$ID'.d1 2>&1; echo "'$ID' demo patched: $? (want !=0): $(tail -1 /tmp/plant-'$ID'.d1)"
[ -z "$NOCHECK" ] && cd "'$V'" && /opt/venv/bin/python check.py $P >/tmp/plant-'$ID'.c 2>&1; echo "'$ID' check $P exit $? (want 1): $(grep VIOLATION /tmp/plant-'$ID'.c | head -3)"
cd /repo
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/plant-'$ID'.json >/tmp/plant-'$ID'.t 2>&1
/opt/venv/bin/python - <<X
import json
b=json.load(open("/opt/vp/BASELINE.json")); b=b["stable"]
r=set(json.load(open("/tmp/plant-'$ID'.json"))["passed"])
m=[t for t in b if t not in r]
print("'$ID' stable tests missing:", len(m), m[:5])
X
fi
'
rm -rf "$C"
done
