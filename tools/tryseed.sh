#!/bin/bash
# tools/tryseed.sh DIR [notest|nocheck] : vets one planted bug in a private copy of /repo that is bind-mounted over /repo
# inside a mount namespace of its own: demo on the unchanged tree, patch, build, stable tests, demo, the property's check.
D=$(realpath "$1"); MODE=${2:-}; ID=$(basename "$D")
T=/tmp/tryseed/$ID; rm -rf "$T"; mkdir -p "$T"
cp -a /repo "$T/repo"
P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
cat > "$T/run.sh" <<X
mount --bind $T/repo /repo || exit 9
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >$T/b0.log 2>&1
timeout 300 bash $D/demo.sh >$T/demo0.log 2>&1; echo "demo unchanged: \$?"
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$T/b1.log 2>&1; echo "build: \$?"
timeout 300 bash $D/demo.sh >$T/demo1.log 2>&1; echo "demo patched: \$?"
if [ "$MODE" != notest ]; then
timeout -k 5 700 bash /opt/vp/test.sh $T/o.json >$T/t.log 2>&1
python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$T/o.json'))['passed'])
print('tests missing:', sorted(s-p)[:5])"
fi
if [ "$MODE" != nocheck ]; then
for p in $P \$ALSO; do
VF_BUILD=$T/build VF_EVIDENCE=$T/ev VF_REPLAYS=$T/rp timeout 1000 /verif/check \$p quick > $T/c.log 2>&1; echo "check \$p: \$?"; grep -h VIOLATION -B1 $T/c.log | head -2 | cut -c1-300
done
fi
X
unshare -Urm bash "$T/run.sh" 2>&1 | sed "s/^/[$ID] /"
rm -rf "$T/repo" "$T/build"
