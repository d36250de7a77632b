#!/bin/bash
# Confirm a planted bug in a private mount namespace: plant.sh ID [check.py ...]
# (/repo there is a scratch copy of the real one; nothing outside it is touched)
ID=$1; shift
S=/verif/seeded/$ID
PROP=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $S/meta.json)
CH=("$@"); [ ${#CH[@]} = 0 ] && CH=(checks/$(echo $PROP | tr A-Z a-z).py)
W=$(mktemp -d /tmp/plant.XXXXXX)
mkdir $W/repo $W/tmp $W/demo
cp -a /repo/. $W/repo/
cp -a $S/. $W/demo/; rm -f $W/demo/*.diff $W/demo/*.patch $W/demo/meta.json
cp -a $S/patch.diff $W/tmp/patch.diff
export S PROP W NOCHECK NOTEST
unshare -Urm bash -c '
mount --bind $W/repo /repo
mkdir $W/tmp/demo; cp -a $W/demo/. $W/tmp/demo/
mount --bind $W/tmp /tmp
cd /repo; git config --global --add safe.directory /repo 2>/dev/null
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/b0.log 2>&1 || { echo "clean build FAILED"; exit 1; }
timeout 300 bash /tmp/demo/demo.sh >/tmp/d0.log 2>&1; echo "demo clean: $?"
git checkout -q -- .; git apply /tmp/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/b1.log 2>&1 || { echo "patched build FAILED"; tail -20 /tmp/b1.log; exit 1; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 -c "
import json
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]); p=set(json.load(open(\"/tmp/t.json\"))[\"passed\"])
print(\"tests:\", len(b&p), \"of\", len(b), sorted(b-p))"; fi
timeout 300 bash /tmp/demo/demo.sh >/tmp/d1.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/d1.log
if [ -z "$NOCHECK" ]; then cd /verif; for c in "$@"; do
VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3-vt $c > /tmp/c.log 2>&1; echo "$c: rc=$?"; grep -A1 VIOLATION /tmp/c.log | head -4; tail -1 /tmp/c.log; done; fi
' plant "${CH[@]}"
rm -rf "$W"
