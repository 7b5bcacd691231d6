#!/bin/bash
# tools/plant.sh <seeded id> [check ids...]: confirm a planted bug in a scratch copy of /repo
# (its own mount namespace, so that build.sh, test.sh and demo.sh see the copy as /repo).
id=$1; shift
S=/var/tmp/pl; W=$S/$id
mkdir -p $S
rm -rf "$S/$id" "$S/$id.build"
cp -a /repo "$W"; cp -a /verif/.build "$W.build"
cp -r /verif/seeded/$id "$W.seeded"
export W id
unshare -Urm bash -c '
mount --bind "$W" /repo && mount -t tmpfs tmpfs /tmp || exit 9
cd /repo
if [ -z "$SKIPCLEAN" ]; then
  bash "$W.seeded/demo.sh" >/tmp/clean.out 2>&1; echo "demo clean: $? (0 wanted)"; tail -3 /tmp/clean.out
fi
git apply "$W.seeded/patch.diff" || { echo "patch does not apply"; exit 8; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "BUILD FAILED"; grep error /tmp/b.log | head; exit 7; }
bash "$W.seeded/demo.sh" >/tmp/bug.out 2>&1; echo "demo with bug: $? (nonzero wanted)"; tail -3 /tmp/bug.out
if [ -z "$SKIPTESTS" ]; then
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); t=json.load(open(\"/tmp/t.json\"))
bad=[x for x in b[\"stable\"] if x not in set(t[\"passed\"])]
print(\"stable tests lost: %d\" % len(bad), bad[:3])"
fi
[ -z "$PROBE" ] || { cp "$PROBE" /tmp/pr; MEEVAX_VERIF_BUILD="$W.build" python3 -c "import sys; sys.path.insert(0,'"'"'/verif/lib'"'"'); import build; build.build('"'"'opt'"'"')"; PB="$W.build" python3 /verif/tools/probe.py /tmp/pr; }
cd /verif
for c in '"$*"'; do MEEVAX_VERIF_BUILD="$W.build" VERIF_SEED=1 VERIF_MAXV=2 timeout 900 python3 checks/run.py $c 2>&1 | cut -c1-300 | head -12; done
'
rm -rf "$S/$id" "$S/$id.build" "$S/$id.seeded"
