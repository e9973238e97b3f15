#!/bin/bash
# seedtest.sh ID...: confirm planted changes in a scratch copy of /repo, seen as /repo in a private mount namespace
# (builds, stable tests pass, demo passes without and fails with the patch), then run the property's check on it.
V=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
S=/tmp/seedscratch_$ID
rm -rf "$S"; cp -a /repo "$S"; cp -a "$V/seeded/$ID" "$S.demo"
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
unshare -Urm bash -c '
S=$1; mount --bind $S /repo; cd /repo
( . /opt/vp/lib/env.sh; bash $S.demo/demo.sh >$S.clean.log 2>&1 ); echo "clean rc $?"
git apply $S.demo/patch.diff || exit 1
bash /opt/vp/test.sh $S.json >$S.test.log 2>&1
python3 - $S.json <<EOP
import json,sys
s=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p=set(json.load(open(sys.argv[1]))["passed"])
print("stable tests failing:", sorted(s-p))
EOP
( . /opt/vp/lib/env.sh; bash $S.demo/demo.sh >$S.patched.log 2>&1 ); echo "patched rc $?"
' x "$S" | sed "s/^/$ID /"
tail -2 "$S.clean.log" | sed "s/^/$ID clean: /"
tail -2 "$S.patched.log" | sed "s/^/$ID patched: /"
if [ -z "$NOCHECK" ]; then
(cd $V; VERIF_REPO=$S python3-vt check.py $P quick >$S.check.log 2>&1; echo "$ID check $P rc $?"; tail -3 $S.check.log | sed "s/^/$ID check: /")
fi
rm -rf "$S" "$S.demo"
done
