#!/bin/bash
# trybug.sh ID [check ...]: confirms the planted bug seeded/ID in a scratch copy
# of /repo (mounted over /repo in a mount namespace of its own): patch applies,
# the demo passes without it, it builds, the stable tests pass, the demo fails.
# Then runs the given checks (default: the bug's own property) of a copy of
# /verif against it.
set -u
ID=$1; shift
ROOT=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "${TRYBUG_IN:-}" ]; then
  S=/tmp/trybug-$ID; rm -rf "$S"; mkdir -p "$S/repo" "$S/verif" "$S/demo" "$S/out"
  cp -a /repo/. "$S/repo/"; rsync -a --exclude=.git --exclude=replays --exclude=evidence /verif/ "$S/verif/"; mkdir -p "$S/verif/replays" "$S/verif/evidence"
  cp "$ROOT/seeded/$ID"/* "$S/demo/" ; mv "$S/demo/patch.diff" "$S/patch.diff"; mv "$S/demo/meta.json" "$S/meta.json"
  TRYBUG_IN=$S unshare -Urm bash "$ROOT/tools/trybug.sh" "$ID" "$@"; st=$?
  rm -rf "$S"; exit $st
fi
S=$TRYBUG_IN
mount --bind "$S/repo" /repo; mount --bind "$S/verif" /verif
cd /repo
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh >"$S/out/b0" 2>&1 || { echo "$ID: base build failed"; exit 9; }
(timeout 300 bash "$S/demo/demo.sh") >"$S/out/d0" 2>&1 || { echo "$ID: demo fails on the unchanged tree"; tail -5 "$S/out/d0"; exit 3; }
git apply --check "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 4; }
git apply "$S/patch.diff"
bash /opt/vp/build.sh >"$S/out/b1" 2>&1 || { echo "$ID: does not build"; tail -5 "$S/out/b1"; exit 5; }
(timeout 300 bash "$S/demo/demo.sh") >"$S/out/d1" 2>&1 && { echo "$ID: demo passes with the patch"; exit 6; }
if [ -z "${NOTESTS:-}" ]; then
bash /opt/vp/test.sh "$S/out/t.json" >"$S/out/t" 2>&1
python3 - "$S/out/t.json" <<'PY' || { echo "$ID: the stable tests notice"; exit 7; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); s=b.get('stable') or b.get('passed') or b
got=set(json.load(open(sys.argv[1]))['passed']); miss=[x for x in s if x not in got]
print(len(s)-len(miss),'tests pass'); print(*miss[:5],sep='\n'); sys.exit(bool(miss))
PY
fi
[ $# = 0 ] && set -- "$P"
for c in "$@"; do
  (cd /verif; VERIF_SEED=${VERIF_SEED:-1} timeout 900 bin/check $c --tier ${VERIF_TIER:-quick} --verbose) >"$S/out/c" 2>&1
  r=$?
  echo "$ID $c $r" >> /tmp/trybug.log
  echo "$ID: $c exit $r $(grep -m1 '^VIOLATION' "$S/out/c") $(grep -m1 -E '^FAIL' "$S/out/c")"
done
