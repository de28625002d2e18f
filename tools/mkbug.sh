#!/bin/bash
# usage: mkbug.sh ID FILE(python edit script run in a scratch copy)   -> writes seeded/ID/patch.diff and tries demo.sh on both trees
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/bug-$ID
mkdir -p "$W"; cp -a /repo/. "$W/" 
cd "$W" && git checkout -q -- . 
if [ -n "${2:-}" ]; then python3 "$2" || exit 1; git diff > "$S/patch.diff"; else git apply "$S/patch.diff" || exit 1; fi
[ -s "$S/patch.diff" ] || { echo "$ID: empty patch"; exit 1; }
D=/tmp/bugdemo-$ID; mkdir -p "$D"; cp "$S"/* "$D/"; rm -f "$D/patch.diff" "$D/meta.json"
(cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/bug-$ID.clean 2>&1); a=$?
(cd "$W" && timeout 300 bash "$D/demo.sh" >/tmp/bug-$ID.patched 2>&1); b=$?
echo "$ID: demo clean=$a patched=$b"
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ -z "${NOCHECK:-}" ]; then (cd /verif && VERIF_REPO=$W timeout 900 python3 run.py $P quick > /tmp/bug-$ID.check 2>&1); echo "$ID: check $P rc=$? $(grep -a -m1 'unit ' /tmp/bug-$ID.check | cut -c1-200)"; fi
rm -rf "/tmp/bug-$ID" "/tmp/bugdemo-$ID"
