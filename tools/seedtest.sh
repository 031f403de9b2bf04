#!/bin/bash
# seedtest.sh ID... : for each planted bug: demo on the clean tree, then with the
# patch: build, repository tests, demo, and the quick check of its property.
# Leaves /repo as it was.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/seed.$id.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOTESTS" ]; then
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
    t=$(bash /opt/vp/test.sh /tmp/seed.json | tail -1)
  fi
  bash $d/demo.sh >/tmp/seed.$id.patched 2>&1; p=$?
  v=skipped
  [ -z "$NOCHECK" ] && { python3 /verif/check.py $prop quick >/tmp/seed.$id.check 2>&1; v="exit $? $(grep -c ^VIOLATION /tmp/seed.$id.check) violations"; }
  git checkout -q -- .
  echo "$id: demo clean=$c patched=$p | tests: $t (build $b) | $prop: $v"
done
