#!/bin/bash
# seedtest.sh ID...: validates planted bugs: builds, stable tests, demonstration (scratch copy), then the property's check on /repo.
# NOCHECK=1 skips the check; ALL=1 runs every check.
for id in "$@"; do
  S=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  W=$(mktemp -d)
  git -C /repo archive HEAD | tar -x -C "$W"
  ( cd "$W"; . /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedtarget
    bash "$S/demo.sh" >/tmp/seed-demo0.log 2>&1; c=$?
    git init -q . ; git apply "$S/patch.diff" || echo "PATCH FAILS"
    cargo test --offline --lib >/tmp/seed-test.log 2>&1; t=$?
    n=$(grep -c '\.\.\. ok' /tmp/seed-test.log)
    bash "$S/demo.sh" >/tmp/seed-demo1.log 2>&1; d=$?
    echo "$id [$P] demo-clean=$c tests=$t($n ok) demo-patched=$d $(grep -m1 -E 'panicked|error' /tmp/seed-demo1.log | cut -c1-100)" )
  rm -rf "$W"
  [ -n "$NOCHECK" ] && continue
  git -C /repo apply "$S/patch.diff" || continue
  L="$P"; [ -n "$ALL" ] && L=$(seq -f 'C%02g' 1 ${NPROP:-27})
  for q in $L; do
    s=$(date +%s)
    (cd /verif && python3 check.py $q --tier quick >/tmp/seed-check.log 2>&1); r=$?
    e=$(date +%s)
    [ -n "$ALL" -a $r = 0 ] && continue
    echo "   check $q rc=$r $((e-s))s $(grep -m1 VIOLATION /tmp/seed-check.log | cut -c1-90) $(grep -m1 -i 'class' /tmp/seed-check.log | cut -c1-150)"
  done
  git -C /repo checkout -- .
done
