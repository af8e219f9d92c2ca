#!/bin/bash
# Applies each group of the behaviour-preserving refactorings in refactors/ to /repo, runs the checks, undoes it.
# usage: tools/quiet.sh "bezier bspline ..." C01 C02 ...   (every check has to stay quiet)
cd /repo && [ -z "$(git status --short)" ] || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for f in $1; do git apply /verif/refactors/$f.diff || exit 9; done
shift
cd /verif
for c in "$@"; do
  VERIF_SEED=1 python3 check.py $c --tier quick > /tmp/quiet.$$ 2>&1; r=$?
  echo "$c rc=$r"; [ $r = 0 ] || tail -5 /tmp/quiet.$$ | cut -c1-800
done
rm -f /tmp/quiet.$$
