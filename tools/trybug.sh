#!/bin/bash
# usage: trybug.sh SEED CHECK... : run checks against a seeded bug
s=$1; shift
cd /verif
git -C /repo apply /verif/seeded/$s/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
for c in "$@"; do
  out=$(python3 mc/run.py $c 2>&1); rc=$?
  echo "$s $c rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | tail -1 | cut -c1-200)"
done
